#include "stb_image.h"
