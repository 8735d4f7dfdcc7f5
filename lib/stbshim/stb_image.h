/* Declarations only: the third-party codecs are outside the encoding. */
#ifndef STBSHIM_H
#define STBSHIM_H
#include <assert.h>
#include <limits.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
unsigned char *stbi_load(char const *filename, int *x, int *y, int *comp, int req);
void stbi_image_free(void *p);
int stbi_write_png(char const *filename, int w, int h, int comp, const void *data, int stride);
int stbi_write_jpg(char const *filename, int w, int h, int comp, const void *data, int quality);
#endif
