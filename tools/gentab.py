#!/usr/bin/env python3
"""Writes lib/fptables.h: correctly rounded sqrt and atan2 on small grids."""
import math
import os
K = 16
S = 640
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "fptables.h")
with open(out, "w") as f:
    f.write("/* generated by tools/gentab.py */\n#define FP_K %d\n#define FP_S %d\n" % (K, S))
    f.write("static const double fp_sqrt[FP_S + 1] = {\n")
    for i in range(S + 1):
        f.write("%s,\n" % math.sqrt(i).hex())
    f.write("};\nstatic const double fp_atan2[(2 * FP_K + 1) * (2 * FP_K + 1)] = {\n")
    for y in range(-K, K + 1):
        for x in range(-K, K + 1):
            f.write("%s,\n" % math.atan2(y, x).hex())
    f.write("};\n")
