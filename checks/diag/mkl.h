#pragma once
#define LAPACK_ROW_MAJOR 101
extern "C" int LAPACKE_dstev(int layout, char jobz, int n, double* d, double* e, double* z, int ldz);
