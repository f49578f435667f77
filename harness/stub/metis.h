// Stand-in for METIS: the partition it returns is a choice of the explorer (parity.cpp).
#pragma once
#include <cstdint>
typedef int64_t idx_t;
typedef double real_t;
#define METIS_NOPTIONS 40
int METIS_SetDefaultOptions(idx_t*);
int METIS_PartGraphKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
