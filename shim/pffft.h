// Stand-in for the pffft library header (the library is not installed here).
// Declarations follow pffft's public API; pffft_shim.cc implements it with a
// plain O(n log n) double-precision FFT in pffft's canonical ordering.
#ifndef VERIF_PFFFT_H
#define VERIF_PFFFT_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct PFFFT_Setup PFFFT_Setup;
typedef enum { PFFFT_FORWARD, PFFFT_BACKWARD } pffft_direction_t;
typedef enum { PFFFT_REAL, PFFFT_COMPLEX } pffft_transform_t;
PFFFT_Setup *pffft_new_setup(int N, pffft_transform_t transform);
void pffft_destroy_setup(PFFFT_Setup *);
void pffft_transform(PFFFT_Setup *setup, const float *input, float *output, float *work, pffft_direction_t direction);
void pffft_transform_ordered(PFFFT_Setup *setup, const float *input, float *output, float *work, pffft_direction_t direction);
void pffft_zreorder(PFFFT_Setup *setup, const float *input, float *output, pffft_direction_t direction);
void *pffft_aligned_malloc(size_t nb_bytes);
void pffft_aligned_free(void *);
#ifdef __cplusplus
}
#endif
#endif
