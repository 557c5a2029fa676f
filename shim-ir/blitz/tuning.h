// Verifier's build only: blitz++ evaluates element-wise expressions with its scalar loop (no SIMD chunking, no binary unrolling).
#include_next <blitz/tuning.h>
#ifndef VERIF_TUNING
#define VERIF_TUNING
#undef BZ_MAX_BITS_FOR_BINARY_UNROLL
#undef BZ_VECTORIZED_LOOP_WIDTH
#define BZ_MAX_BITS_FOR_BINARY_UNROLL 1
#define BZ_VECTORIZED_LOOP_WIDTH 1
#undef BZ_ARRAY_EXPR_UNROLL
#undef BZ_ARRAY_STACK_TRAVERSAL_UNROLL
#undef BZ_ALIGN_BLOCKS_ON_CACHELINE_BOUNDARY
#include <cstddef>
namespace blitz {inline std::size_t huge(std::size_t) {return std::size_t(1)<<60;}}
#endif
