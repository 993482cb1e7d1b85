// the repository's header with its 32-bit hash replaced by the harness's arbitrary hash; the real one stays available
#pragma once
#ifdef VF_REAL_HASH
#include_next "QueryEngine/MurmurHash1Inl.h"
#else
#define MurmurHash1Impl MurmurHash1Impl_real
#include_next "QueryEngine/MurmurHash1Inl.h"
#undef MurmurHash1Impl
extern "C" uint32_t MurmurHash1(const void* key, int len, const uint32_t seed);
static inline uint32_t MurmurHash1Impl(const void* key, int len, const uint32_t seed) { return MurmurHash1(key, len, seed); }
#endif
