#include <cybozu/atomic.hpp>
#define ONE(T) \
template T cybozu::AtomicAdd<T>(T*, T); \
template T cybozu::AtomicExchange<T>(T*, T); \
template T cybozu::AtomicCompareExchange<T>(T*, T, T);
ONE(int32_t)
ONE(uint32_t)
ONE(int64_t)
ONE(uint64_t)
