#pragma once
#define LIKELY(x) (__builtin_expect((x), 1))
#define UNLIKELY(x) (__builtin_expect((x), 0))
#define FOLLY_LIKELY(x) LIKELY(x)
#define FOLLY_UNLIKELY(x) UNLIKELY(x)
