#pragma once
#include <cstdint>
#define FOLLY_MAYBE_UNUSED [[maybe_unused]]
#define FOLLY_FALLTHROUGH [[fallthrough]]
#define FOLLY_NODISCARD [[nodiscard]]
