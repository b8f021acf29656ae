#include <folly/hash/Hash.h>
