#include <cybozu/endian.hpp>
