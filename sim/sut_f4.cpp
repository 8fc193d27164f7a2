#include "sut_impl.hpp"
DST_REGISTER(float, 4)
