#include "sut_impl.hpp"
DST_REGISTER(double, 6)
