#ifndef __clang__
#error "the clang build is not compiled by clang"
#endif
