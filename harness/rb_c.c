#define X rb_c
#define AUG
#include "rb_impl.h"
