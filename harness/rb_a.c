#define X rb_a
#define RB_COMPACT 1
#define EXTKEY
#define AUG
#include "rb_impl.h"
