#define X rb_d
#define RB_COMPACT 1
#define TREEARG
#include "rb_impl.h"
