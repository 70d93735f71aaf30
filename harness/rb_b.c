#define X rb_b
#define EXTKEY
#define TREEARG
#include "rb_impl.h"
