#define SMALL_CLASS_BRANCHLESS 1
#define F(x) cb_##x
#include "small_class.h"
static struct small_class F(sc);
#include "class_impl.h"
