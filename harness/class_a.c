#undef SMALL_CLASS_BRANCHLESS
#define F(x) ca_##x
struct small_class;
#include "small_class.h"
static struct small_class F(sc);
#include "class_impl.h"
