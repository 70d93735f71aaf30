#include "small_class.h"
void F(create)(unsigned g, float f, unsigned m, float *a) { small_class_create(&F(sc), g, f, m, a); }
unsigned F(off)(unsigned size) { return small_class_calc_offset_by_size(&F(sc), size); }
unsigned F(size)(unsigned cls) { return small_class_calc_size_by_offset(&F(sc), cls); }
/* first size in [from, to] whose class is not cls, or to + 1 */
unsigned long F(scan)(unsigned from, unsigned long to, unsigned cls)
{
	unsigned long s = from;
	for (; s <= to; s++) if (small_class_calc_offset_by_size(&F(sc), (unsigned)s) != cls) break;
	return s;
}
