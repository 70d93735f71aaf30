/* Heap blocks of the library in sanitizer builds. */
#pragma once
#include "mc.h"
namespace env {
extern void (*on_bad_free)(void *p);      /* free() of something that is no live block */
size_t blocks();
size_t bytes();
int calls();
/* The live heap block containing [p, p+n). */
bool block_of(const void *p, size_t n, char **begin, size_t *size);
/* Give back everything that is left. */
void drop_all();
}
