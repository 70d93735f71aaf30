/* Environment under control: mmap/munmap/madvise/malloc/free as seen by the library. */
#pragma once
#include "mc.h"
#include <sys/mman.h>

namespace env {

struct Map { uintptr_t a; size_t n; };

/* Behaviour switches (reset to defaults by reset()). */
extern bool mmap_faults;          /* mmap may fail (deviation) */
extern bool malloc_faults;        /* malloc may fail (deviation) */
extern bool madvise_faults;       /* madvise may fail (deviation) */
extern bool advice_refused;       /* ... and did */
extern int advices;               /* well-formed madvise calls */
extern int complaints;            /* messages the library printed */
extern size_t place_align;        /* placements are chosen relative to this alignment (0: first fit) */
extern bool place_choice;         /* enumerate placements: aligned, +page, +align/2, -page */
extern bool place_touch;          /* also right behind and right before other mappings */
extern int first_place;           /* placement class used when !place_choice */
extern bool strict;               /* unmapped memory becomes inaccessible */
extern size_t mmap_limit;         /* total bytes the OS is willing to map */
extern size_t malloc_max;         /* largest heap block the system is willing to give */
extern bool fill_malloc;          /* scribble fresh malloc memory */
extern void (*on_call)(const char *what, uintptr_t a, size_t n);  /* scheduling hook for the concurrency engine */

extern void (*on_mmap_fail)();
extern size_t mprotected;         /* bytes passed to mprotect in this execution */
extern uintptr_t mprotect_at; extern int mprotect_prot;

void reset();

/* Accounting. */
size_t mapped_bytes();
size_t malloced_bytes();
size_t malloced_blocks();
int mmap_calls();
bool is_mapped(const void *p, size_t n);        /* fully inside memory obtained by mmap */
bool is_malloced(const void *p, size_t n);      /* fully inside one live malloc block */
bool is_owned(const void *p, size_t n);
const std::vector<Map> &maps();
int map_flags(const void *p);                    /* flags passed to mmap */
bool advised(const void *p, size_t n, int advice);

/* Hash of everything the library owns in the environment. */
uint64_t hash(uint64_t h);
/* The same without the contents of the given (sorted, disjoint) ranges. */
uint64_t hash_skip(uint64_t h, const std::vector<Map> &skip);
/* Addresses and sizes only. */
uint64_t layout_hash();
/* Snapshot of ownership, for "a failed call changes nothing". */
struct Own { size_t mapped, malloced, blocks; bool operator==(const Own &o) const { return mapped == o.mapped && malloced == o.malloced && blocks == o.blocks; } };
Own own();

} // namespace env
