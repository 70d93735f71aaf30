/* Exhaustive explorer: enumerates every sequence of choices by replay. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace mc {

struct Pruned {};

/* One execution.  Defined by the harness. */
typedef void (*body_t)();

/* Pick one of n (>=1) alternatives; all of them are explored. */
int choose(int n, const char *what);
/* Environment deviation: alternative 0 is the default answer; the number of non-zero
 * answers per execution is bounded by --faults. */
int choose_env(int n, const char *what);
/* Deviations still allowed in this execution. */
int env_left();
void env_set_budget(int n);
/* Deviation budget charge/inspect (used for preemption bounding). */

/* State cache: ends the execution (throws Pruned) when the state with this key was already
 * explored with at least as many remaining steps. */
void state(uint64_t key, int remaining);
/* The same without throwing: true if already explored. */
bool seen(uint64_t key, int remaining);
/* False while an already explored prefix is being replayed: expensive checks may be skipped. */
bool fresh();
/* End this execution silently. */
[[noreturn]] void prune();
/* States and transitions explored by the harness itself. */
void count(uint64_t states, uint64_t transitions);
/* A distinct observed outcome (for vacuity statistics). */
void outcome(uint64_t h);
/* Property evaluated. */
extern uint64_t n_checks;

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* Report a listed known finding (does not end the execution). */
void known(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

extern bool logging;
void log_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define LOG(...) do { if (mc::logging) mc::log_(__VA_ARGS__); } while (0)
#define CHECK(cond, ...) do { mc::n_checks++; if (__builtin_expect(!(cond), 0)) mc::fail(__VA_ARGS__); } while (0)

/* Command-line options --name=value. */
long opt(const char *name, long dflt);
const char *opts(const char *name, const char *dflt);

/* A violation that known_findings.txt may list under this key: reported as known and the execution ends if it does, a failure otherwise. */
[[noreturn]] void finding(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

int main(int argc, char **argv, body_t body);

/* Incremental hash. */
static inline uint64_t mix(uint64_t h, uint64_t x)
{
	h ^= x;
	h *= 0x9E3779B97F4A7C15ull;
	h ^= h >> 29;
	h *= 0xBF58476D1CE4E5B9ull;
	h ^= h >> 32;
	return h;
}
uint64_t hash_mem(uint64_t h, const void *p, size_t n);

/* Called before each execution to restore the library's globals. */
void restore_globals();
extern char *tls; extern size_t tls_size; extern std::vector<char> tls_image;

} // namespace mc
