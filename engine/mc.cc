#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <link.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <atomic>
#include <algorithm>
#include <map>

extern "C" {
extern char __start_libdata[] __attribute__((weak));
extern char __stop_libdata[] __attribute__((weak));
}

namespace mc {

enum { MAX_PATH = 20000, MAX_WORKERS = 64, MAX_MSG = 4000, MAX_PREFIX = 1 << 20 };

struct ChoiceRec { short c, n; };

struct Slot {                         /* per worker, shared with the supervisor */
	volatile uint64_t progress;
	uint64_t execs, trans, states, pruned, checks, maxdepth, envdev;
	uint64_t prefix_no;
	int prefix_fresh, claimed;
	volatile int path_len;
	int fixed_len;
	ChoiceRec path[MAX_PATH];
	int deep_len; ChoiceRec deep[MAX_PATH];
	int last_len; ChoiceRec last[MAX_PATH];
	volatile int failed, done;
	char msg[MAX_MSG];
	int nondet;
};
struct KnownTab { std::atomic<int> lock; int n; char msg[64][400]; };

static Slot *slots;
static KnownTab *ktab;
static Slot *me;
static std::atomic<uint64_t> *table; static uint64_t table_mask;
static std::atomic<uint64_t> *outtab; static uint64_t outtab_mask = (1 << 16) - 1;
static std::atomic<uint8_t> *claims;
static std::atomic<uint64_t> *gcount; /* [0]=states, [1]=outcomes, [2]=table_full */
static int split = 2, nworkers = 1, wid, fault_budget = 0;
static int env_used; static int env_budget;
static int pos;
static bool replaying_only;
static std::vector<ChoiceRec> rpath;
bool logging;
uint64_t n_checks;
static FILE *logf_;
static std::map<std::string, std::string> args;
static body_t body_;
static int out_fd = 1;
static std::vector<char> gsnap;

uint64_t hash_mem(uint64_t h, const void *p, size_t n)
{
	const uint64_t K = 0x9E3779B97F4A7C15ull;
	const unsigned char *c = (const unsigned char *)p;
	uint64_t a = h ^ 0x1234567ull, b = h + K, d = ~h, e = h * K;
	while (n >= 32) {
		uint64_t x[4];
		memcpy(x, c, 32);
		a = (a ^ x[0]) * K; a ^= a >> 31;
		b = (b ^ x[1]) * K; b ^= b >> 31;
		d = (d ^ x[2]) * K; d ^= d >> 31;
		e = (e ^ x[3]) * K; e ^= e >> 31;
		c += 32; n -= 32;
	}
	h = mix(mix(mix(mix(h, a), b), d), e);
	while (n >= 8) { uint64_t x; memcpy(&x, c, 8); h = mix(h, x); c += 8; n -= 8; }
	if (n) { uint64_t x = 0; memcpy(&x, c, n); h = mix(h, x ^ ((uint64_t)n << 60)); }
	return h;
}

char *tls; size_t tls_size; std::vector<char> tls_image;        /* the library's thread-local variables */
static void snap_globals()
{
	dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *) {
		for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls = (char *)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; }
		return 1;       /* the program itself comes first */
	}, NULL);
	if (tls) tls_image.assign(tls, tls + tls_size);
	if (__start_libdata == NULL) return;
	gsnap.assign(__start_libdata, __stop_libdata);
}
void restore_globals()
{
	if (tls) memcpy(tls, tls_image.data(), tls_size);
	if (!gsnap.empty()) memcpy(__start_libdata, gsnap.data(), gsnap.size());
}

long opt(const char *n, long d)
{
	auto i = args.find(n);
	return i == args.end() ? d : strtol(i->second.c_str(), NULL, 0);
}
const char *opts(const char *n, const char *d)
{
	auto i = args.find(n);
	return i == args.end() ? d : i->second.c_str();
}

void log_(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	if (logf_) { vfprintf(logf_, fmt, ap); fputc('\n', logf_); fflush(logf_); }
	va_end(ap);
}

void fail(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(me->msg, MAX_MSG, fmt, ap);
	va_end(ap);
	me->failed = 1;
	if (logging) log_("FAIL: %s", me->msg);
	_exit(3);
}

void known(const char *fmt, ...)
{
	char b[400];
	va_list ap; va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	static std::vector<std::string> local;
	for (auto &s : local) if (s == b) return;
	local.push_back(b);
	while (ktab->lock.exchange(1)) usleep(10);
	int i;
	for (i = 0; i < ktab->n; i++) if (!strcmp(ktab->msg[i], b)) break;
	if (i == ktab->n && i < 64) { strcpy(ktab->msg[i], b); ktab->n++; }
	ktab->lock.store(0);
}

void finding(const char *key, const char *fmt, ...)
{
	char b[300];
	va_list ap; va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	const char *list = getenv("MC_KNOWN");
	std::string l = std::string(",") + (list ? list : "") + ",";
	if (l.find(std::string(",") + key + ",") == std::string::npos) fail("%s", b);
	known("key=%s %s", key, b);
	if (logging) log_("KNOWN: %s", b);
	throw Pruned();
}

void prune() { throw Pruned(); }

static int pick(int n, const char *what, bool env)
{
	if (n < 1) fail("internal: choose(%d) at %s", n, what);
	if (replaying_only) {
		int c = 0;
		if (pos < (int)rpath.size()) {
			if (rpath[pos].n != n)
				fail("nondeterminism: choice %d (%s) has %d alternatives, was %d", pos, what, n, rpath[pos].n);
			c = rpath[pos].c;
		}
		pos++;
		me->progress++;
		return c;
	}
	if (pos >= split && me->prefix_fresh) {
		me->prefix_fresh = 0;
		uint64_t k = me->prefix_no++;
		if (nworkers > 1) {
			if (k < MAX_PREFIX) {
				if (claims[k].exchange(1)) { me->claimed = 0; throw Pruned(); }
			} else if ((int)(k % nworkers) != wid) { me->claimed = 0; throw Pruned(); }
		}
		me->claimed = 1;
	}
	int c;
	if (pos < me->path_len) {
		if (me->path[pos].n != n) {
			me->nondet = 1;
			fail("nondeterminism: choice %d (%s) has %d alternatives, was %d", pos, what, n, me->path[pos].n);
		}
		c = me->path[pos].c;
	} else {
		if (pos >= MAX_PATH - 1) fail("runaway execution: more than %d choices", MAX_PATH);
		c = 0;
		me->path[pos].c = 0;
		me->path[pos].n = n;
		me->path_len = pos + 1;
		me->trans++;
	}
	pos++;
	me->progress++;
	(void)env;
	return c;
}

/* Set while a fiber runs under the concurrency engine: choices are made on the scheduler's stack. */
int (*redirect)(int n, const char *what, bool env);
int choose(int n, const char *what)
{
	if (n == 1) return 0;
	if (redirect) return redirect(n, what, false);
	return pick(n, what, false);
}
int env_left() { return env_budget - env_used; }
void env_set_budget(int n) { env_budget = n; }
int choose_env(int n, const char *what)
{
	if (env_used >= env_budget || n == 1) return 0;
	if (redirect) return redirect(n, what, true);
	int c = pick(n, what, true);
	if (c) {
		env_used++;
		LOG("  [env] %s -> answer %d", what, c);
	}
	return c;
}

bool seen(uint64_t key, int remaining)
{
	if (replaying_only) return false;
	if (pos < me->path_len) return false;   /* replaying an already entered prefix */
	if (pos < split || (nworkers > 1 && me->prefix_fresh)) return false;
	if (remaining < 0) remaining = 0;
	if (remaining > 63) remaining = 63;
	key = mix(key, (uint64_t)env_left() + 77);
	if ((key >> 6) == 0) key += 1 << 7;
	uint64_t want = key & ~63ull, i = (key >> 7) * 0x9E3779B97F4A7C15ull >> 20;
	for (int probe = 0; probe < 256; probe++, i++) {
		std::atomic<uint64_t> &s = table[i & table_mask];
		uint64_t v = s.load(std::memory_order_relaxed);
		if (v == 0) {
			if (s.compare_exchange_strong(v, want | remaining)) {
				me->states++;
				return false;
			}
		}
		while ((v & ~63ull) == want) {
			if ((int)(v & 63) >= remaining) { return true; }
			if (s.compare_exchange_weak(v, want | remaining)) return false;
		}
	}
	gcount[2]++;
	return false;
}
void count(uint64_t s, uint64_t t) { me->states += s; me->trans += t; me->progress++; }
bool fresh() { return replaying_only || pos >= me->path_len; }
void state(uint64_t key, int remaining)
{
	if (seen(key, remaining)) throw Pruned();
}
void outcome(uint64_t h)
{
	if (replaying_only) return;
	if (h == 0) h = 1;
	uint64_t i = h * 0x9E3779B97F4A7C15ull >> 40;
	for (int p = 0; p < 64; p++, i++) {
		uint64_t v = outtab[i & outtab_mask].load(std::memory_order_relaxed);
		if (v == h) return;
		if (v == 0) {
			if (outtab[i & outtab_mask].compare_exchange_strong(v, h)) { gcount[1]++; return; }
			if (v == h) return;
		}
	}
}

static void one()
{
	pos = 0;
	env_used = 0;
	env_budget = fault_budget;
	restore_globals();
	body_();
}

static void worker(double deadline)
{
	for (;;) {
		bool pr = false;
		try { one(); } catch (Pruned &) { pr = true; }
		me->checks = n_checks;
		bool skip = pr && !me->claimed && me->path_len <= split && nworkers > 1;
		if (!skip && (me->path_len > split || wid == 0 || nworkers == 1)) {
			me->execs++;
			if (pr) me->pruned++;
			if ((uint64_t)me->path_len > me->maxdepth && !pr) {
				me->maxdepth = me->path_len;
				me->deep_len = me->path_len;
				memcpy(me->deep, me->path, sizeof(ChoiceRec) * me->path_len);
			}
			if (!pr) { me->last_len = me->path_len; memcpy(me->last, me->path, sizeof(ChoiceRec) * me->path_len); }
		}
		if (!pr && pos < me->path_len) {
			me->nondet = 1;
			fail("nondeterminism: execution ended after %d of %d choices", pos, me->path_len);
		}
		me->progress++;
		int n = me->path_len;
		while (n > 0 && me->path[n - 1].c + 1 >= me->path[n - 1].n) n--;
		if (n == 0) break;
		me->path[n - 1].c++;
		me->path_len = n;
		if (n - 1 < split) { me->prefix_fresh = 1; me->claimed = 0; }
		if (deadline > 0) {
			struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
			if (t.tv_sec + t.tv_nsec * 1e-9 > deadline) { me->done = 2; return; }
		}
	}
	me->done = 1;
}

static std::string path_str(const ChoiceRec *p, int n)
{
	std::string s;
	char b[32];
	for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%d/%d ", p[i].c, p[i].n); s += b; }
	return s;
}

/* Replays a path in a child; returns description of abnormal end, or "" when clean. */
static std::string replay(const std::vector<ChoiceRec> &p, std::string *log, int limit_s)
{
	Slot *s = &slots[MAX_WORKERS];
	memset((void *)s, 0, offsetof(Slot, path));
	s->failed = 0; s->done = 0; s->msg[0] = 0;
	char tmpl[] = "/tmp/mcXXXXXX";
	int fd = mkstemp(tmpl);
	unlink(tmpl);
	pid_t pid = fork();
	if (pid == 0) {
		me = s;
		replaying_only = true;
		rpath = p;
		logging = true;
		logf_ = fdopen(dup(fd), "w");
		dup2(fd, 2);
		dup2(fd, 1);
		wid = 0;
		try { one(); } catch (Pruned &) {}
		s->done = 1;
		_exit(0);
	}
	int st = 0; double waited = 0; bool killed = false;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		usleep(2000); waited += 0.002;
		if (waited > limit_s && !killed) { kill(pid, SIGKILL); killed = true; }
	}
	if (log) {
		log->clear();
		lseek(fd, 0, SEEK_SET);
		char b[4096]; ssize_t n;
		while ((n = read(fd, b, sizeof b)) > 0 && log->size() < 60000) log->append(b, n);
	}
	close(fd);
	if (killed) return "execution does not terminate (hang)";
	if (s->failed) return s->msg;
	if (WIFSIGNALED(st)) {
		char b[100];
		snprintf(b, sizeof b, "process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
		return b;
	}
	if (WEXITSTATUS(st) != 0 || !s->done) {
		char b[100];
		snprintf(b, sizeof b, "process exited with status %d", WEXITSTATUS(st));
		return b;
	}
	return "";
}

static std::string jesc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

static pid_t spawn(int w, double deadline)
{
	pid_t pid = fork();
	if (pid == 0) {
		me = &slots[w];
		wid = w;
		n_checks = me->checks;
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 1); dup2(dn, 2);
		worker(deadline);
		_exit(0);
	}
	return pid;
}

int main(int argc, char **argv, body_t body)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR")) {
		setenv("MC_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	body_ = body;
	for (int i = 1; i < argc; i++) {
		if (strncmp(argv[i], "--", 2)) continue;
		char *e = strchr(argv[i], '=');
		if (e) args[std::string(argv[i] + 2, e)] = e + 1;
		else args[argv[i] + 2] = "1";
	}
	nworkers = std::min((long)MAX_WORKERS, std::max(1L, opt("workers", 1)));
	split = nworkers > 1 ? opt("split", 2) : 0;
	fault_budget = opt("faults", 0);
	int bits = opt("table", 20);
	size_t tsz = sizeof(uint64_t) << bits;
	table_mask = (1ull << bits) - 1;
	auto sh = [](size_t n) {
		void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); exit(2); }
		return p;
	};
	table = (std::atomic<uint64_t> *)sh(tsz);
	outtab = (std::atomic<uint64_t> *)sh(8 * (outtab_mask + 1));
	claims = (std::atomic<uint8_t> *)sh(MAX_PREFIX);
	gcount = (std::atomic<uint64_t> *)sh(4096);
	slots = (Slot *)sh(sizeof(Slot) * (MAX_WORKERS + 1));
	ktab = (KnownTab *)sh(sizeof(KnownTab));
	snap_globals();
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);

	struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	double start = t0.tv_sec + t0.tv_nsec * 1e-9;

	if (args.count("replay")) {
		std::vector<ChoiceRec> p;
		const char *s = args["replay"].c_str();
		int a, b, n;
		while (sscanf(s, " %d/%d%n", &a, &b, &n) == 2) { p.push_back({(short)a, (short)b}); s += n; }
		std::string log, r = replay(p, &log, 120);
		printf("%s", log.c_str());
		printf("RESULT: %s\n", r.empty() ? "ok" : r.c_str());
		for (int i = 0; i < ktab->n; i++) printf("KNOWN: %s\n", ktab->msg[i]);
		return r.empty() ? 0 : 1;
	}

	double deadline = opt("time", 0) > 0 ? start + opt("time", 0) : 0;
	std::vector<pid_t> pids(nworkers);
	std::vector<uint64_t> lastp(nworkers, 0);
	std::vector<double> lastt(nworkers, start);
	for (int w = 0; w < nworkers; w++) {
		slots[w].prefix_fresh = 1;
		pids[w] = spawn(w, deadline);
	}
	int alive = nworkers;
	std::string vio, viopath, violog, errmsg;
	double hang = opt("hang", 30);
	while (alive > 0 && vio.empty() && errmsg.empty()) {
		int st;
		pid_t r = waitpid(-1, &st, WNOHANG);
		struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
		double now = t.tv_sec + t.tv_nsec * 1e-9;
		int bad = -1; bool hung = false;
		if (r > 0) {
			for (int w = 0; w < nworkers; w++) if (pids[w] == r) {
				pids[w] = 0;
				if (slots[w].done) alive--;
				else bad = w;
			}
		} else {
			for (int w = 0; w < nworkers; w++) if (pids[w]) {
				if (slots[w].progress != lastp[w]) { lastp[w] = slots[w].progress; lastt[w] = now; }
				else if (now - lastt[w] > hang) {
					kill(pids[w], SIGKILL);
					waitpid(pids[w], &st, 0);
					pids[w] = 0; bad = w; hung = true;
					break;
				}
			}
			if (bad < 0) { usleep(3000); continue; }
		}
		if (bad < 0) continue;
		Slot *s = &slots[bad];
		std::vector<ChoiceRec> p(s->path, s->path + s->path_len);
		std::string log, first = s->failed ? s->msg : hung ? "hang" : "crash";
		std::string again = replay(p, &log, hung ? 60 : 30);
		if (!again.empty() && again.find("nondeterminism") == 0) {
			errmsg = again;
		} else if (!again.empty()) {
			/* second confirmation: same schedule, same observation */
			std::string log2, again2 = replay(p, &log2, hung ? 60 : 30);
			if (again2.empty() || again2.find("nondeterminism") == 0) errmsg = "unstable replay: '" + again + "' vs '" + again2 + "'";
			else { vio = again; viopath = path_str(p.data(), p.size()); violog = log; }
		} else if (hung) {
			lastt[bad] = now + 60;
			pids[bad] = spawn(bad, deadline);      /* slow machine: go on */
		} else {
			errmsg = "not reproducible in a fresh process: " + first;
			viopath = path_str(p.data(), p.size());
		}
	}
	for (int w = 0; w < nworkers; w++) if (pids[w]) { kill(pids[w], SIGKILL); waitpid(pids[w], NULL, 0); }
	uint64_t ex = 0, tr = 0, stt = 0, pr = 0, ck = 0, md = 0; bool capped = false;
	int best = -1;
	for (int w = 0; w < nworkers; w++) {
		Slot *s = &slots[w];
		ex += s->execs; tr += s->trans; stt += s->states; pr += s->pruned; ck += s->checks;
		if (s->maxdepth > md) { md = s->maxdepth; best = w; }
		if (s->done == 2) capped = true;
	}
	std::vector<std::string> samples;
	if (vio.empty() && errmsg.empty() && opt("samples", 1)) {
		std::string log;
		if (best >= 0) {
			std::vector<ChoiceRec> p(slots[best].deep, slots[best].deep + slots[best].deep_len);
			if (replay(p, &log, 30).empty()) samples.push_back(log.substr(0, 3000));
		}
		for (int w = nworkers - 1; w >= 0; w--) if (slots[w].last_len) {
			std::vector<ChoiceRec> p(slots[w].last, slots[w].last + slots[w].last_len);
			if (replay(p, &log, 30).empty()) samples.push_back(log.substr(0, 3000));
			break;
		}
	}
	clock_gettime(CLOCK_MONOTONIC, &t0);
	double wall = t0.tv_sec + t0.tv_nsec * 1e-9 - start;
	std::string o = "{";
	char b[600];
	snprintf(b, sizeof b, "\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"pruned\":%llu,\"checks\":%llu,"
		"\"max_choices\":%llu,\"outcomes\":%llu,\"capped\":%s,\"table_overflow\":%llu,\"wall_s\":%.2f",
		(unsigned long long)ex, (unsigned long long)tr, (unsigned long long)stt, (unsigned long long)pr, (unsigned long long)ck,
		(unsigned long long)md, (unsigned long long)gcount[1].load(), capped ? "true" : "false",
		(unsigned long long)gcount[2].load(), wall);
	o += b;
	o += ",\"samples\":[";
	for (size_t i = 0; i < samples.size(); i++) o += (i ? ",\"" : "\"") + jesc(samples[i]) + "\"";
	o += "],\"known\":[";
	for (int i = 0; i < ktab->n; i++) o += (i ? ",\"" : "\"") + jesc(ktab->msg[i]) + "\"";
	o += "]";
	if (!vio.empty()) o += ",\"violation\":\"" + jesc(vio) + "\",\"path\":\"" + viopath + "\",\"log\":\"" + jesc(violog) + "\"";
	if (!errmsg.empty()) o += ",\"error\":\"" + jesc(errmsg) + "\",\"path\":\"" + viopath + "\"";
	o += "}\n";
	fputs(o.c_str(), stdout);
	return vio.empty() ? (errmsg.empty() ? 0 : 2) : 1;
}

} // namespace mc
