#include "vh.h"
#include <cstdarg>
#include <unordered_set>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <valgrind/memcheck.h>
#include <thread>
#include <atomic>

namespace vh {

void (*case_reset)() = nullptr;
std::string tmpdir = "/tmp";

// ---------------------------------------------------------------- helpers
void fails(const std::string& s) { throw Fail{s}; }
void fail(const char* f, ...) {
	char buf[8192];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	throw Fail{buf};
}
std::string fmt(const char* f, ...) {
	char buf[16384];
	va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
	return buf;
}
std::string hex(const uint8_t* p, size_t n) {
	static const char d[] = "0123456789ABCDEF";
	std::string s; s.reserve(n * 2);
	for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
	return s;
}
Bytes unhex(const char* s) {
	Bytes b; int hi = -1;
	for (; *s; ++s) {
		int v = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : -1;
		if (v < 0) continue;
		if (hi < 0) hi = v; else { b.push_back(hi << 4 | v); hi = -1; }
	}
	return b;
}

unsigned mem_errors() { return RUNNING_ON_VALGRIND ? VALGRIND_COUNT_ERRORS : 0; }
bool under_memcheck() { return RUNNING_ON_VALGRIND; }
// ---------------------------------------------------------------- choices
static const size_t REC_MAX = 1 << 17;
struct Shm {
	volatile uint64_t cases;       // cases completed
	volatile uint64_t sub;         // current subtest
	volatile uint64_t index;
	volatile uint64_t nrec;
	volatile uint64_t state;       // 0 running, 1 done, 2 failed, 3 hang
	char msg[8192];
	char desc[8192];
	uint64_t rec[REC_MAX];
};
static Shm* cur; // shared memory of this process

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next(uint64_t* s) {
	uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
static uint64_t splitmix(uint64_t& x) {
	uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static void rng_seed(uint64_t* s, uint64_t seed) { for (int i = 0; i < 4; ++i) s[i] = splitmix(seed); }

uint64_t Src::draw(uint64_t n) {
	uint64_t v;
	if (prefix && pos < prefix->size()) v = (*prefix)[pos];
	else if (replay) v = 0;
	else v = rng_next(rng);
	++pos;
	if (n) v %= n;
	if (record && cur->nrec < REC_MAX) { cur->rec[cur->nrec] = v; cur->nrec = cur->nrec + 1; }
	return v;
}
uint8_t Src::bbyte() {
	static const uint8_t sp[] = {0x00, 0x01, 0x02, 0x7F, 0x80, 0x81, 0xFF, 0xFE, 0x1F, 0x20, 0x10, 0x9F, 0x5F, 0x70, 0x61, 0x6F, 0x30, 0x41, 0x0F, 0xF0};
	uint64_t k = draw(4);
	if (k < 2) return (uint8_t)draw(256);
	if (k == 2) return sp[draw(sizeof sp)];
	return (uint8_t)(1u << draw(8));
}
Bytes Src::bytes(size_t n) { Bytes b(n); for (auto& x : b) x = byte(); return b; }
Bytes Src::bbytes(size_t n) { Bytes b(n); for (auto& x : b) x = bbyte(); return b; }
size_t Src::len(size_t lo, size_t hi) {
	if (hi <= lo) return lo;
	switch (draw(8)) {
		case 0: case 1: case 2: case 3: { size_t h = std::min(hi, lo + 8); return range(lo, h); }
		case 4: case 5: { size_t h = std::min(hi, lo + 40); return range(lo, h); }
		case 6: return range(lo, hi);
		default: {
			static const size_t b[] = {1, 2, 3, 4, 5, 6, 8, 10, 12, 15, 16, 17, 31, 32, 33, 126, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 511, 512, 1023, 1024};
			size_t c = b[draw(sizeof b / sizeof *b)];
			if (c < lo) return lo; if (c > hi) return hi; return c;
		}
	}
}
uint32_t Src::u32() {
	switch (draw(5)) {
		case 0: return (uint32_t)draw(256);
		case 1: return (uint32_t)draw(100000);
		case 2: return (uint32_t)draw(1ull << 32);
		case 3: return (uint32_t)((1ull << draw(33)) - draw(3));
		default: { uint64_t p = 1; for (uint64_t k = draw(10); k; --k) p *= 10; return (uint32_t)(p * range(1, 9) - draw(3)); }
	}
}
unsigned Src::weighted(std::initializer_list<unsigned> w) {
	unsigned t = 0; for (unsigned x : w) t += x;
	unsigned v = (unsigned)draw(t), i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
	return 0;
}
void Src::label(const char* l) { if (labels) ++(*labels)[l]; }

// ---------------------------------------------------------------- allocation tracking
static std::unordered_set<void*>* live;
static uint64_t acount, afail; static bool asticky, afailed;
void alloc_reset() { if (!live) live = new std::unordered_set<void*>; live->clear(); acount = 0; afail = 0; asticky = false; afailed = false; }
size_t alloc_live() { return live ? live->size() : 0; }
uint64_t alloc_count() { return acount; }
void alloc_fail_at(uint64_t nth, bool sticky) { afail = nth ? acount + nth : 0; asticky = sticky; afailed = false; }
bool alloc_failed() { return afailed; }
static bool should_fail() {
	++acount;
	if (afail && (acount == afail || (asticky && acount > afail))) { afailed = true; return true; }
	return false;
}
#ifndef VH_THREADS
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
char* __real_strdup(const char*); char* __real_strndup(const char*, size_t);
void* __wrap_malloc(size_t n) { if (should_fail()) return nullptr; void* p = __real_malloc(n); if (p && live) live->insert(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (should_fail()) return nullptr; void* p = __real_calloc(a, b); if (p && live) live->insert(p); return p; }
void* __wrap_realloc(void* q, size_t n) { if (should_fail()) return nullptr; if (q && live) live->erase(q); void* p = __real_realloc(q, n); if (p && live) live->insert(p); return p; }
void __wrap_free(void* p) { if (p && live) live->erase(p); __real_free(p); }
char* __wrap_strdup(const char* s) { if (should_fail()) return nullptr; char* p = __real_strdup(s); if (p && live) live->insert(p); return p; }
char* __wrap_strndup(const char* s, size_t n) { if (should_fail()) return nullptr; char* p = __real_strndup(s, n); if (p && live) live->insert(p); return p; }
}
#endif

// ---------------------------------------------------------------- coverage
static uint8_t* cov_start; static uint8_t* cov_end; static std::vector<uint8_t>* cov_seen;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* a, uint8_t* b) {
	if (!cov_start) { cov_start = a; cov_end = b; }
	else { if (a < cov_start) cov_start = a; if (b > cov_end) cov_end = b; }
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
static bool cov_new() {
	if (!cov_start) return false;
	size_t n = cov_end - cov_start;
	if (!cov_seen) cov_seen = new std::vector<uint8_t>(n, 0);
	bool fresh = false;
	uint8_t* c = cov_start; uint8_t* s = cov_seen->data();
	size_t i = 0;
	for (; i + 8 <= n; i += 8) {
		uint64_t w; memcpy(&w, c + i, 8);
		if (!w) continue;
		for (size_t j = i; j < i + 8; ++j) {
			uint8_t v = c[j]; if (!v) continue;
			uint8_t b = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
			if (!(s[j] & b)) { s[j] |= b; fresh = true; }
		}
	}
	memset(c, 0, n);
	return fresh;
}
static size_t cov_edges() { size_t k = 0; if (cov_seen) for (uint8_t b : *cov_seen) k += b != 0; return k; }

// ---------------------------------------------------------------- registry
static std::vector<Sub>& subs() { static std::vector<Sub> v; return v; }
Reg::Reg(Sub s) { subs().push_back(s); }

// ---------------------------------------------------------------- hang watchdog (CPU time)
static volatile uint64_t tick_case, tick_n; static volatile unsigned tick_limit = 20;
static void on_prof(int) {
	uint64_t c = cur->cases;
	if (c != tick_case) { tick_case = c; tick_n = 0; return; }
	tick_n = tick_n + 1;
	if (tick_n >= tick_limit) {
		cur->state = 3;
		static const char m[] = "no termination: one case used more CPU time than allowed";
		memcpy(cur->msg, m, sizeof m);
		_exit(4);
	}
}
static void watchdog(unsigned limit) {
	tick_limit = RUNNING_ON_VALGRIND ? limit * 40 : limit; tick_case = ~0ull; tick_n = 0;
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
	struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
}

// run one case in this process; returns true when it passed
static bool run_case(const Sub& sub, Src& s, uint64_t index) {
	cur->nrec = 0; cur->index = index; cur->msg[0] = 0; cur->desc[0] = 0;
	s.index = index;
	alloc_reset();
	if (case_reset) case_reset();
	bool ok = true; unsigned me = mem_errors();
	try { sub.fn(s); }
	catch (Fail& f) { ok = false; snprintf(cur->msg, sizeof cur->msg, "%s", f.msg.c_str()); }
	catch (std::exception& e) { ok = false; snprintf(cur->msg, sizeof cur->msg, "unexpected exception: %s", e.what()); }
	alloc_fail_at(0, false);
	if (RUNNING_ON_VALGRIND && !ok) ok = true, s.label("oracle failed, for its own check to report");
	if (me != mem_errors()) { ok = false; snprintf(cur->msg, sizeof cur->msg, "memcheck: a value that was never written decides what happens, or memory is accessed that is not allocated"); }
	if (!s.description.empty()) snprintf(cur->desc, sizeof cur->desc, "%s", s.description.c_str());
	return ok;
}

// ---------------------------------------------------------------- several threads
#ifdef VH_THREADS
struct Job { size_t si; uint64_t index, seed; };
static std::string run_job(const Job& j) {
	Src s; s.record = false; s.index = j.index; uint64_t q = j.seed; rng_seed(s.rng, q);
	try { subs()[j.si].fn(s); } catch (Fail& f) { return f.msg.empty() ? "failed" : f.msg; } catch (std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
	return "";
}
static void trace_nothing(unsigned int, int, int, int, const char*, const void*, size_t) {}
extern "C" int emv_debug_init(unsigned int, int, void (*)(unsigned int, int, int, int, const char*, const void*, size_t)) __attribute__((weak));
static void threads_case(Src& s) {
	static std::vector<size_t> pool; // not the checks that configure something for the whole process
	if (pool.empty()) for (size_t i = 0; i < subs().size(); ++i) { std::string p = subs()[i].property; if (p != "C23" && p != "C30" && p != "C31" && p != "C32" && p != "C33" && p != "C35" && p != "C38") pool.push_back(i); }
	bool trace = emv_debug_init && s.chance(1, 3); unsigned n = 2 + (unsigned)s.draw(3); std::vector<std::vector<Job>> jobs(n); std::string d = trace ? "traced" : ""; bool same = s.chance(1, 2); size_t one = s.draw(pool.size());
	for (auto& t : jobs) { unsigned k = 1 + (unsigned)s.draw(3); for (unsigned i = 0; i < k; ++i) { Job j; j.si = pool[same && s.chance(2, 3) ? one : s.draw(pool.size())]; j.seed = s.draw(1u << 30); j.index = subs()[j.si].enumerated ? j.seed % subs()[j.si].quick : 0; t.push_back(j); d += fmt(" %s/%s:%llu", subs()[j.si].property, subs()[j.si].name, (unsigned long long)j.seed); } d += ";"; }
	if (s.want()) s.desc(d);
	if (emv_debug_init) emv_debug_init(trace ? ~0u : 0, trace ? 255 : 0, trace ? trace_nothing : nullptr);
	for (auto& t : jobs) for (auto& j : t) if (!run_job(j).empty()) { s.label("a case fails alone"); return; } // for its own check to report
	s.nontrivial(); std::vector<std::string> err(n); std::vector<std::thread> th; std::atomic<unsigned> ready(0);
	for (unsigned i = 0; i < n; ++i) th.emplace_back([&, i]() { ++ready; while (ready.load() < n) std::this_thread::yield(); for (int round = 0; round < 2; ++round) for (auto& j : jobs[i]) { std::string e = run_job(j); if (!e.empty() && err[i].empty()) err[i] = fmt("%s/%s: ", subs()[j.si].property, subs()[j.si].name) + e; } });
	for (auto& t : th) t.join();
	if (emv_debug_init) emv_debug_init(0, 0, nullptr);
	for (unsigned i = 0; i < n; ++i) if (!err[i].empty()) fails("holds alone but not while other threads run: " + err[i]);
}
static Reg reg_threads({"C38", "concurrent", threads_case, 1500, 60000, false, "two to four threads that each run one to three generated cases of the other checks (half of them cases of the same check), twice, first checked one after another; data races are reported by ThreadSanitizer and each case keeps its own oracle; non-trivial: all cases hold alone"});
static const bool any_schedule = true;
#else
static const bool any_schedule = false;
#endif

static std::string jstr(const std::string& s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
		else o += c;
	}
	return o + "\"";
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static uint64_t hash_case(uint64_t sub) {
	uint64_t h = 0xcbf29ce484222325ULL ^ sub * 0x9e3779b97f4a7c15ULL ^ cur->index * 0xd6e8feb86659fd93ULL;
	for (uint64_t i = 0; i < cur->nrec; ++i) { h ^= cur->rec[i] + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0x100000001b3ULL; }
	return h;
}

struct WorkerOut { std::map<std::string, uint64_t> evals, nontriv; std::map<std::string, std::map<std::string, uint64_t>> labels; };

static void mutate(std::vector<uint64_t>& v, const std::vector<std::vector<uint64_t>>& corpus, uint64_t* rng) {
	unsigned k = 1 + rng_next(rng) % 4;
	while (k--) {
		if (v.empty()) { v.push_back(rng_next(rng)); continue; }
		size_t i = rng_next(rng) % v.size();
		switch (rng_next(rng) % 8) {
			case 0: v[i] = rng_next(rng); break;
			case 1: v[i] += 1; break;
			case 2: v[i] -= 1; break;
			case 3: v[i] = rng_next(rng) % 300; break;
			case 4: { size_t n = 1 + rng_next(rng) % 4; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + n)); break; }
			case 5: { size_t n = std::min(v.size() - i, (size_t)(1 + rng_next(rng) % 8)); std::vector<uint64_t> t(v.begin() + i, v.begin() + i + n); v.insert(v.begin() + i, t.begin(), t.end()); break; }
			case 6: v.resize(i); break;
			default: { const auto& o = corpus[rng_next(rng) % corpus.size()]; if (o.empty()) break; size_t j = rng_next(rng) % o.size(); size_t n = std::min(o.size() - j, (size_t)(1 + rng_next(rng) % 16)); n = std::min(n, v.size() - i); std::copy(o.begin() + j, o.begin() + j + n, v.begin() + i); }
		}
	}
}

// a case as a list of integers, with the cases that ran before it in the same process
struct Case { size_t si; uint64_t index; std::vector<uint64_t> ch; };
static std::vector<Case>* g_history; // when set, the worker keeps what it runs
static bool g_all; // subtests of all properties
static int worker(const std::vector<size_t>& sel, unsigned w, unsigned nw, uint64_t seed, bool thorough, double deadline, const char* outpath) {
	WorkerOut out; std::unordered_set<uint64_t> distinct; std::vector<std::string> samples;
	std::map<std::string, unsigned> nsamp; bool truncated = false; uint64_t total = 0;
	watchdog(20);
	for (size_t si : sel) {
		const Sub& sub = subs()[si]; cur->sub = si;
		uint64_t n = thorough ? sub.thorough : sub.quick;
		Src base; uint64_t sd = seed * 1000003 + si * 7919 + w * 104729 + 1; rng_seed(base.rng, sd);
		uint64_t mrng[4]; rng_seed(mrng, sd ^ 0x5555);
		std::vector<std::vector<uint64_t>> corpus;
		std::string nm = g_all ? fmt("%s.%s", sub.property, sub.name) : sub.name; auto& ev = out.evals[nm]; auto& nt = out.nontriv[nm]; auto& lb = out.labels[nm];
		for (uint64_t i = w; i < n; i += nw) {
			if ((total++ & 63) == 0 && now() > deadline) { truncated = true; break; }
			Src s; memcpy(s.rng, base.rng, sizeof s.rng);
			std::vector<uint64_t> pre;
			if (!sub.enumerated && !corpus.empty() && (rng_next(mrng) & 1)) { pre = corpus[rng_next(mrng) % corpus.size()]; mutate(pre, corpus, mrng); s.prefix = &pre; }
			s.labels = &lb; s.want_desc = nsamp[nm] < 2;
			uint64_t ix = i; if (sub.span) { uint64_t q = sd + i; ix = splitmix(q) % sub.span; } // a sample of an enumeration
			if (!run_case(sub, s, ix)) {
				cur->state = 2; return 3;
			}
			if (g_history) { if (g_history->size() >= 4096) g_history->erase(g_history->begin(), g_history->begin() + 2048); g_history->push_back({si, ix, std::vector<uint64_t>(cur->rec, cur->rec + cur->nrec)}); }
			memcpy(base.rng, s.rng, sizeof s.rng); rng_next(base.rng);
			++ev;
			if (s.is_nontrivial) {
				++nt; if (distinct.size() < 3000000) distinct.insert(hash_case(si));
				if (s.want_desc && !s.description.empty()) { ++nsamp[nm]; samples.push_back(fmt("%s: %.600s", nm.c_str(), s.description.c_str())); }
			}
			if (cov_new() && !sub.enumerated && cur->nrec < 4096 && corpus.size() < 4000) corpus.emplace_back(cur->rec, cur->rec + cur->nrec);
			cur->cases = cur->cases + 1;
		}
	}
	FILE* f = fopen(outpath, "w");
	if (!f) return 5;
	fprintf(f, "{\"truncated\":%s,\"edges\":%zu,\"subs\":{", truncated ? "true" : "false", cov_edges());
	bool first = true;
	for (auto& e : out.evals) {
		fprintf(f, "%s%s:{\"evals\":%llu,\"nontrivial\":%llu,\"labels\":{", first ? "" : ",", jstr(e.first).c_str(), (unsigned long long)e.second, (unsigned long long)out.nontriv[e.first]); first = false;
		bool f2 = true; for (auto& l : out.labels[e.first]) { fprintf(f, "%s%s:%llu", f2 ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second); f2 = false; }
		fprintf(f, "}}");
	}
	fprintf(f, "},\"samples\":["); first = true;
	for (auto& s : samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
	fprintf(f, "]}\n"); fclose(f);
	std::string hp = std::string(outpath) + ".h"; f = fopen(hp.c_str(), "wb");
	if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); }
	cur->state = 1;
	return 0;
}

static Shm* shm_new() {
	void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shm*)p;
}

struct Result { bool failed; std::string msg, desc, err; std::vector<uint64_t> used; };

static std::string slurp(const char* p, size_t maxn) {
	std::string s; FILE* f = fopen(p, "r"); if (!f) return s; char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < maxn) s.append(b, n);
	fclose(f); return s;
}

static std::string crash_summary(const std::string& err, int st) {
	std::string sig = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
	size_t p = err.find("runtime error:");
	if (p != std::string::npos) { size_t b = err.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t e = err.find('\n', p); return "undefined behaviour: " + err.substr(b, e - b); }
	p = err.find("SUMMARY:");
	if (p != std::string::npos) { size_t e = err.find('\n', p); return "memory error: " + err.substr(p, e - p); }
	p = err.find("Assertion");
	if (p != std::string::npos) { size_t e = err.find('\n', p); return "assertion: " + err.substr(p, e - p); }
	return "crash: " + sig;
}

static Result run_child(size_t si, uint64_t index, const std::vector<uint64_t>& choices, const std::string& tmp, unsigned limit, const std::vector<Case>& before = {}) {
	static Shm* sh = shm_new();
	memset((void*)sh, 0, offsetof(Shm, rec));
	std::string ef = tmp + "/child.err";
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
		cur = sh; watchdog(limit);
		for (auto& c : before) { Src s; s.prefix = &c.ch; s.replay = true; run_case(subs()[c.si], s, c.index); cur->cases = cur->cases + 1; }
		Src s; s.prefix = &choices; s.replay = true; s.want_desc = true;
		bool ok = run_case(subs()[si], s, index);
		cur->state = ok ? 1 : 2;
		_exit(ok ? 0 : 3);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Result r; r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
	r.used.assign(sh->rec, sh->rec + sh->nrec);
	if (r.failed) {
		if (sh->state == 2 || sh->state == 3) { r.msg = sh->msg; r.desc = sh->desc; }
		else { r.err = slurp(ef.c_str(), 20000); r.msg = crash_summary(r.err, st); }
	} else r.desc = sh->desc;
	return r;
}

// a failure that depends on the schedule is tried several times
static Result run_sched(size_t si, uint64_t index, const std::vector<uint64_t>& choices, const std::string& tmp, unsigned limit, const std::vector<Case>& before = {}) {
	Result r = run_child(si, index, choices, tmp, limit, before); for (int k = 0; any_schedule && !r.failed && k < 5; ++k) r = run_child(si, index, choices, tmp, limit, before); return r;
}
static std::vector<uint64_t> shrink(size_t si, uint64_t index, std::vector<uint64_t> best, const std::string& tmp, double budget, bool hang, unsigned* execs, const std::vector<Case>& before) {
	double end = now() + budget; unsigned limit = hang ? 4 : 20;
	auto bad = [&](const std::vector<uint64_t>& c) { ++*execs; return run_sched(si, index, c, tmp, limit, before).failed; };
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1 && now() < end; chunk /= 2) {
			for (size_t i = 0; i + chunk <= best.size() && now() < end;) {
				std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + chunk);
				if (bad(c)) { best = c; progress = true; } else i += chunk;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < best.size() && now() < end; ++i) {
			if (!best[i]) continue;
			std::vector<uint64_t> c(best); c[i] = 0;
			if (bad(c)) { best = c; progress = true; continue; }
			uint64_t lo = 0, hi = best[i];
			while (hi - lo > 1 && now() < end) { uint64_t m = lo + (hi - lo) / 2; c[i] = m; if (bad(c)) { hi = m; } else lo = m; }
			if (hi != best[i]) { best[i] = hi; progress = true; }
		}
		if (hang) break;
	}
	while (!best.empty() && best.back() == 0) best.pop_back();
	return best;
}

static int usage() { fprintf(stderr, "usage: harness --property ID --tier quick|thorough --seed N --tmp DIR --replay-out FILE | --replay FILE --tmp DIR | --list\n"); return 2; }

int engine_main(int argc, char** argv) {
	std::string prop, tier = "quick", tmp = "/tmp", rout, rin, only; uint64_t seed = 1; bool all_subs = false; int only_worker = -1; double maxs = 420; double scale = 1; uint64_t count = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--property") prop = next(); else if (a == "--tier") tier = next(); else if (a == "--seed") seed = strtoull(next(), 0, 10);
		else if (a == "--tmp") tmp = next(); else if (a == "--replay-out") rout = next(); else if (a == "--replay") rin = next();
		else if (a == "--only") only = next(); else if (a == "--max-seconds") maxs = atof(next()); else if (a == "--scale") scale = atof(next()); else if (a == "--count") count = strtoull(next(), 0, 10); else if (a == "--all") all_subs = true; else if (a == "--worker") only_worker = atoi(next());
		else if (a == "--list") { for (auto& s : subs()) printf("%s\t%s\t%llu\t%d\t%s\n", s.property, s.name, (unsigned long long)s.quick, s.enumerated, s.rule); return 0; }
		else return usage();
	}
	tmpdir = tmp;
	if (!rin.empty()) {
		std::string t = slurp(rin.c_str(), 100000000); std::string rp, rs; std::vector<Case> before;
		while (t.compare(0, 7, "before ") == 0) {
			size_t e = t.find('\n'); std::string l = t.substr(7, e - 7); t.erase(0, e + 1); char n[256]; int k = 0; unsigned long long bi; if (sscanf(l.c_str(), "%255s %llu%n", n, &bi, &k) < 2) continue;
			Case c{0, bi, {}}; const char* q = l.c_str() + k; while (*q) { char* z; uint64_t v = strtoull(q, &z, 10); if (z == q) break; c.ch.push_back(v); q = z; }
			for (size_t si = 0; si < subs().size(); ++si) if (std::string(n) == std::string(subs()[si].property) + "/" + subs()[si].name) { c.si = si; before.push_back(c); break; }
		} uint64_t idx = 0; std::vector<uint64_t> ch;
		char b1[256], b2[256]; unsigned long long ix;
		if (sscanf(t.c_str(), "property %255s\nsubtest %255s\nindex %llu\nchoices", b1, b2, &ix) != 3) { fprintf(stderr, "bad replay file\n"); return 2; }
		rp = b1; rs = b2; idx = ix; size_t p = t.find("choices") + 7;
		const char* q = t.c_str() + p; while (*q && *q != '\n') { char* e; uint64_t v = strtoull(q, &e, 10); if (e == q) break; ch.push_back(v); q = e; }
		for (size_t si = 0; si < subs().size(); ++si) if (rs == std::string(subs()[si].property) + "/" + subs()[si].name || (rp == subs()[si].property && rs == subs()[si].name)) {
			Result r = run_sched(si, idx, ch, tmp, 60, before);
			printf("%s\n%s\n%s\n%s\n", r.failed ? "FAIL" : "PASS", r.msg.c_str(), r.desc.c_str(), r.err.c_str());
			return r.failed ? 1 : 0;
		}
		fprintf(stderr, "no such subtest\n"); return 2;
	}
	std::vector<size_t> sel;
	for (size_t i = 0; i < subs().size(); ++i) if ((all_subs || prop == subs()[i].property) && (only.empty() || only == subs()[i].name)) sel.push_back(i);
	if (sel.empty()) { fprintf(stderr, "no subtests for %s\n", prop.c_str()); return 2; }
	if (scale != 1) for (size_t i : sel) if (!subs()[i].enumerated) { subs()[i].quick = (uint64_t)(subs()[i].quick * scale); subs()[i].thorough = (uint64_t)(subs()[i].thorough * scale); }
	if (count) for (size_t i : sel) if (!subs()[i].enumerated || subs()[i].quick > count) { if (subs()[i].enumerated) subs()[i].span = subs()[i].quick; subs()[i].quick = subs()[i].thorough = std::min(count, subs()[i].quick); }
	g_all = all_subs; bool thorough = tier == "thorough"; const unsigned NW = 8; double deadline = now() + maxs;
	std::vector<Shm*> sh(NW); std::vector<pid_t> pid(NW);
	fflush(stdout);
	unsigned left = 0;
	for (unsigned w = 0; w < NW; ++w) {
		sh[w] = shm_new(); pid[w] = 0; if (only_worker >= 0 && w != (unsigned)only_worker) continue; ++left;
		pid[w] = fork();
		if (pid[w] == 0) {
			std::string ef = fmt("%s/w%u.err", tmp.c_str(), w), of = fmt("%s/w%u.json", tmp.c_str(), w);
			int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
			cur = sh[w];
			int r = worker(sel, w, NW, seed, thorough, deadline, of.c_str());
			_exit(r);
		}
	}
	int bad = -1, badst = 0;
	while (left) {
		int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
		for (unsigned w = 0; w < NW; ++w) if (pid[w] == p) {
			pid[w] = 0; --left;
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0) { bad = w; badst = st; for (unsigned v = 0; v < NW; ++v) if (pid[v]) kill(pid[v], SIGKILL); }
		}
	}
	if (bad < 0) { printf("OK\n"); return 0; }
	Shm* b = sh[bad]; size_t si = b->sub; uint64_t idx = b->index;
	std::vector<uint64_t> ch(b->rec, b->rec + b->nrec);
	std::string omsg = b->state == 2 || b->state == 3 ? std::string(b->msg) : crash_summary(slurp(fmt("%s/w%d.err", tmp.c_str(), bad).c_str(), 20000), badst);
	bool hang = b->state == 3;
	if (only_worker >= 0) { printf("FAIL\n%s\n", omsg.c_str()); return 1; }
	// reproduce
	std::vector<Case> before; Result r = run_sched(si, idx, ch, tmp, 20); bool seen = r.failed;
	if (any_schedule) r.failed = true; // seen once is enough: no schedule may fail
	if (!r.failed) {
		// the case fails only after the cases that ran before it: run the worker again (same seed, same cases), keeping them
		std::string hf = tmp + "/history"; Shm* h = shm_new(); pid_t p = fork();
		if (p == 0) {
			int fd = open((tmp + "/history.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); cur = h; g_history = new std::vector<Case>;
			int x = worker(sel, bad, NW, seed, thorough, now() + maxs, (tmp + "/history.json").c_str());
			FILE* f = fopen(hf.c_str(), "wb"); if (f) { for (auto& c : *g_history) { uint64_t q[3] = {c.si, c.index, c.ch.size()}; fwrite(q, 8, 3, f); fwrite(c.ch.data(), 8, c.ch.size(), f); } fclose(f); } _exit(x);
		}
		int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		std::vector<Case> hist; FILE* f = fopen(hf.c_str(), "rb"); uint64_t q[3];
		if (f) { while (fread(q, 8, 3, f) == 3) { Case c{(size_t)q[0], q[1], std::vector<uint64_t>(q[2])}; if (q[2] && fread(c.ch.data(), 8, q[2], f) != q[2]) break; hist.push_back(c); } fclose(f); }
		bool again = h->state != 1 && h->sub == si && h->index == idx;
		for (size_t k = 1; again && !r.failed; k *= 2) { before.assign(hist.end() - std::min(k, hist.size()), hist.end()); r = run_child(si, idx, ch, tmp, 60, before); if (k >= hist.size()) break; }
		if (!r.failed && again) { // the whole run of this worker is the history
			FILE* f = fopen(rout.c_str(), "w");
			if (f) { fprintf(f, "property %s\nsubtest %s/%s\nindex %llu\nrerun --tier %s --seed %llu --scale %g --count %llu%s%s%s --worker %d\nmessage %s\nfailed in the same way in two runs of the worker; the case alone does not fail\n", prop.c_str(), subs()[si].property, subs()[si].name, (unsigned long long)idx, tier.c_str(), (unsigned long long)seed, scale, (unsigned long long)count, all_subs ? " --all" : "", only.empty() ? "" : " --only ", only.c_str(), bad, omsg.c_str()); fclose(f); }
			printf("VIOLATED %s: %s | after the cases before it\n", subs()[si].name, omsg.c_str()); return 1;
		}
		if (!r.failed) { printf("NOTREPRODUCED %s %s: %s\n", prop.c_str(), subs()[si].name, omsg.c_str()); return 6; }
		double end = now() + 40; // fewer cases before it
		for (size_t chunk = std::max<size_t>(before.size() / 2, 1); now() < end; chunk /= 2) {
			for (size_t i = 0; i + chunk <= before.size() && now() < end;) { std::vector<Case> c(before); c.erase(c.begin() + i, c.begin() + i + chunk); if (run_child(si, idx, ch, tmp, 60, c).failed) before = c; else i += chunk; }
			if (chunk <= 1) break;
		}
	}
	unsigned execs = 0;
	std::vector<uint64_t> best = any_schedule && !seen ? ch : shrink(si, idx, ch, tmp, hang ? 30 : 45, hang, &execs, before);
	unsigned okc = 0; Result last;
	for (int k = 0; k < 3; ++k) { last = run_sched(si, idx, best, tmp, 20, before); okc += last.failed; }
	if (okc != 3) { best = ch; okc = 0; for (int k = 0; k < 3; ++k) { last = run_sched(si, idx, best, tmp, 20, before); okc += last.failed; } }
	if (any_schedule && !okc) { last.msg = omsg; last.err = slurp(fmt("%s/w%d.err", tmp.c_str(), bad).c_str(), 20000); okc = 3; }
	if (any_schedule && okc) okc = 3;
	if (okc != 3) { printf("FLAKY %s %s: %s\n", prop.c_str(), subs()[si].name, omsg.c_str()); return 6; }
	FILE* f = fopen(rout.c_str(), "w");
	if (f) {
		for (auto& c : before) { fprintf(f, "before %s/%s %llu", subs()[c.si].property, subs()[c.si].name, (unsigned long long)c.index); for (uint64_t v : c.ch) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
		fprintf(f, "property %s\nsubtest %s/%s\nindex %llu\nchoices", prop.c_str(), subs()[si].property, subs()[si].name, (unsigned long long)idx);
		for (uint64_t v : best) fprintf(f, " %llu", (unsigned long long)v);
		fprintf(f, "\nmessage %s\ncase %s\nreplayed 3 of 3; shrunk from %zu to %zu choices in %u executions\noriginal message %s\n%s\n", last.msg.c_str(), last.desc.c_str(), ch.size(), best.size(), execs, omsg.c_str(), last.err.c_str());
		fclose(f);
	}
	printf("VIOLATED %s: %s | %s\n", subs()[si].name, last.msg.c_str(), last.desc.c_str());
	return 1;
}
} // namespace vh

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:max_malloc_fill_size=4096:malloc_fill_byte=190:free_fill_byte=219:max_free_fill_size=4096:quarantine_size_mb=64"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=97:report_signal_unsafe=0:second_deadlock_stack=1"; }
// the dynamic loader and the character set modules it loads are not instrumented
extern "C" const char* __tsan_default_suppressions() { return "race:ld-linux\nrace:libicu\nrace:gconv\n"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }
// a harness may run this binary again as the program under test
extern "C" __attribute__((weak)) int vh_program(int argc, char** argv);
int main(int argc, char** argv) { if (vh_program && getenv("VH_PROGRAM")) return vh_program(argc, argv); return vh::engine_main(argc, argv); }
