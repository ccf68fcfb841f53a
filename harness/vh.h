// Small property-based testing engine: every random decision of a case is a
// "choice" drawn from a Src, so that a failing case is a list of integers that
// can be saved, replayed and shrunk. Workers run cases in forked processes and
// keep a coverage-guided corpus of choice lists.
#ifndef VH_H
#define VH_H
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_THREADS 1
#endif
#endif
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <algorithm>

namespace vh {

typedef std::vector<uint8_t> Bytes;

struct Fail { std::string msg; };
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fails(const std::string& s);

#define REQUIRE(cond, ...) do { if (!(cond)) vh::fail(__VA_ARGS__); } while (0)

struct Src {
	virtual ~Src() {}
	// uniform in [0, n); n == 0 means all 64 bits
	uint64_t draw(uint64_t n);
	uint64_t u64() { return draw(0); }
	// inclusive range
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
	// true with probability num/den (false is the simple value)
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
	uint8_t byte() { return (uint8_t)draw(256); }
	// byte biased to boundary values
	uint8_t bbyte();
	Bytes bytes(size_t n);
	Bytes bbytes(size_t n);
	// length in [lo, hi], biased to small values and to boundaries
	size_t len(size_t lo, size_t hi);
	uint32_t u32();   // biased 32-bit
	template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
	template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[draw(N)]; }
	template <class T> T pickl(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
	// weighted choice, returns index
	unsigned weighted(std::initializer_list<unsigned> w);

	// bookkeeping
	void nontrivial() { is_nontrivial = true; }
	void label(const char* l);
	bool want() const { return want_desc; }
	void desc(const std::string& d) { if (want_desc) { if (!description.empty()) description += "; "; description += d; } }

	uint64_t index = 0; // case index for enumerated subtests
	bool is_nontrivial = false;
	bool want_desc = false;
	std::string description;
	// engine internals
	const std::vector<uint64_t>* prefix = nullptr;
	bool replay = false;
	bool record = true; // the choices belong to the case that is run
	size_t pos = 0;
	uint64_t rng[4];
	std::map<std::string, uint64_t>* labels = nullptr;
};

std::string hex(const uint8_t* p, size_t n);
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
Bytes unhex(const char* s);

// exact-size heap copy, so that any access outside it is an ASan error
struct Exact {
	uint8_t* p; size_t n;
	explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p, b.data(), n); }
	explicit Exact(size_t len, uint8_t fill = 0xA5) : p(new uint8_t[len]), n(len) { if (n) memset(p, fill, n); }
	Exact(const Exact&) = delete;
	~Exact() { delete[] p; }
	Bytes vec() const { return Bytes(p, p + n); }
	char* c() { return (char*)p; }
};

// allocation tracking for C code (link with --wrap=malloc etc.)
void alloc_reset();              // forget all live blocks, disable faults
size_t alloc_live();             // blocks allocated by C code and not freed since reset
uint64_t alloc_count();          // allocations attempted since reset
void alloc_fail_at(uint64_t nth, bool sticky); // nth allocation (1-based) from now on fails; 0 disables
bool alloc_failed();             // did an injected failure happen

// memory errors reported so far by valgrind memcheck (0 when not running under it)
unsigned mem_errors();
bool under_memcheck();

typedef void (*PropFn)(Src&);
struct Sub {
	const char* property; const char* name; PropFn fn;
	uint64_t quick, thorough; // number of random cases, or for enumerations the count
	bool enumerated;
	const char* rule;
	uint64_t span = 0; // when not 0: a sampled enumeration of 0..span-1
};
struct Reg { Reg(Sub s); };
// random subtest
#define VH_PROP(prop, name, quick, thorough, rule) \
	static void vh_##prop##_##name(vh::Src& s); \
	static vh::Reg vh_reg_##prop##_##name({#prop, #name, vh_##prop##_##name, quick, thorough, false, rule}); \
	static void vh_##prop##_##name(vh::Src& s)
// complete enumeration of indices 0..count-1 (s.index)
#define VH_ENUM(prop, name, count, rule) \
	static void vh_##prop##_##name(vh::Src& s); \
	static vh::Reg vh_reg_##prop##_##name({#prop, #name, vh_##prop##_##name, count, count, true, rule}); \
	static void vh_##prop##_##name(vh::Src& s)

// hook run at the start of every case (reset global state)
extern void (*case_reset)();
// scratch directory of this run
extern std::string tmpdir;
} // namespace vh
#endif
