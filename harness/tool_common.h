// Running one of the command line tools in a forked process, and the small code tables given to it
#ifndef TOOL_COMMON_H
#define TOOL_COMMON_H
#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
extern "C" {
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
}
using namespace vh;

// ---------------------------------------------------------------- capture
struct Capture {
	char* p = nullptr; size_t n = 0; FILE* old; FILE* f;
	Capture() { old = stdout; f = open_memstream(&p, &n); stdout = f; }
	std::string done() { if (f) { stdout = old; fclose(f); f = nullptr; } return std::string(p, n); }
	~Capture() { if (f) { stdout = old; fclose(f); } free(p); }
};
template <class F> static std::string captured(F fn) { Capture c; fn(); return c.done(); }

static std::string around(const std::string& t, size_t k) { size_t b = k > 60 ? k - 60 : 0; std::string o; for (char c : t.substr(b, 200)) o += c == '\n' ? std::string("\\n") : (unsigned char)c < 0x20 || (unsigned char)c >= 0x7F ? fmt("\\x%02X", (uint8_t)c) : std::string(1, c); return o; }
static void (*g_at_end)(); // run in the child before it ends
static unsigned g_mem;
static int* g_done; // shared with the child: 1 = returned from main, 2 = left through exit
extern "C" void vh_tool_exit(int code) { fflush(stdout); fflush(stderr); if (g_at_end) g_at_end(); if (g_done) { g_done[1] = (int)(mem_errors() - g_mem); *g_done = 2; } _exit(code); }
struct Run { int status; std::string out, err; bool marked; };
static std::string slurp(int fd) { std::string o; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) o.append(b, n); close(fd); return o; }
static Run run_tool(int (*entry)(int, char**), const std::vector<std::string>& args, const Bytes* in) {
	if (!g_done) g_done = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_done[0] = g_done[1] = 0; int o = memfd_create("o", 0), e = memfd_create("e", 0), i = memfd_create("i", 0);
	if (in && !in->empty()) { if (write(i, in->data(), in->size()) < 0) abort(); lseek(i, 0, SEEK_SET); }
	fflush(nullptr); pid_t p = fork(); if (p < 0) abort();
	if (!p) {
		dup2(i, 0); dup2(o, 1); dup2(e, 2); alarm(under_memcheck() ? 600 : 20); g_mem = mem_errors(); struct rlimit rl = {8 << 20, 8 << 20}; setrlimit(RLIMIT_FSIZE, &rl);
		std::vector<std::string> a = args; std::vector<char*> v; for (auto& t : a) v.push_back(&t[0]); v.push_back(nullptr);
		alloc_fail_at(0, false); int r = entry((int)a.size(), v.data()); fflush(stdout); fflush(stderr); if (g_at_end) g_at_end(); g_done[1] = (int)(mem_errors() - g_mem); *g_done = 1; _exit(r);
	}
	int st; while (waitpid(p, &st, 0) < 0) {} Run r; r.status = st; r.out = slurp(o); r.err = slurp(e); close(i); r.marked = *g_done; if (g_done[1]) fails("memcheck: a value that was never written decides what the command does, or memory is accessed that is not allocated"); return r;
}
static std::string g_data;
static void tool_data() { // small code tables, the same for the tool and for the library in this process
	static pid_t done = 0; if (done == getpid()) return; done = getpid(); g_data = fmt("%s/tool%d", tmpdir.c_str(), (int)getpid()); mkdir(g_data.c_str(), 0700);
	auto put = [&](const char* n, const char* t) { FILE* f = fopen((g_data + n).c_str(), "w"); if (!f) abort(); fputs(t, f); fclose(f); };
	put("/iso_3166-1.json", "{\"3166-1\": [{\"alpha_2\": \"ZA\", \"alpha_3\": \"ZAF\", \"name\": \"South Africa\", \"numeric\": \"710\"}, {\"alpha_2\": \"NL\", \"alpha_3\": \"NLD\", \"name\": \"Netherlands\", \"numeric\": \"528\"}, {\"alpha_2\": \"AL\", \"alpha_3\": \"ALB\", \"name\": \"Albania\", \"numeric\": \"008\"}]}");
	put("/iso_4217.json", "{\"4217\": [{\"alpha_3\": \"ZAR\", \"name\": \"Rand\", \"numeric\": \"710\"}, {\"alpha_3\": \"EUR\", \"name\": \"Euro\", \"numeric\": \"978\"}, {\"alpha_3\": \"ALL\", \"name\": \"Lek\", \"numeric\": \"008\"}]}");
	put("/iso_639-2.json", "{\"639-2\": [{\"alpha_2\": \"en\", \"alpha_3\": \"eng\", \"name\": \"English\"}, {\"alpha_2\": \"nl\", \"alpha_3\": \"nld\", \"name\": \"Dutch; Flemish\"}, {\"alpha_3\": \"ace\", \"name\": \"Achinese\"}]}");
	put("/mcc.json", "[{\"mcc\": \"5999\", \"edited_description\": \"Miscellaneous\"}, {\"mcc\": \"0742\", \"edited_description\": \"Veterinary Services\"}, {\"mcc\": \"6011\", \"edited_description\": \"Automated Cash\"}]");
	if (isocodes_init(g_data.c_str()) || mcc_init((g_data + "/mcc.json").c_str())) fails("loading small code tables failed");
}
#endif
