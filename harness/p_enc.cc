// C29, C30: ISO 8859 conversion and code lookups
#include "vh.h"
#include "iso8859_table.inc"
#include <json-c/json.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include "iso8859.h"
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
bool iconv_iso8859_is_supported(unsigned int);
int iconv_iso8859_to_utf8(unsigned int, const uint8_t*, size_t, char*, size_t);
bool simple_iso8859_is_supported(unsigned int);
int simple_iso8859_to_utf8(unsigned int, const uint8_t*, size_t, char*, size_t);
}
using namespace vh;

static const struct Impl { const char* name; bool (*sup)(unsigned int); int (*conv)(unsigned int, const uint8_t*, size_t, char*, size_t); bool simple; } IMPL[] = {
	{"Boost", iso8859_is_supported, iso8859_to_utf8, false},
	{"iconv", iconv_iso8859_is_supported, iconv_iso8859_to_utf8, false},
	{"simple", simple_iso8859_is_supported, simple_iso8859_to_utf8, true},
};
static void put_utf8(std::string& o, unsigned c) {
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static bool part_exists(unsigned cp) { return cp >= 1 && cp <= 15 && cp != 12; }

static void convert(Src& s, const Impl& im, unsigned cp, const Bytes& in, size_t cap) {
	bool sup = im.simple ? cp == 1 : part_exists(cp);
	REQUIRE(im.sup(cp) == sup, "%s: part %u %ssupported", im.name, cp, sup ? "not " : "");
	Exact i(in), o(cap);
	int r = im.conv(cp, i.p, i.n, o.c(), cap);
	REQUIRE(i.vec() == in, "%s: input modified", im.name);
	if (!sup) { REQUIRE(r != 0, "%s: unsupported part %u converted", im.name, cp); return; }
	std::string full; std::vector<size_t> ends{0}; bool gap = false, ended = false; size_t whole = 0;
	for (uint8_t c : in) {
		unsigned u = ISO8859[cp][c];
		bool ok = c == 0 || (im.simple ? (c >= 0x20 && c <= 0x7E) || c >= 0xA0 : u != 0);
		if (!ok) { gap = true; if (im.simple) break; continue; }
		std::string t; put_utf8(t, u); whole += t.size();
		if (!c) { ended = true; if (im.simple) break; }
		if (!ended) { full += t; ends.push_back(full.size()); }
	}
	if (r != 0) { REQUIRE(gap || whole + 1 > cap || whole == 0, "%s: part %u, %s refused (%d) with %zu octets of space", im.name, cp, hex(in).c_str(), r, cap); s.label("refused"); }
	const void* z = memchr(o.p, 0, cap);
	REQUIRE(z, "%s: part %u, %s: output of capacity %zu not terminated (result %d)", im.name, cp, hex(in).c_str(), cap, r);
	if (r != 0) return;
	std::string got = o.c();
	if (im.simple && gap) { // may only stop before an unprintable octet when it has run out of space
		REQUIRE(full.compare(0, got.size(), got) == 0 && cap - got.size() <= 3, "%s: unprintable octet in %s accepted", im.name, hex(in).c_str());
	}
	bool at_end = std::find(ends.begin(), ends.end(), got.size()) != ends.end();
	REQUIRE(full.compare(0, got.size(), got) == 0 && at_end, "%s: part %u, %s: text %s expected %s", im.name, cp, hex(in).c_str(), hex((const uint8_t*)got.data(), got.size()).c_str(), hex((const uint8_t*)full.data(), full.size()).c_str());
	if (full.size() + 1 <= cap && !(im.simple && gap)) REQUIRE(got == full, "%s: part %u, %s: text cut to %zu of %zu octets although the buffer has %zu", im.name, cp, hex(in).c_str(), got.size(), full.size(), cap);
	if (got.size() < full.size()) { s.label("cut"); s.nontrivial(); }
	for (uint8_t c : in) if (c >= 0xA0) { s.nontrivial(); break; }
}
VH_ENUM(C29, octets, 17 * 256 * 3, "every octet of every part 0 to 16 with every implementation and output sizes 1 to 6") {
	unsigned cp = s.index / 768, c = s.index / 3 % 256; const Impl& im = IMPL[s.index % 3];
	if (s.want()) s.desc(fmt("%s part %u octet %02X", im.name, cp, c));
	for (size_t cap = 1; cap <= 6; ++cap) { convert(s, im, cp, Bytes{(uint8_t)c}, cap); convert(s, im, cp, Bytes{'x', (uint8_t)c}, cap); convert(s, im, cp, Bytes{(uint8_t)c, 'x'}, cap); }
	s.nontrivial();
}
VH_PROP(C29, strings, 150000, 6000000, "strings of up to 300 octets (printable, high, control, unassigned and NUL octets mixed), any part number, output sizes around every boundary; non-trivial: characters above 9F or a cut text") {
	unsigned cp = s.chance(1, 12) ? (unsigned)s.pickl<uint64_t>({0, 12, 16, 17, 255, 0xFFFFFFFF, 65537, 257, 0x80000001}) : (unsigned)s.range(1, 15);
	if (cp <= 16 || s.chance(1, 2)) {}
	size_t n = s.chance(1, 6) ? s.len(1, 300) : s.len(1, 20); Bytes in; unsigned mode = (unsigned)s.weighted({4, 3, 1, 1});
	for (size_t k = 0; k < n; ++k) {
		uint8_t c = mode == 0 ? (s.chance(1, 2) ? (uint8_t)s.range(0xA0, 0xFF) : (uint8_t)s.range(0x20, 0x7E)) : mode == 1 ? s.byte() : mode == 2 ? (uint8_t)s.range(0xA0, 0xFF) : s.bbyte();
		if (mode == 0 && part_exists(cp) && !ISO8859[cp][c]) c = 'a';
		in.push_back(c);
	}
	std::string full; if (part_exists(cp)) for (uint8_t c : in) if (ISO8859[cp][c] || !c) put_utf8(full, ISO8859[cp][c]);
	size_t cap = s.chance(1, 2) ? full.size() + s.range(1, 4) : s.range(1, full.size() + 2);
	if (s.want()) s.desc(fmt("part %u, %s, output size %zu", cp, hex(in).c_str(), cap));
	for (auto& im : IMPL) convert(s, im, cp, in, cap);
	if (s.chance(1, 40)) for (auto& im : IMPL) {
		Exact i(in), o(cap); Bytes before = o.vec();
		REQUIRE(im.conv(cp, nullptr, i.n, o.c(), cap) != 0 && im.conv(cp, i.p, 0, o.c(), cap) != 0 && im.conv(cp, i.p, i.n, nullptr, cap) != 0 && im.conv(cp, i.p, i.n, o.c(), 0) != 0, "%s: missing argument accepted", im.name);
		REQUIRE(o.vec() == before, "%s: output written for missing argument", im.name);
	}
}

// ---------------------------------------------------------------- lookups
struct Entry { std::string name, a2, a3; int num = -1; };
typedef std::map<std::string, std::set<std::string>> AMap;
typedef std::map<unsigned, std::set<std::string>> NMap;
struct Maps { AMap a2, a3; NMap num;
	void add(const Entry& e) { if (!e.a2.empty()) a2[e.a2].insert(e.name); if (!e.a3.empty()) a3[e.a3].insert(e.name); if (e.num >= 0) num[(unsigned)e.num].insert(e.name); } };
enum { COUNTRY, CURRENCY, LANGUAGE };

template <class M, class K> static void expect(const char* what, const std::string& shown, const M& now, const M& ever, bool loose, const K& k, const char* got) {
	if (loose) { if (got) { auto i = ever.find(k); REQUIRE(i != ever.end() && i->second.count(got), "%s %s gives \"%s\", which no data file gives", what, shown.c_str(), got); } return; }
	auto i = now.find(k);
	if (i == now.end()) REQUIRE(!got, "%s %s gives \"%s\" although the data does not define it", what, shown.c_str(), got);
	else { REQUIRE(got, "%s %s gives nothing, expected \"%s\"", what, shown.c_str(), i->second.begin()->c_str()); REQUIRE(i->second.count(got), "%s %s gives \"%s\", expected \"%s\"", what, shown.c_str(), got, i->second.begin()->c_str()); }
}
static void look_alpha(const Maps* now, const Maps* ever, bool loose, const std::string& k) {
	expect("country alpha-2", k, now[COUNTRY].a2, ever[COUNTRY].a2, loose, k, isocodes_lookup_country_by_alpha2(k.c_str()));
	expect("country alpha-3", k, now[COUNTRY].a3, ever[COUNTRY].a3, loose, k, isocodes_lookup_country_by_alpha3(k.c_str()));
	expect("currency alpha-3", k, now[CURRENCY].a3, ever[CURRENCY].a3, loose, k, isocodes_lookup_currency_by_alpha3(k.c_str()));
	expect("language alpha-2", k, now[LANGUAGE].a2, ever[LANGUAGE].a2, loose, k, isocodes_lookup_language_by_alpha2(k.c_str()));
	expect("language alpha-3", k, now[LANGUAGE].a3, ever[LANGUAGE].a3, loose, k, isocodes_lookup_language_by_alpha3(k.c_str()));
}
static void look_num(const Maps* now, const Maps* ever, bool loose, unsigned n) {
	std::string t = fmt("%u", n);
	expect("country number", t, now[COUNTRY].num, ever[COUNTRY].num, loose, n, isocodes_lookup_country_by_numeric(n));
	expect("currency number", t, now[CURRENCY].num, ever[CURRENCY].num, loose, n, isocodes_lookup_currency_by_numeric(n));
}
static std::string jstr(const std::string& v) { // JSON string literal
	std::string o = "\""; for (unsigned char c : v) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20) o += fmt("\\u%04x", c); else o += (char)c; } return o + "\"";
}
static void spew(const std::string& f, const std::string& t) { FILE* fp = fopen(f.c_str(), "wb"); if (!fp) { fprintf(stderr, "cannot write %s\n", f.c_str()); abort(); } fwrite(t.data(), 1, t.size(), fp); fclose(fp); }
static std::string workdir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); d = fmt("%s/iso%d", tmpdir.c_str(), (int)p); mkdir(d.c_str(), 0700); } return d; }
static std::string gen_name(Src& s) { static const char* P[] = {"A", "Neverland", "Côte d'Ivoire", "Bolivia, Plurinational State of", "Quote \" and \\", "tab\there", "Åland Islands", "零", "x y z", "Korea (the Republic of)"}; std::string n = P[s.draw(10)]; if (s.chance(1, 2)) n += fmt(" %u", (unsigned)s.draw(50)); if (s.chance(1, 40)) n += std::string(s.range(100, 400), 'n'); return n; }
static std::string gen_alpha(Src& s, size_t n, bool lower) { std::string t; for (size_t i = 0; i < n; ++i) t += (char)((lower ? 'a' : 'A') + s.draw(s.chance(1, 2) ? 3 : 26)); return t; }

enum { FINE, MISSING, CUTOFF, NOROOT, ROOTTYPE, EMPTY, NOMEMBER, BADNUM, ODDENTRY, NKIND };
// one data file; returns the text ("" and missing set when there is to be no file), adds entries to m when good
static int gen_file(Src& s, int fam, bool may_fail, std::string& text, std::vector<Entry>& es) {
	static const char* ROOT[] = {"3166-1", "4217", "639-2"};
	int kind = may_fail ? 1 + (int)s.draw(NKIND - 1) : FINE;
	if (kind == BADNUM && fam == LANGUAGE) kind = NOMEMBER;
	size_t n = s.len(1, 12); size_t bad = s.draw(n);
	std::string body;
	for (size_t i = 0; i < n; ++i) {
		Entry e; e.name = gen_name(s); e.a3 = gen_alpha(s, 3, fam == LANGUAGE); if (fam == COUNTRY || (fam == LANGUAGE && s.chance(1, 2))) e.a2 = gen_alpha(s, 2, fam == LANGUAGE);
		if (fam != LANGUAGE) e.num = s.chance(1, 3) ? (int)s.draw(12) : (int)s.draw(1000);
		bool dup = false; for (auto& x : es) if (x.a3 == e.a3 || (!e.a2.empty() && x.a2 == e.a2) || (e.num >= 0 && x.num == e.num)) dup = true;
		if (dup && i != bad) continue; // codes are unique in real data; the damaged entry is always written
		if (dup && kind == FINE) continue;
		std::vector<std::string> m;
		bool here = i == bad; unsigned drop = here && kind == NOMEMBER ? (unsigned)s.draw(fam == COUNTRY ? 4 : fam == CURRENCY ? 3 : 2) : 9;
		if (drop != 0) m.push_back("\"name\": " + jstr(e.name));
		if (drop != 1) m.push_back("\"alpha_3\": " + jstr(e.a3));
		if (!e.a2.empty() && !(fam == COUNTRY && drop == 3)) m.push_back("\"alpha_2\": " + jstr(e.a2));
		if (fam != LANGUAGE && drop != 2) m.push_back("\"numeric\": " + jstr(here && kind == BADNUM ? s.pickl<std::string>({"abc", "", "x12", "99999999999999999999999"}) : fmt("%03d", e.num)));
		if (s.chance(1, 4)) m.push_back("\"official_name\": " + jstr(gen_name(s)));
		if (s.chance(1, 3)) std::rotate(m.begin(), m.begin() + s.draw(m.size()), m.end());
		std::string t = "{"; for (size_t k = 0; k < m.size(); ++k) t += (k ? ", " : "") + m[k]; t += "}";
		if (here && kind == ODDENTRY) t = s.pickl<std::string>({"5", "\"NL\"", "null", "[]", "true"});
		else es.push_back(e);
		body += (body.empty() ? "" : ",\n\t") + t;
	}
	if (body.empty() && kind == FINE) { Entry e; e.name = "Only"; e.a3 = fam == LANGUAGE ? "zzz" : "ZZZ"; if (fam == COUNTRY) e.a2 = "ZZ"; if (fam != LANGUAGE) e.num = 999; es.push_back(e); body = fmt("{\"name\": \"Only\", \"alpha_3\": \"%s\", \"alpha_2\": \"ZZ\", \"numeric\": \"999\"}", e.a3.c_str()); if (fam == LANGUAGE) es.back().a2 = "ZZ"; }
	text = fmt("{ \"%s\": [", kind == NOROOT ? "nothing" : ROOT[fam]) + body + "] }";
	if (kind == ROOTTYPE) text = fmt("{ \"%s\": ", ROOT[fam]) + s.pickl<std::string>({"{}", "5", "null", "\"x\""}) + "}";
	if (kind == EMPTY) text = fmt("{ \"%s\": [] }", ROOT[fam]);
	if (kind == CUTOFF) text.resize(s.draw(text.size() - 1));
	return kind;
}
VH_PROP(C30, data_files, 12000, 600000, "one to four loads of generated data files (good, missing, cut off, wrong structure, missing or bad members), lookups of present, near and absent codes after each; non-trivial: at least two loads, one successful") {
	Maps now[3], ever[3]; bool loose = false; unsigned good = 0; std::string dir = workdir();
	unsigned loads = (unsigned)s.range(1, 4); static const char* FN[] = {"/iso_3166-1.json", "/iso_4217.json", "/iso_639-2.json"};
	std::vector<Entry> pool; std::string log;
	for (unsigned l = 0; l < loads; ++l) {
		int badfam = s.chance(1, 3) ? (int)s.draw(3) : -1; Maps nm[3]; int failed = -1, fkind = 0;
		for (int f = 0; f < 3; ++f) {
			std::string t; std::vector<Entry> es; int k = gen_file(s, f, f == badfam, t, es);
			if (k == MISSING) unlink((dir + FN[f]).c_str()); else spew(dir + FN[f], t);
			for (auto& e : es) { nm[f].add(e); ever[f].add(e); pool.push_back(e); }
			if (k != FINE && failed < 0) { failed = f; fkind = k; }
			if (s.want()) log += fmt("load %u file %s kind %d:\n", l, FN[f], k) + t.substr(0, 600) + "\n";
		}
		if (s.chance(1, 20)) { std::string odd = s.pickl<std::string>({"", "/", "//", "/nonexistent", dir + "/none/", dir + "/iso_3166-1.json"}); int r = isocodes_init(odd.c_str()); if (access("/iso_3166-1.json", F_OK)) REQUIRE(r == 1, "loading from \"%s\", where there are no data files, gives %d", odd.c_str(), r); s.label("no such directory"); loose = true; }
		std::string path = dir + s.pickl<const char*>({"/", "", "", "//"});
		int r = isocodes_init(path.c_str());
		if (s.want()) log += fmt("result %d\n", r);
		if (failed >= 0) { REQUIRE(r != 0, "load reported success although %s is unusable (kind %d)", FN[failed], fkind); if (fkind == MISSING) REQUIRE(r > 0, "missing file reported as %d", r); if (fkind >= NOROOT) REQUIRE(r < 0, "%s, which exists but has the wrong structure, reported as a package that was not found (%d)", FN[failed], r); loose = true; s.label("failed load"); }
		else { REQUIRE(r == 0, "load of good files failed with %d", r); for (int f = 0; f < 3; ++f) now[f] = nm[f]; loose = false; ++good; }
		if (!good) continue;
		for (unsigned q = 0; q < 25; ++q) {
			std::string k; unsigned n = 0; unsigned w = (unsigned)s.weighted({6, 2, 1, 1});
			if (w == 0 && !pool.empty()) { auto& e = s.pick(pool); k = s.chance(1, 2) && !e.a2.empty() ? e.a2 : e.a3; n = e.num >= 0 ? (unsigned)e.num : 0; }
			else if (w == 1) { k = gen_alpha(s, s.range(2, 3), s.chance(1, 2)); n = (unsigned)s.draw(1000); }
			else if (w == 2 && !pool.empty()) { auto& e = s.pick(pool); k = e.a3; for (auto& c : k) c ^= 0x20; if (s.chance(1, 2)) k = e.a3.substr(0, 2); n = e.num >= 0 ? (unsigned)e.num + 65536 : 70000; }
			else { k = s.pickl<std::string>({"", "A", "NLDX", "N L", "\x80\xFF"}); n = s.u32(); }
			look_alpha(now, ever, loose, k); look_num(now, ever, loose, n);
		}
	}
	if (s.want()) s.desc(log);
	if (loads > 1 && good) s.nontrivial();
}
// Lookups with the data files installed on this machine, all codes
static Maps g_real[3]; static bool g_real_ok = false;
static void real_load() {
	static const char* FN[] = {"iso_3166-1.json", "iso_4217.json", "iso_639-2.json"}; static const char* ROOT[] = {"3166-1", "4217", "639-2"};
	if (g_real_ok) return;
	for (int f = 0; f < 3; ++f) {
		json_object* r = json_object_from_file((std::string("/usr/share/iso-codes/json/") + FN[f]).c_str()); if (!r) { fprintf(stderr, "no iso-codes data\n"); abort(); }
		json_object* a = json_object_object_get(r, ROOT[f]);
		for (size_t i = 0; i < json_object_array_length(a); ++i) { json_object* o = json_object_array_get_idx(a, i); Entry e; auto g = [&](const char* k) { json_object* x = json_object_object_get(o, k); return x ? std::string(json_object_get_string(x)) : std::string(); }; e.name = g("name"); e.a2 = g("alpha_2"); e.a3 = g("alpha_3"); std::string n = g("numeric"); e.num = n.empty() ? -1 : atoi(n.c_str()); g_real[f].add(e); }
		json_object_put(r);
	}
	g_real_ok = true;
	REQUIRE(isocodes_init(nullptr) == 0, "loading the installed iso-codes data failed");
}
VH_ENUM(C30, installed, 26 * 26 + 66, "the installed iso-codes data: all alpha-2 and alpha-3 codes in upper, lower and mixed case and all numbers up to 65535") {
	isocodes_init(nullptr); real_load(); REQUIRE(isocodes_init("/usr/share/iso-codes/json") == 0, "loading the installed iso-codes data again failed");
	if (s.index < 676) {
		char a = 'A' + s.index / 26, b = 'A' + s.index % 26;
		for (unsigned m = 0; m < 8; ++m) {
			char x = (m & 1) ? a | 32 : a, y = (m & 2) ? b | 32 : b;
			if (m < 4) look_alpha(g_real, g_real, false, std::string{x, y});
			for (char c = 'A'; c <= 'Z'; ++c) look_alpha(g_real, g_real, false, std::string{x, y, (char)((m & 4) ? c | 32 : c)});
		}
	} else { unsigned b = (unsigned)(s.index - 676) * 1000; for (unsigned n = b; n < b + 1000; ++n) look_num(g_real, g_real, false, n); }
	s.nontrivial();
}
VH_PROP(C30, mcc, 12000, 600000, "one to three loads of generated merchant category files (good, missing, cut off, wrong structure, bad entries), lookups after each; non-trivial: at least two entries looked up successfully") {
	NMap ever, now; std::string dir = workdir(), f = dir + "/mcc.json"; unsigned loads = (unsigned)s.range(1, 3), hits = 0; bool loose = true; std::set<unsigned> stale; std::string log;
	for (unsigned l = 0; l < loads; ++l) {
		unsigned kind = s.chance(1, 3) ? (unsigned)s.range(1, 6) : 0; NMap nm; std::string body; size_t n = s.len(1, 15), bad = s.draw(n);
		for (size_t i = 0; i < n; ++i) {
			unsigned c = s.chance(1, 3) ? (unsigned)s.range(1, 20) : (unsigned)s.range(1, 9999); if (nm.count(c)) { if (i != bad || !kind) continue; }
			std::string d = gen_name(s); nm[c].insert(d); ever[c].insert(d);
			std::vector<std::string> m; unsigned drop = i == bad && kind == 1 ? (unsigned)s.draw(2) : 9;
			if (drop != 0) m.push_back(i == bad && kind == 2 ? s.pickl<std::string>({"\"mcc\": \"0\"", "\"mcc\": \"-5\"", "\"mcc\": \"abc\"", "\"mcc\": \"\""}) : fmt("\"mcc\": \"%04u\"", c));
			if (drop != 1) m.push_back("\"edited_description\": " + jstr(d));
			m.push_back("\"combined_description\": \"other\""); m.push_back("\"irs_reportable\": \"Yes\""); if (s.chance(1, 2)) m.push_back(fmt("\"id\": %zu", i));
			std::string t = "{"; for (size_t k = 0; k < m.size(); ++k) t += (k ? ", " : "") + m[k]; t += "}";
			if (i == bad && kind == 3) t = s.pickl<std::string>({"5", "\"x\"", "null", "true"});
			body += (body.empty() ? "" : ",\n") + t;
		}
		std::string text = "[" + body + "]";
		if (kind == 4) text = s.pickl<std::string>({"{}", "[]", "5", "{\"mcc\": []}"});
		if (kind == 5) text.resize(s.draw(text.size() - 1));
		if (kind == 6) unlink(f.c_str()); else spew(f, text);
		int r = mcc_init(f.c_str()); if (s.want()) log += fmt("load %u kind %u result %d: ", l, kind, r) + text.substr(0, 500) + "\n";
		for (auto& e : now) stale.insert(e.first);
		if (kind) { REQUIRE(r != 0, "unusable merchant category data (kind %u) accepted: %s", kind, text.substr(0, 300).c_str()); if (kind == 6) REQUIRE(r > 0, "missing file reported as %d", r); else if (kind != 5 && text != "5") REQUIRE(r < 0, "data of the wrong structure (kind %u), but there, reported as not found (%d): %s", kind, r, text.substr(0, 300).c_str()); loose = true; s.label("failed load"); }
		else { REQUIRE(r == 0, "good merchant category data refused with %d: %s", r, text.substr(0, 300).c_str()); now = nm; loose = false; }
		if (loose) { for (auto& e : nm) stale.insert(e.first); }
		if (kind) continue;
		for (auto& e : now) { const char* g = mcc_lookup(e.first); REQUIRE(g && e.second.count(g), "category %u gives \"%s\" expected \"%s\"", e.first, g ? g : "(nothing)", e.second.begin()->c_str()); ++hits; }
		for (unsigned n2 : {0u, 10000u, 65536u, 0xFFFFFFFFu, (unsigned)s.range(10000, 99999), now.begin()->first + 65536u}) { const char* g = mcc_lookup(n2); REQUIRE(!g, "category %u gives \"%s\" although no data defines it", n2, g); }
	}
	if (hits > 1) s.nontrivial();
	if (s.want()) s.desc(log);
}
