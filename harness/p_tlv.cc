// C01..C12: decoding, lists, formats, DOL, fields, ATR, APDU classification
#include "model.h"
#include "atr_model.h"
extern "C" {
#include "iso8825_ber.h"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
#include "emv.h"
#include "emv_tlv.h"
#include "emv_tags.h"
#include "emv_dol.h"
#include "emv_fields.h"
int vh_apdu_case(const void*, size_t); bool vh_sw_success(uint8_t, uint8_t), vh_sw_normal(uint8_t, uint8_t), vh_sw_warning(uint8_t, uint8_t), vh_sw_error(uint8_t, uint8_t); extern const int vh_case_values[7];
}
using namespace vh; using namespace model; using namespace atrm;

// ------------------------------------------------------------------ C01
static void check_element(const Bytes& b, Src& s) {
	Exact x(b);
	El e; int want = element(x.p, x.n, &e);
	struct iso8825_tlv_t t; memset(&t, 0xEE, sizeof t);
	int got = iso8825_ber_decode(x.p, x.n, &t);
	if (want < 0) { REQUIRE(got < 0, "decode(%s) = %d but the data is not a complete element", hex(b).c_str(), got); return; }
	REQUIRE(got == want, "decode(%s) consumed %d, expected %d", hex(b).c_str(), got, want);
	if (!want) return;
	REQUIRE(t.tag == e.tag, "decode(%s) tag %X expected %X", hex(b).c_str(), t.tag, e.tag);
	REQUIRE(t.length == e.len, "decode(%s) length %u expected %zu", hex(b).c_str(), t.length, e.len);
	REQUIRE(t.value == x.p + e.hdr, "decode(%s) value offset %td expected %zu", hex(b).c_str(), t.value - x.p, e.hdr);
	REQUIRE(iso8825_ber_is_constructed(&t) == e.constructed && iso8825_ber_get_class(&t) == e.cls, "decode(%s) class/constructed flags %02X", hex(b).c_str(), t.flags);
	if (e.indefinite) s.label("indefinite"); if (e.hdr > 2) s.label("long-header"); if (e.tag > 0xFFFF) s.label("3+ octet tag");
}
static void check_iter(const Bytes& b, Src& s) {
	Exact x(b);
	struct iso8825_ber_itr_t it; struct iso8825_tlv_t t;
	if (!x.n && s.chance(1, 2)) { /* an empty input needs a valid pointer */ }
	REQUIRE(iso8825_ber_itr_init(x.p, x.n, &it) == 0, "iterator init failed");
	size_t o = 0; unsigned cnt = 0;
	for (;;) {
		El e; int want = element(x.p + o, x.n - o, &e);
		memset(&t, 0xEE, sizeof t);
		int got = iso8825_ber_itr_next(&it, &t);
		if (want < 0) {
			REQUIRE(got < 0, "iterating %s: element %u at %zu should be an error, got %d", hex(b).c_str(), cnt, o, got);
			// the iterator does not move past a malformed element
			REQUIRE(iso8825_ber_itr_next(&it, &t) < 0, "iterator continued after a malformed element of %s", hex(b).c_str());
			s.label("malformed"); break;
		}
		REQUIRE(got == want, "iterating %s: element %u at %zu consumed %d expected %d", hex(b).c_str(), cnt, o, got, want);
		if (!want) { REQUIRE(iso8825_ber_itr_next(&it, &t) == 0, "iterator does not stay at end of data"); s.label("wellformed"); break; }
		REQUIRE(t.tag == e.tag && t.length == e.len && t.value == x.p + o + e.hdr, "iterating %s: element %u at %zu is %X/%u at %td, expected %X/%zu at %zu", hex(b).c_str(), cnt, o, t.tag, t.length, t.value - x.p, e.tag, e.len, o + e.hdr);
		REQUIRE(iso8825_ber_is_constructed(&t) == e.constructed && iso8825_ber_get_class(&t) == e.cls, "iterating %s: element %u flags %02X", hex(b).c_str(), cnt, t.flags);
		o += want; ++cnt;
	}
	if (cnt >= 1) s.nontrivial();
}
VH_PROP(C01, iterate, 400000, 12000000, "random nested BER data in all tag and length forms, half of it damaged; non-trivial: at least one complete element was decoded and compared") {
	Bytes b; gen_data(s, b, 0, 400);
	if (s.chance(1, 2)) corrupt(s, b);
	if (s.want()) s.desc("data " + hex(b));
	check_iter(b, s);
}
VH_PROP(C01, noise, 300000, 8000000, "short strings of boundary-biased bytes; non-trivial: at least two octets") {
	Bytes b = s.bbytes(s.len(0, 24));
	if (s.want()) s.desc("data " + hex(b));
	if (b.size() >= 2) s.nontrivial();
	check_element(b, s); check_iter(b, s);
}
VH_PROP(C01, truncation, 60000, 1500000, "every prefix of one element: only the whole element decodes; non-trivial: element longer than its header") {
	Bytes b; bool c = s.chance(1, 2);
	gen_tag(s, b, c); Bytes in; if (c) gen_data(s, in, 3, 60); else in = s.bbytes(s.len(0, 140));
	if (c && s.chance(1, 2)) { b.push_back(0x80); add(b, in); b.push_back(0); b.push_back(0); }
	else { gen_len(s, b, in.size()); add(b, in); }
	if (s.want()) s.desc("element " + hex(b));
	if (!in.empty()) s.nontrivial();
	for (size_t n = 0; n <= b.size(); ++n) { Bytes p(b.begin(), b.begin() + n); check_element(p, s); }
	Bytes q = b; add(q, s.bbytes(s.len(0, 5))); check_element(q, s);
}
VH_PROP(C01, long_lengths, 60000, 1000000, "length octets of every count 0..127 with boundary values; non-trivial: long form") {
	Bytes b; gen_tag(s, b, s.chance(1, 2));
	unsigned c = s.chance(1, 3) ? (unsigned)s.draw(128) : (unsigned)s.draw(6);
	size_t body = s.len(0, 300);
	b.push_back(0x80 | c);
	if (s.chance(1, 4)) { uint64_t v = 0 - s.range(1, 40); for (unsigned i = c; i--;) b.push_back(i >= 8 ? 0xFF : (uint8_t)(v >> (8 * i))); } // wraps when added to an offset
	else if (s.chance(1, 2)) for (unsigned i = 0; i < c; ++i) b.push_back(i + 2 >= c ? s.bbyte() : (s.chance(1, 6) ? s.bbyte() : 0));
	else for (unsigned i = c; i--;) b.push_back(i >= 8 ? 0 : (uint8_t)((uint64_t)body >> (8 * i)));
	size_t have = s.chance(1, 3) ? s.len(0, 300) : body;
	for (size_t i = 0; i < have; ++i) b.push_back((uint8_t)(i * 3));
	if (c) s.nontrivial();
	if (s.want()) s.desc("data " + hex(b).substr(0, 80));
	check_element(b, s);
}
// all one..three octet inputs, all tags over the first three octets
VH_ENUM(C01, small_all, 1 + 256 + 65536 + 256 * 256 * 16, "every input of up to 2 octets, and all 2-octet starts with 16 third octets") {
	uint64_t i = s.index; Bytes b; s.nontrivial();
	if (i == 0) {} else if ((i -= 1) < 256) b = {(uint8_t)i};
	else if ((i -= 256) < 65536) b = {(uint8_t)(i >> 8), (uint8_t)i};
	else { i -= 65536; static const uint8_t t[] = {0, 1, 2, 3, 0x1F, 0x30, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0x9F, 0xBF, 0xFE, 0xFF}; b = {(uint8_t)(i >> 12), (uint8_t)(i >> 4), t[i & 15]}; if (i & 1) { b.push_back(0); b.push_back(0); } }
	check_element(b, s);
}
VH_PROP(C01, tags, 100000, 2000000, "tag octets of one to six octets with data ending anywhere; non-trivial: high tag number form") {
	Bytes b; uint8_t f = (uint8_t)(s.draw(8) << 5) | (s.chance(2, 3) ? 0x1F : (uint8_t)s.draw(32)); b.push_back(f);
	unsigned n = (unsigned)s.draw(6); for (unsigned i = 0; i < n; ++i) b.push_back((s.bbyte() & 0x7F) | (s.chance(3, 4) ? 0x80 : 0));
	if (s.chance(1, 2)) b.push_back(s.bbyte() & 0x7F);
	if (s.chance(1, 8)) b.clear();
	if (s.want()) s.desc("octets " + hex(b));
	if (!b.empty() && (b[0] & 0x1F) == 0x1F) s.nontrivial();
	Exact x(b); unsigned want = 0, got = 0; int r = tag(x.p, x.n, &want), g = iso8825_ber_tag_decode(x.p, x.n, &got);
	if (r < 0) REQUIRE(g < 0, "tag_decode(%s) = %d for incomplete or over-long tag", hex(b).c_str(), g);
	else { REQUIRE(g == r, "tag_decode(%s) consumed %d expected %d", hex(b).c_str(), g, r); if (r) REQUIRE(got == want, "tag_decode(%s) = %X expected %X", hex(b).c_str(), got, want); }
}

// ------------------------------------------------------------------ C02
static std::vector<Field> list_fields(const struct emv_tlv_list_t* l) {
	std::vector<Field> f; const struct emv_tlv_t* last = nullptr;
	for (const struct emv_tlv_t* t = l->front; t; t = t->next) { f.push_back({t->tag, Bytes(t->value, t->value + t->length)}); last = t; }
	REQUIRE(l->back == last, "list back pointer is not the last element");
	return f;
}
static std::string show(const std::vector<Field>& f) { std::string o; for (auto& x : f) o += fmt("%X=", x.tag) + hex(x.value) + " "; return o; }
static void check_parse(const Bytes& b, Src& s, bool alone) {
	std::vector<Field> want; int depth = 0; bool ok = flatten(b, want, &depth);
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	std::vector<Field> pre;
	if (!alone) { unsigned n = (unsigned)s.draw(3); for (unsigned i = 0; i < n; ++i) { Field f{0x5A, s.bytes(2)}; pre.push_back(f); REQUIRE(emv_tlv_list_push(&l, f.tag, 2, f.value.data(), 0) == 0, "push failed"); } }
	{
		Exact x(b);
		int r = emv_tlv_parse(x.p, x.n, &l);
		if (ok) REQUIRE(r == 0, "parse(%s) = %d for well-formed data", hex(b).c_str(), r);
		else REQUIRE(r > 0, "parse(%s) = %d for malformed data", hex(b).c_str(), r);
		memset(x.p, 0x55, x.n);
	} // the input is gone here
	std::vector<Field> got = list_fields(&l), all = pre; all.insert(all.end(), want.begin(), want.end());
	REQUIRE(got == all, "parse(%s) lists %s expected %s", hex(b).c_str(), show(got).c_str(), show(all).c_str());
	emv_tlv_list_clear(&l);
	REQUIRE(emv_tlv_list_is_empty(&l) && alloc_live() == 0, "%zu blocks leaked by parse(%s)", alloc_live(), hex(b).c_str());
	s.label(ok ? "wellformed" : "malformed"); if (depth >= 2) s.label("nested2+"); if (depth >= 4) s.label("nested4+");
	if (want.size() >= 2) s.nontrivial();
}
VH_PROP(C02, parse, 400000, 10000000, "random nested EMV data, well-formed or damaged, parsed into empty and non-empty lists; non-trivial: at least two primitive fields expected") {
	Bytes b; gen_data(s, b, 0, 500);
	if (s.chance(2, 5)) corrupt(s, b);
	if (s.want()) s.desc("data " + hex(b));
	check_parse(b, s, s.chance(1, 2));
}
VH_PROP(C02, deep, 20000, 400000, "chains of nested templates up to depth 60, each level with fields before and after; non-trivial: depth of at least 8") {
	unsigned d = (unsigned)s.range(1, 60); Bytes b;
	if (s.chance(1, 2)) b = tlv(0x9F02, s.bytes(3));
	for (unsigned i = 0; i < d; ++i) {
		Bytes in = b; if (s.chance(1, 3)) in = tlv(0x50, s.bytes(s.len(0, 3))) + in; if (s.chance(1, 3)) add(in, tlv(0x5F2D, s.bytes(1)));
		Bytes o; gen_tag(s, o, true);
		if (s.chance(1, 4)) { o.push_back(0x80); add(o, in); o.push_back(0); o.push_back(0); } else { gen_len(s, o, in.size()); add(o, in); }
		b = o;
	}
	if (s.chance(1, 4)) corrupt(s, b);
	if (d >= 8) s.nontrivial();
	if (s.want()) s.desc("depth " + std::to_string(d) + " " + hex(b).substr(0, 60));
	check_parse(b, s, true);
}
VH_PROP(C02, noise, 200000, 5000000, "boundary-biased bytes; non-trivial: two fields") { Bytes b = s.bbytes(s.len(0, 40)); if (s.want()) s.desc("data " + hex(b)); check_parse(b, s, true); }
VH_PROP(C02, many, 4000, 80000, "flat data with up to 300 fields and values up to 1000 octets; non-trivial: more than 20 fields") {
	unsigned n = (unsigned)s.len(0, 300); Bytes b;
	for (unsigned i = 0; i < n; ++i) { gen_tag(s, b, false); size_t l = s.chance(1, 40) ? s.len(100, 1000) : s.len(0, 6); gen_len(s, b, l); for (size_t k = 0; k < l; ++k) b.push_back((uint8_t)(k ^ i)); }
	if (n > 20) s.nontrivial();
	if (s.want()) s.desc(fmt("%u fields, %zu octets", n, b.size()));
	check_parse(b, s, true);
}

// ------------------------------------------------------------------ C03
static thread_local bool oid_padded; // a subidentifier starts with a redundant 80 octet, which X.690 forbids: acceptance not judged
static bool oid_model(const Bytes& b, std::vector<uint64_t>& arcs) {
	if (b.empty()) return false;
	size_t i = 0; bool first = true;
	while (i < b.size()) {
		unsigned __int128 v = 0; bool big = false, done = false; if (b[i] == 0x80) oid_padded = true;
		while (i < b.size()) { v = v << 7 | (b[i] & 0x7F); if (v >> 64) big = true; if (!(b[i++] & 0x80)) { done = true; break; } }
		if (!done || big) return false;
		uint64_t x = (uint64_t)v;
		if (first) { uint64_t a = x < 40 ? 0 : x < 80 ? 1 : 2; arcs.push_back(a); arcs.push_back(x - a * 40); first = false; } else arcs.push_back(x);
	}
	return true;
}
static void put_arc(Bytes& b, uint64_t v) { Bytes t; t.push_back(v & 0x7F); while (v >>= 7) t.push_back(0x80 | (v & 0x7F)); b.insert(b.end(), t.rbegin(), t.rend()); }
static void check_oid(const Bytes& b, Src& s) {
	std::vector<uint64_t> arcs; oid_padded = false; bool ok = oid_model(b, arcs);
	if (ok && arcs.size() > 10) { ok = false; s.label("too many arcs"); }
	if (ok) for (uint64_t a : arcs) if (a > 0xFFFFFFFFull) { ok = false; s.label("arc too large"); }
	Exact x(b); Exact o(sizeof(struct iso8825_oid_t), 0x77); auto* oid = (struct iso8825_oid_t*)o.p;
	int r = iso8825_ber_oid_decode(x.p, x.n, oid);
	if (oid_padded && r) { s.label("padded"); return; }
	if (!ok) { REQUIRE(r < 0, "oid_decode(%s) = %d (%u arcs) for content that is not a representable identifier", hex(b).c_str(), r, oid->length); return; }
	REQUIRE(r == 0, "oid_decode(%s) = %d", hex(b).c_str(), r);
	REQUIRE(oid->length == arcs.size(), "oid_decode(%s) gives %u arcs expected %zu", hex(b).c_str(), oid->length, arcs.size());
	for (size_t i = 0; i < arcs.size(); ++i) REQUIRE(oid->value[i] == arcs[i], "oid_decode(%s) arc %zu is %u expected %llu", hex(b).c_str(), i, oid->value[i], (unsigned long long)arcs[i]);
	s.nontrivial();
}
VH_PROP(C03, oid_arcs, 300000, 6000000, "identifiers encoded from 2 to 12 random arcs of up to 40 bits; non-trivial: accepted and compared arc by arc") {
	Bytes b; unsigned n = (unsigned)s.range(2, 12); uint64_t a = s.draw(3);
	auto arc = [&]() -> uint64_t { switch (s.draw(5)) { case 0: return s.draw(128); case 1: return s.draw(20000); case 2: return s.u32(); case 3: return (1ull << s.draw(36)) - s.draw(2); default: return s.draw(1ull << 32); } };
	uint64_t second = a < 2 ? s.draw(40) : std::min<uint64_t>(arc(), (1ull << 33));
	put_arc(b, a * 40 + second);
	for (unsigned i = 2; i < n; ++i) put_arc(b, arc());
	if (s.chance(1, 6) && !b.empty()) b.pop_back();
	if (s.chance(1, 8)) corrupt(s, b);
	if (s.want()) s.desc("content " + hex(b));
	check_oid(b, s);
}
VH_PROP(C03, oid_noise, 150000, 3000000, "random content octets up to 60; non-trivial: accepted") { Bytes b = s.chance(1, 2) ? s.bytes(s.len(0, 12)) : s.bbytes(s.len(0, 60)); if (s.want()) s.desc("content " + hex(b)); check_oid(b, s); }
VH_ENUM(C03, oid_small, 1 + 256 + 65536 + 256 * 256 * 8, "every content of up to 2 octets, and 3-octet contents with 8 last octets") {
	uint64_t i = s.index; Bytes b;
	if (i == 0) {} else if ((i -= 1) < 256) b = {(uint8_t)i}; else if ((i -= 256) < 65536) b = {(uint8_t)(i >> 8), (uint8_t)i};
	else { i -= 65536; static const uint8_t t[] = {0, 1, 0x27, 0x28, 0x7F, 0x80, 0x81, 0xFF}; b = {(uint8_t)(i >> 11), (uint8_t)(i >> 3), t[i & 7]}; }
	check_oid(b, s);
}
VH_ENUM(C03, string_types, 65536 + 16, "every one and two octet tag value: string exactly for the ASN.1 string and time types") {
	static const std::set<unsigned> str = {7, 12, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30};
	struct iso8825_tlv_t t; memset(&t, 0, sizeof t); t.tag = s.index < 65536 ? (unsigned)s.index : (unsigned)((s.index - 65536) << 16 | 0x0C); uint8_t v[2] = {'a', 'b'}; t.value = v; t.length = s.index & 1 ? 2 : 0; t.flags = 0;
	REQUIRE(iso8825_ber_is_string(&t) == (str.count(t.tag) != 0), "is_string(tag %X) = %d", t.tag, iso8825_ber_is_string(&t)); s.nontrivial();
	if (s.index == 0) REQUIRE(!iso8825_ber_is_string(nullptr), "is_string(NULL)");
}

// ------------------------------------------------------------------ C04
static void check_compact(const Bytes& b, Src& s) {
	Exact x(b); struct iso7816_compact_tlv_itr_t it; struct iso7816_compact_tlv_t t; unsigned n = 0;
	int r = iso7816_compact_tlv_itr_init(x.p, x.n, &it);
	if (b.empty()) { memset(&t, 0, sizeof t); REQUIRE(iso7816_compact_tlv_decode(x.p, 0, &t) == 0, "decode of empty data is not end of data"); return; }
	REQUIRE(r == 0, "init(%s) = %d", hex(b).c_str(), r);
	size_t o = 0;
	while (true) {
		memset(&t, 0xEE, sizeof t);
		struct iso7816_compact_tlv_t d; memset(&d, 0xEE, sizeof d);
		int r2 = iso7816_compact_tlv_decode(x.p + o, x.n - o, &d);
		r = iso7816_compact_tlv_itr_next(&it, &t);
		REQUIRE((r > 0) == (r2 > 0) && (r == 0) == (r2 == 0), "iterator and decode disagree on %s at %zu: %d %d", hex(b).c_str(), o, r, r2);
		if (o == x.n) { REQUIRE(r == 0, "%s: %d at end of data", hex(b).c_str(), r); s.label("complete"); break; }
		size_t l = b[o] & 15;
		if (o + 1 + l > x.n) { REQUIRE(r < 0, "%s: incomplete element at %zu accepted (%d)", hex(b).c_str(), o, r); s.label("incomplete"); break; }
		REQUIRE(r == (int)(1 + l) && r2 == r && t.tag == b[o] >> 4 && t.length == l && t.value == x.p + o + 1, "%s: element at %zu decoded as tag %X length %u consumed %d", hex(b).c_str(), o, t.tag, t.length, r);
		REQUIRE(d.tag == t.tag && d.length == t.length && d.value == t.value, "iterator and decode disagree on content");
		o += 1 + l; ++n;
	}
	if (n >= 2) s.nontrivial();
}
VH_PROP(C04, walk, 400000, 6000000, "sequences of compact elements, sometimes cut or with noise; non-trivial: at least two elements") {
	Bytes b; if (s.chance(1, 4)) b = s.bytes(s.len(0, 24));
	else { unsigned n = (unsigned)s.draw(7); for (unsigned i = 0; i < n; ++i) { unsigned l = (unsigned)(s.chance(2, 3) ? s.draw(4) : s.draw(16)); b.push_back((uint8_t)(s.draw(16) << 4 | l)); add(b, s.bytes(l)); } if (s.chance(1, 3) && !b.empty()) b.resize(s.draw(b.size() + 1)); }
	if (s.want()) s.desc("data " + hex(b)); check_compact(b, s);
}
VH_ENUM(C04, small_all, 65536 + 256, "every input of one and two octets") { Bytes b; if (s.index < 256) b = {(uint8_t)s.index}; else b = {(uint8_t)((s.index - 256) >> 8), (uint8_t)s.index}; s.nontrivial(); check_compact(b, s); s.nontrivial(); }
VH_ENUM(C04, names, 256, "every tag value") {
	static const std::map<unsigned, const char*> n = {{1, "Country code"}, {2, "Issuer identification number"}, {3, "Card service data"}, {4, "Initial access data"}, {5, "Card issuer data"}, {6, "Pre-issuing data"}, {7, "Card capabilities"}, {8, "Status indicator"}, {15, "Application identifier (AID)"}};
	const char* g = iso7816_compact_tlv_tag_get_string((uint8_t)s.index); auto it = n.find((unsigned)s.index);
	REQUIRE(g && !strcmp(g, it == n.end() ? "Unknown" : it->second), "name of tag %u is %s", (unsigned)s.index, g ? g : "(null)"); s.nontrivial();
}

// ------------------------------------------------------------------ C05
VH_PROP(C05, history, 120000, 2500000, "histories of up to 60 operations over three lists against a queue model; non-trivial: at least one append or pop of a non-empty list and ten operations") {
	struct emv_tlv_list_t L[3] = {EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT};
	struct M { Field f; uint8_t flags; const struct emv_tlv_t* node; };
	std::vector<M> m[3]; std::vector<std::pair<struct emv_tlv_t*, M>> popped;
	unsigned n = (unsigned)s.len(1, 60); bool interesting = false; std::string log;
	static const unsigned tags[] = {0x4F, 0x50, 0x84, 0x9F02, 0x9F12, 0x5A, 0, 0xFFFFFFFF, 0x9F8101};
	auto verify = [&](int i) {
		size_t k = 0; const struct emv_tlv_t* last = nullptr;
		for (const struct emv_tlv_t* t = L[i].front; t; t = t->next, ++k) {
			REQUIRE(k < m[i].size(), "list %d has extra fields after [%s]", i, log.c_str());
			REQUIRE(t->tag == m[i][k].f.tag && t->length == m[i][k].f.value.size() && t->flags == m[i][k].flags && (t->length == 0 || !memcmp(t->value, m[i][k].f.value.data(), t->length)), "list %d field %zu is %X=%s flags %02X, expected %X=%s flags %02X after [%s]", i, k, t->tag, hex(t->value, t->length).c_str(), t->flags, m[i][k].f.tag, hex(m[i][k].f.value).c_str(), m[i][k].flags, log.c_str());
			last = t;
		}
		REQUIRE(k == m[i].size(), "list %d holds %zu fields expected %zu after [%s]", i, k, m[i].size(), log.c_str());
		REQUIRE(L[i].back == last, "list %d back pointer wrong after [%s]", i, log.c_str());
		REQUIRE(emv_tlv_list_is_empty(&L[i]) == m[i].empty(), "list %d is_empty wrong after [%s]", i, log.c_str());
	};
	for (unsigned op = 0; op < n; ++op) {
		int a = (int)s.draw(3), b = (int)s.draw(3);
		switch (s.weighted({8, 3, 3, 2, 2, 1, 1})) {
			case 0: {
				unsigned t = s.pick(tags); Bytes v = s.bytes(s.len(0, 20)); uint8_t fl = s.byte(); log += fmt("push%d %X=%s,", a, t, hex(v).c_str());
				{ Exact x(v); REQUIRE(emv_tlv_list_push(&L[a], t, (unsigned)v.size(), x.p, fl) == 0, "push failed"); memset(x.p, 0, x.n); }
				m[a].push_back({{t, v}, fl, nullptr}); break;
			}
			case 1: {
				log += fmt("pop%d,", a); struct emv_tlv_t* t = emv_tlv_list_pop(&L[a]);
				if (m[a].empty()) REQUIRE(!t, "pop of empty list returned a field");
				else {
					REQUIRE(t, "pop returned nothing after [%s]", log.c_str());
					M x = m[a].front(); m[a].erase(m[a].begin());
					REQUIRE(t->tag == x.f.tag && t->length == x.f.value.size() && t->flags == x.flags && (!t->length || !memcmp(t->value, x.f.value.data(), t->length)) && !t->next, "pop returned the wrong field after [%s]", log.c_str());
					interesting = true;
					if (s.chance(1, 2)) REQUIRE(emv_tlv_free(t) == 0, "free of popped field failed"); else popped.push_back({t, x});
				}
				break;
			}
			case 2: {
				unsigned t = s.pick(tags); log += fmt("find%d %X,", a, t); struct emv_tlv_t* g = emv_tlv_list_find(&L[a], t);
				size_t k = 0; struct emv_tlv_t* w = nullptr; for (struct emv_tlv_t* q = L[a].front; q && k < m[a].size(); q = q->next, ++k) if (m[a][k].f.tag == t) { w = q; break; }
				REQUIRE(g == w, "find %X in list %d gave %s field after [%s]", t, a, g ? (w ? "a later" : "a non-existing") : "no", log.c_str());
				break;
			}
			case 3: {
				if (a == b) break; log += fmt("append%d<-%d,", a, b); if (!m[b].empty()) interesting = true;
				REQUIRE(emv_tlv_list_append(&L[a], &L[b]) == 0, "append failed"); m[a].insert(m[a].end(), m[b].begin(), m[b].end()); m[b].clear(); break;
			}
			case 4: {
				std::set<unsigned> seen; bool dup = false; for (auto& x : m[a]) dup |= !seen.insert(x.f.tag).second;
				REQUIRE(emv_tlv_list_has_duplicate(&L[a]) == dup, "has_duplicate(list %d) wrong (expected %d) after [%s]", a, dup, log.c_str()); if (dup) s.label("duplicate"); break;
			}
			case 5: log += fmt("clear%d,", a); emv_tlv_list_clear(&L[a]); m[a].clear(); break;
			default: {
				if (L[a].front && L[a].front->next) REQUIRE(emv_tlv_free(L[a].front) != 0, "freeing a field that is still linked was allowed");
				break;
			}
		}
		for (int i = 0; i < 3; ++i) verify(i);
	}
	for (auto& p : popped) { REQUIRE(p.first->length == p.second.f.value.size() && (!p.first->length || !memcmp(p.first->value, p.second.f.value.data(), p.first->length)), "popped field changed later, history [%s]", log.c_str()); REQUIRE(emv_tlv_free(p.first) == 0, "free of popped field failed"); }
	for (int i = 0; i < 3; ++i) { emv_tlv_list_clear(&L[i]); REQUIRE(emv_tlv_list_is_empty(&L[i]) && !L[i].front && !L[i].back, "list not empty after clear"); }
	REQUIRE(alloc_live() == 0, "%zu blocks still allocated after clearing, history [%s]", alloc_live(), log.c_str());
	if (interesting && n >= 10) s.nontrivial();
	if (s.want()) s.desc(log);
}
VH_PROP(C05, duplicates, 150000, 3000000, "lists of up to 12 fields with few distinct tags, duplicates anywhere; non-trivial: at least three fields") {
	struct emv_tlv_list_t L = EMV_TLV_LIST_INIT; unsigned n = (unsigned)s.draw(13); std::set<unsigned> seen; bool dup = false; std::string d;
	unsigned space = s.chance(1, 2) ? 1000 : 20;
	for (unsigned i = 0; i < n; ++i) { unsigned t = (unsigned)s.draw(space) + 0x9F00; d += fmt("%X ", t); dup |= !seen.insert(t).second; uint8_t v = 1; emv_tlv_list_push(&L, t, 1, &v, 0); }
	bool g = emv_tlv_list_has_duplicate(&L); emv_tlv_list_clear(&L);
	REQUIRE(g == dup, "has_duplicate(%s) = %d", d.c_str(), g); if (n >= 3) s.nontrivial(); if (s.want()) s.desc(d); if (dup) s.label("duplicate"); else s.label("distinct");
}

// ------------------------------------------------------------------ C06
static std::string dec(uint64_t v) { return std::to_string(v); }
VH_PROP(C06, uint_n, 400000, 8000000, "32-bit values to format n fields of 1..12 octets and back; non-trivial: value of two or more digits") {
	uint32_t v = s.u32(); size_t l = s.range(1, s.chance(1, 4) ? 12 : 6);
	if (s.want()) s.desc(fmt("value %u in %zu octets", v, l));
	Exact x(l); const uint8_t* r = emv_uint_to_format_n(v, x.p, l);
	REQUIRE(r == x.p, "uint_to_format_n(%u) did not return its buffer", v);
	std::string want = dec(v); while (want.size() < l * 2) want = "0" + want; want = want.substr(want.size() - l * 2);
	REQUIRE(hex(x.p, l) == want, "uint_to_format_n(%u, %zu octets) = %s expected %s", v, l, hex(x.p, l).c_str(), want.c_str());
	uint32_t back = 0; int q = emv_format_n_to_uint(x.p, l, &back);
	if (want.size() >= dec(v).size()) REQUIRE(q == 0 && back == v, "format_n_to_uint(%s) = %d value %u expected %u", want.c_str(), q, back, v);
	if (v >= 10) s.nontrivial();
}
VH_PROP(C06, n_uint, 400000, 8000000, "format n fields of 1..12 octets with some non-decimal digits; non-trivial: a value or error was decided for two or more octets") {
	size_t l = s.range(1, s.chance(1, 5) ? 12 : 6); Bytes b(l); bool bad = false;
	unsigned lead = (unsigned)s.draw(2 * l + 1);
	for (size_t i = 0; i < 2 * l; ++i) { uint8_t d = i < lead ? 0 : (uint8_t)(s.chance(1, 30) ? s.draw(16) : s.draw(10)); if (d > 9) bad = true; b[i / 2] |= i & 1 ? d : d << 4; }
	if (s.want()) s.desc("field " + hex(b));
	Exact x(b); uint32_t v = 0xDEADBEEF; int r = emv_format_n_to_uint(x.p, l, &v);
	if (l >= 2) s.nontrivial();
	if (bad) { REQUIRE(r > 0, "format_n_to_uint(%s) = %d for a non-decimal digit", hex(b).c_str(), r); s.label("bad digit"); return; }
	unsigned __int128 w = 0; for (char c : hex(b)) w = w * 10 + (c - '0');
	if (w >> 32) { s.label("exceeds 32 bits"); REQUIRE(r != 0, "format_n_to_uint(%s) reports success with %u although the value does not fit", hex(b).c_str(), v); return; }
	REQUIRE(r == 0 && v == (uint32_t)w, "format_n_to_uint(%s) = %d, %u", hex(b).c_str(), r, v);
	Exact y(l); emv_uint_to_format_n(v, y.p, l); REQUIRE(y.vec() == b, "format n does not convert back: %s -> %u -> %s", hex(b).c_str(), v, hex(y.p, l).c_str());
}
VH_PROP(C06, b_uint, 200000, 4000000, "32-bit values to and from format b fields of 1..8 octets; non-trivial: value above 255") {
	uint32_t v = s.u32(); size_t l = s.range(1, 8); Exact x(l);
	if (s.want()) s.desc(fmt("value %u in %zu octets", v, l));
	REQUIRE(emv_uint_to_format_b(v, x.p, l) == x.p, "uint_to_format_b did not return its buffer");
	for (size_t i = 0; i < l; ++i) { uint8_t w = i < 4 ? (uint8_t)(v >> (8 * i)) : 0; REQUIRE(x.p[l - 1 - i] == w, "uint_to_format_b(%u, %zu) = %s", v, l, hex(x.p, l).c_str()); }
	Bytes b = s.bbytes(s.range(1, 6)); Exact y(b); uint32_t g = 0xDEADBEEF; int r = emv_format_b_to_uint(y.p, y.n, &g);
	if (b.size() > 4) REQUIRE(r < 0, "format_b_to_uint accepted %zu octets", b.size());
	else { uint32_t w = 0; for (uint8_t c : b) w = w << 8 | c; REQUIRE(r == 0 && g == w, "format_b_to_uint(%s) = %d, %u", hex(b).c_str(), r, g); }
	if (l <= 4) { uint32_t back = 0; REQUIRE(emv_format_b_to_uint(x.p, l, &back) == 0 && back == (l == 4 ? v : v & ((1u << 8 * l) - 1)), "format b does not convert back for %u in %zu octets", v, l); }
	if (v > 255) s.nontrivial();
}
VH_PROP(C06, text, 300000, 6000000, "ans filtering and hexadecimal rendering into buffers of 1..80 octets; non-trivial: input of two or more octets") {
	Bytes b = s.chance(1, 2) ? s.bytes(s.len(1, 40)) : s.bbytes(s.len(1, 40)); for (auto& c : b) if (s.chance(1, 3)) c = 0x20 + s.draw(95);
	size_t cap = s.len(1, 90); if (s.chance(1, 4)) cap = b.size() + s.draw(3) + (s.chance(1, 2) ? b.size() : 0); if (!cap) cap = 1;
	if (s.want()) s.desc(fmt("%s into %zu octets", hex(b).c_str(), cap));
	std::string nc, an; for (uint8_t c : b) { if ((c >= 0x20 && c <= 0x7E) || c >= 0xA0) nc += (char)c; if (isalnum(c) && c < 128) an += (char)c; else if (c == ' ') an += ' '; }
	auto chk = [&](const char* what, int (*f)(const uint8_t*, size_t, char*, size_t), std::string want) {
		Exact x(b); Exact o(cap); int r = f(x.p, x.n, o.c(), cap); want = want.substr(0, cap - 1);
		REQUIRE(r == 0, "%s failed: %d", what, r);
		REQUIRE(memchr(o.p, 0, cap), "%s(%s, buffer %zu) is not terminated", what, hex(b).c_str(), cap);
		REQUIRE(want == o.c(), "%s(%s, buffer %zu) = \"%s\" expected \"%s\"", what, hex(b).c_str(), cap, o.c(), want.c_str());
	};
	chk("ans_to_non_control", emv_format_ans_to_non_control_str, nc);
	chk("ans_to_alnum_space", emv_format_ans_to_alnum_space_str, an);
	chk("b_to_str", emv_format_b_to_str, hex(b));
	if (b.size() >= 2) s.nontrivial();
}
VH_ENUM(C06, ans_all, 256, "every single octet through both filters") {
	uint8_t c = (uint8_t)s.index; char o[3]; s.nontrivial();
	emv_format_ans_to_non_control_str(&c, 1, o, 3); bool keep = (c >= 0x20 && c <= 0x7E) || c >= 0xA0;
	REQUIRE(keep ? (uint8_t)o[0] == c && !o[1] : !o[0], "non-control filter of %02X", c);
	emv_format_ans_to_alnum_space_str(&c, 1, o, 3); keep = c == ' ' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
	REQUIRE(keep ? (uint8_t)o[0] == c && !o[1] : !o[0], "alnum filter of %02X", c);
}
VH_ENUM(C06, n_two_octets, 65536, "every two octet format n field") {
	uint8_t b[2] = {(uint8_t)(s.index >> 8), (uint8_t)s.index}; uint32_t v = 0; int r = emv_format_n_to_uint(b, 2, &v); s.nontrivial();
	unsigned d[4] = {b[0] / 16u, b[0] % 16u, b[1] / 16u, b[1] % 16u}; bool ok = true; for (unsigned x : d) ok &= x < 10;
	REQUIRE(ok ? r == 0 && v == d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3] : r > 0, "format_n_to_uint(%02X%02X) = %d, %u", b[0], b[1], r, v);
}

// ------------------------------------------------------------------ C07
static const std::set<unsigned> TERM_N = {0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41};
struct DolE { unsigned tag; unsigned len; };
static bool dol_model(const Bytes& b, std::vector<DolE>& out, std::vector<size_t>* ends = nullptr) {
	size_t o = 0;
	while (o < b.size()) { unsigned t; int r = tag(b.data() + o, b.size() - o, &t); if (r <= 0) return false; o += r; if (o >= b.size()) return false; out.push_back({t, b[o++]}); if (ends) ends->push_back(o); }
	return true;
}
static Bytes gen_dol(Src& s, bool large = false) {
	Bytes b; bool big = large && s.chance(1, 100); unsigned n = (unsigned)(big ? s.range(100, 330) : s.range(1, 8)); // sums past 16 bits
	static const unsigned t[] = {0x9F02, 0x9F03, 0x9F1A, 0x95, 0x5F2A, 0x9A, 0x9C, 0x9F37, 0x9F35, 0x9F45, 0x9F4C, 0x9F34, 0x9F15, 0x9F16, 0x9F4E, 0x9F33, 0x9F40, 0x9F66, 0x9F39, 0x9F21, 0x9F41, 0x9F3C, 0x9F3D, 0x5F57, 0x5F36, 0x9F01, 0x9F1E, 0x9F7C, 0xDF8129, 0x4F, 0x5A};
	for (unsigned i = 0; i < n; ++i) { if (s.chance(1, 10)) gen_tag(s, b, s.chance(1, 4)); else put_tag(b, s.pick(t)); b.push_back(big ? (uint8_t)(255 - s.draw(3)) : s.chance(1, 12) ? s.byte() : (uint8_t)s.draw(13)); }
	return b;
}
VH_PROP(C07, decode, 250000, 5000000, "data object lists, well-formed, damaged or noise, iterated and summed; non-trivial: two or more entries") {
	Bytes b = s.chance(1, 5) ? s.bbytes(s.len(1, 20)) : gen_dol(s, true); if (s.chance(1, 3)) corrupt(s, b);
	if (s.want()) s.desc("dol " + hex(b));
	std::vector<DolE> e; std::vector<size_t> ends; bool ok = dol_model(b, e, &ends);
	Exact x(b); struct emv_dol_itr_t it; struct emv_dol_entry_t en;
	REQUIRE(emv_dol_itr_init(x.p, x.n, &it) == 0, "init failed"); size_t o = 0;
	for (size_t i = 0; i < e.size(); ++i) {
		memset(&en, 0xEE, sizeof en); int r = emv_dol_itr_next(&it, &en);
		REQUIRE(r == (int)(ends[i] - o), "dol %s: entry %zu consumed %d", hex(b).c_str(), i, r); o = ends[i];
		REQUIRE(en.tag == e[i].tag && en.length == e[i].len, "dol %s: entry %zu is %X/%u expected %X/%u", hex(b).c_str(), i, en.tag, en.length, e[i].tag, e[i].len);
	}
	int r = emv_dol_itr_next(&it, &en); REQUIRE(ok ? r == 0 : r < 0, "dol %s: %d after the last good entry", hex(b).c_str(), r);
	if (!b.empty()) { int sum = 0; for (auto& q : e) sum += q.len; r = emv_dol_compute_data_length(x.p, x.n); REQUIRE(ok ? r == sum : r < 0, "dol %s: data length %d expected %d", hex(b).c_str(), r, ok ? sum : -1); }
	if (e.size() >= 2) s.nontrivial(); s.label(ok ? "wellformed" : "malformed");
}
VH_PROP(C07, build, 300000, 6000000, "lists filled from one to three sources with short, exact, long, repeated and missing values into buffers around the needed size; non-trivial: at least one entry came from a source") {
	Bytes b = gen_dol(s); if (s.chance(1, 10)) corrupt(s, b); if (b.empty()) b = {0x9A, 3};
	std::vector<DolE> e; bool ok = dol_model(b, e);
	unsigned ns = (unsigned)s.range(1, 3); struct emv_tlv_list_t L[3] = {EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT}; std::vector<Field> m[3];
	for (unsigned i = 0; i < ns; ++i) for (auto& q : e) if (s.chance(1, 2)) {
		Field f{q.tag, s.bytes(s.chance(1, 3) ? q.len : s.chance(1, 8) ? s.len(0, 300) : s.draw(q.len + 5))}; m[i].push_back(f); if (s.chance(1, 6)) { f.value = s.bytes(s.draw(6)); m[i].push_back(f); }
		if (s.chance(1, 6)) m[i].push_back({0xDF01, s.bytes(2)});
	}
	for (unsigned i = 0; i < ns; ++i) for (auto& f : m[i]) { Exact v(f.value); emv_tlv_list_push(&L[i], f.tag, (unsigned)f.value.size(), v.p, 0); }
	size_t total = 0; Bytes want; bool used = false;
	for (auto& q : e) {
		const Field* f = nullptr; for (unsigned i = 0; i < ns && !f; ++i) for (auto& c : m[i]) if (c.tag == q.tag) { f = &c; break; }
		Bytes v(q.len, 0);
		if (f) { used = true; size_t n = std::min<size_t>(q.len, f->value.size()); bool left = TERM_N.count(q.tag); for (size_t k = 0; k < n; ++k) { if (left) v[q.len - 1 - k] = f->value[f->value.size() - 1 - k]; else v[k] = f->value[k]; } s.label(f->value.size() == q.len ? "exact" : f->value.size() < q.len ? (left ? "pad-left" : "pad-right") : (left ? "cut-left" : "cut-right")); }
		add(want, v); total += q.len;
	}
	size_t cap = s.weighted({3, 2, 1, 2}); cap = cap == 0 ? total : cap == 1 ? total + s.draw(5) : cap == 2 ? s.draw(total + 1) : total - std::min<size_t>(total, s.range(1, 3)); if (!cap) cap = 1;
	const struct emv_tlv_list_t* src[3] = {&L[0], &L[1], &L[2]};
	Exact x(b); Exact out(cap); size_t ol = cap;
	int r = emv_dol_build_data(x.p, x.n, src, ns, out.p, &ol);
	if (s.want()) s.desc(fmt("dol %s capacity %zu needed %zu sources %u", hex(b).c_str(), cap, total, ns));
	if (!ok) REQUIRE(r != 0, "dol %s: malformed list filled in", hex(b).c_str());
	else if (cap < total) REQUIRE(r > 0, "dol %s: result %d for %zu octets in a buffer of %zu", hex(b).c_str(), r, total, cap);
	else {
		REQUIRE(r == 0, "dol %s: result %d", hex(b).c_str(), r); REQUIRE(ol == total, "dol %s: data length %zu expected %zu", hex(b).c_str(), ol, total);
		REQUIRE(!memcmp(out.p, want.data(), total), "dol %s: built %s expected %s", hex(b).c_str(), hex(out.p, total).c_str(), hex(want).c_str());
		for (size_t k = total; k < cap; ++k) REQUIRE(out.p[k] == 0xA5, "dol %s: wrote beyond the built data", hex(b).c_str());
		if (used) s.nontrivial();
	}
	for (auto& l : L) emv_tlv_list_clear(&l);
	REQUIRE(alloc_live() == 0, "leak");
}
VH_ENUM(C07, format_n_tags, 65536 + 256, "every one and two octet tag: terminal numeric exactly for the EMV list") { unsigned t = (unsigned)s.index; if (t >= 65536) t = 0x9F0000 + t - 65536; s.nontrivial(); REQUIRE(emv_tlv_is_terminal_format_n(t) == (TERM_N.count(t) != 0), "is_terminal_format_n(%X)", t); }

// ------------------------------------------------------------------ C08
VH_PROP(C08, afl, 300000, 6000000, "AFLs of 0..256 octets of mostly valid entries; non-trivial: at least one entry decoded") {
	Bytes b; unsigned n = (unsigned)(s.chance(1, 12) ? s.range(60, 66) : s.range(0, 8));
	for (unsigned i = 0; i < n; ++i) {
		uint8_t sfi = (uint8_t)s.range(1, 30), f = (uint8_t)s.range(1, s.chance(1, 4) ? 255 : 10), l = (uint8_t)(f + s.draw(std::min(256 - f, s.chance(1, 6) ? 256 : 6))); uint8_t oda = (uint8_t)s.draw(l - f + 2);
		if (s.chance(1, 20)) sfi = s.chance(1, 2) ? 0 : 31; uint8_t b0 = sfi << 3; if (s.chance(1, 20)) b0 |= 1 + s.draw(7);
		if (s.chance(1, 20)) f = 0; if (s.chance(1, 20) && f) l = f - 1; if (s.chance(1, 20)) oda = (uint8_t)std::min(255, l - f + 2); if (s.chance(1, 40)) { f = s.bbyte(); l = s.bbyte(); oda = s.bbyte(); }
		add(b, {b0, f, l, oda});
	}
	if (s.chance(1, 8)) b.resize(b.size() + s.range(1, 3), 8); if (s.chance(1, 10)) b = s.bbytes(s.len(1, 40));
	if (s.want()) s.desc("afl " + hex(b));
	Exact x(b); struct emv_afl_itr_t it; struct emv_afl_entry_t e; int r = emv_afl_itr_init(x.p, x.n, &it);
	if (b.empty()) { REQUIRE(r != 0, "empty AFL accepted"); return; }
	if (b.size() % 4 || b.size() > 252) { REQUIRE(r > 0, "AFL of %zu octets: %d", b.size(), r); s.label("bad size"); return; }
	REQUIRE(r == 0, "AFL %s refused: %d", hex(b).c_str(), r);
	for (size_t o = 0; ; o += 4) {
		memset(&e, 0xEE, sizeof e); r = emv_afl_itr_next(&it, &e);
		if (o == b.size()) { REQUIRE(r == 0, "AFL %s: %d at the end", hex(b).c_str(), r); REQUIRE(emv_afl_itr_next(&it, &e) == 0, "AFL iteration restarted"); break; }
		unsigned sfi = b[o] >> 3, f = b[o + 1], l = b[o + 2], oda = b[o + 3];
		bool ok = !(b[o] & 7) && sfi >= 1 && sfi <= 30 && f && l >= f && oda <= l - f + 1;
		if (!ok) { REQUIRE(r < 0, "AFL %s: invalid entry at %zu accepted (%d)", hex(b).c_str(), o, r); REQUIRE(emv_afl_itr_next(&it, &e) < 0, "AFL %s: iteration continued after an invalid entry", hex(b).c_str()); s.label("bad entry"); break; }
		REQUIRE(r == 4 && e.sfi == sfi && e.first_record == f && e.last_record == l && e.oda_record_count == oda, "AFL %s: entry at %zu gave %d: %u %u %u %u", hex(b).c_str(), o, r, e.sfi, e.first_record, e.last_record, e.oda_record_count);
		s.nontrivial();
	}
}
VH_PROP(C08, cvmlist, 250000, 5000000, "CVM lists of 0..260 octets; non-trivial: accepted with at least two rules") {
	size_t n = s.chance(1, 3) ? s.len(1, 260) : s.chance(1, 8) ? s.range(248, 256) : 8 + 2 * s.draw(10); Bytes b = n > 60 ? Bytes(n) : s.bbytes(n); if (n > 60) for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i * 31 + n);
	if (s.want()) s.desc("cvm list " + hex(b));
	Exact x(b); struct emv_cvmlist_amounts_t am; struct emv_cvmlist_itr_t it; struct emv_cv_rule_t ru; int r = emv_cvmlist_itr_init(x.p, x.n, &am, &it);
	bool ok = n % 2 == 0 && n >= 10 && n <= 252;
	if (!ok) { REQUIRE(n ? r > 0 : r != 0, "CVM list of %zu octets: %d", n, r); s.label("bad size"); return; }
	REQUIRE(r == 0, "CVM list %s refused: %d", hex(b).c_str(), r);
	uint32_t X = 0, Y = 0; for (int i = 0; i < 4; ++i) { X = X << 8 | b[i]; Y = Y << 8 | b[4 + i]; }
	REQUIRE(am.X == X && am.Y == Y, "CVM list %s: amounts %u %u", hex(b).c_str(), am.X, am.Y);
	for (size_t o = 8; o < n; o += 2) { r = emv_cvmlist_itr_next(&it, &ru); REQUIRE(r == 2 && ru.cvm == b[o] && ru.cvm_cond == b[o + 1], "CVM list %s: rule at %zu gave %d %02X%02X", hex(b).c_str(), o, r, ru.cvm, ru.cvm_cond); }
	REQUIRE(emv_cvmlist_itr_next(&it, &ru) == 0 && emv_cvmlist_itr_next(&it, &ru) == 0, "CVM list %s: iteration does not end", hex(b).c_str());
	if (n >= 12) s.nontrivial();
}
VH_ENUM(C08, afl_sfi_all, 256 * 16 * 16, "every first octet with 16x16 record ranges") {
	static const uint8_t v[] = {0, 1, 2, 3, 4, 9, 10, 11, 30, 31, 127, 128, 200, 253, 254, 255};
	uint8_t b0 = (uint8_t)(s.index >> 8), f = v[(s.index >> 4) & 15], l = v[s.index & 15]; s.nontrivial();
	for (unsigned oda : {0u, 1u, (unsigned)(uint8_t)(l - f), (unsigned)(uint8_t)(l - f + 1), (unsigned)(uint8_t)(l - f + 2), 255u}) {
		Bytes b = {b0, f, l, (uint8_t)oda}; Exact x(b); struct emv_afl_itr_t it; struct emv_afl_entry_t e; REQUIRE(emv_afl_itr_init(x.p, 4, &it) == 0, "init"); int r = emv_afl_itr_next(&it, &e);
		bool ok = !(b0 & 7) && b0 >> 3 >= 1 && b0 >> 3 <= 30 && f && l >= f && oda <= (unsigned)(l - f + 1);
		REQUIRE(ok ? r == 4 && e.sfi == b0 >> 3 && e.first_record == f && e.last_record == l && e.oda_record_count == oda : r < 0, "AFL entry %s gave %d", hex(b).c_str(), r);
	}
}

// ------------------------------------------------------------------ C09
struct AidRow { const char* pre; int scheme; int product; bool pix; };
static const AidRow AIDS[] = {
	{"A0000000031010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT}, {"A0000000032010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_ELECTRON}, {"A0000000032020", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_VPAY}, {"A0000000038010", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_PLUS}, {"A000000003", EMV_CARD_SCHEME_VISA, 0}, {"A000000098", EMV_CARD_SCHEME_VISA, EMV_CARD_PRODUCT_VISA_USA_DEBIT},
	{"A0000000041010", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT}, {"A0000000043060", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO}, {"A0000000046000", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_CIRRUS}, {"A0000000042203", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT}, {"A000000004", EMV_CARD_SCHEME_MASTERCARD, 0}, {"A000000005", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK}, {"B012345678", EMV_CARD_SCHEME_MASTERCARD, EMV_CARD_PRODUCT_MASTERCARD_TEST},
	{"A000000025", EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT}, {"A000000790", EMV_CARD_SCHEME_AMEX, EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT},
	{"A0000001523010", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_CARD}, {"A0000001524010", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT}, {"A000000152", EMV_CARD_SCHEME_DISCOVER, 0}, {"A000000324", EMV_CARD_SCHEME_DISCOVER, EMV_CARD_PRODUCT_DISCOVER_ZIP},
	{"A0000000421010", EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_CREDIT_DEBIT}, {"A0000000422010", EMV_CARD_SCHEME_CB, EMV_CARD_PRODUCT_CB_DEBIT}, {"A000000042", EMV_CARD_SCHEME_CB, 0},
	{"A000000065", EMV_CARD_SCHEME_JCB, 0},
	{"A0000001214711", EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_VISADANKORT}, {"A0000001214712", EMV_CARD_SCHEME_DANKORT, EMV_CARD_PRODUCT_DANKORT_JSPEEDY}, {"A000000121", EMV_CARD_SCHEME_DANKORT, 0},
	{"A000000333010101", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_DEBIT}, {"A000000333010102", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_CREDIT}, {"A000000333010103", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT}, {"A000000333010106", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH}, {"A000000333010108", EMV_CARD_SCHEME_UNIONPAY, EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT}, {"A000000333", EMV_CARD_SCHEME_UNIONPAY, 0},
	{"A000000337101000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_STANDARD}, {"A000000337101001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE}, {"A000000337102000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC}, {"A000000337102001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE}, {"A000000337301000", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT}, {"A000000337601001", EMV_CARD_SCHEME_GIMUEMOA, EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET}, {"A000000337", EMV_CARD_SCHEME_GIMUEMOA, 0},
	{"A0000003591010028001", EMV_CARD_SCHEME_DK, EMV_CARD_PRODUCT_DK_GIROCARD},
	{"A000000371", EMV_CARD_SCHEME_VERVE, 0},
	{"A00000038410", EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_SAVINGS}, {"A00000038420", EMV_CARD_SCHEME_EFTPOS, EMV_CARD_PRODUCT_EFTPOS_CHEQUE}, {"A000000384", EMV_CARD_SCHEME_EFTPOS, 0},
	{"A000000524", EMV_CARD_SCHEME_RUPAY, 0},
	{"A0000006581010", EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_CREDIT}, {"A0000006582010", EMV_CARD_SCHEME_MIR, EMV_CARD_PRODUCT_MIR_DEBIT}, {"A000000658", EMV_CARD_SCHEME_MIR, 0},
	{"A000000732", EMV_CARD_SCHEME_MEEZA, 0},
};
static const size_t NAID = sizeof AIDS / sizeof *AIDS;
static void check_aid(const Bytes& a, Src& s) {
	int scheme = 0, product = 0; size_t best = 0;
	if (a.size() >= 5 && a.size() <= 16) for (auto& r : AIDS) { Bytes p = unhex(r.pre); if (a.size() >= p.size() && std::equal(p.begin(), p.end(), a.begin()) && p.size() > best) { best = p.size(); scheme = r.scheme; product = r.product; } }
	Exact x(a); struct emv_aid_info_t info; memset(&info, 0xEE, sizeof info);
	int r = emv_aid_get_info(x.p, x.n, &info);
	if (a.empty()) { REQUIRE(r < 0, "empty AID gave %d", r); return; }
	if (a.size() < 5 || a.size() > 16) { REQUIRE(r > 0, "AID of %zu octets gave %d", a.size(), r); s.label("bad length"); return; }
	if (!best) { REQUIRE(r != 0, "unregistered AID %s recognised as scheme %d", hex(a).c_str(), info.scheme); REQUIRE(info.scheme == EMV_CARD_SCHEME_UNKNOWN && info.product == EMV_CARD_PRODUCT_UNKNOWN, "unregistered AID %s left scheme %d", hex(a).c_str(), info.scheme); s.label("unknown"); return; }
	REQUIRE(r == 0, "AID %s gave %d", hex(a).c_str(), r);
	REQUIRE((int)info.scheme == scheme && (int)info.product == product, "AID %s gave scheme %d product %d expected %d %d", hex(a).c_str(), info.scheme, info.product, scheme, product); s.nontrivial(); if (product) s.label("product"); else s.label("scheme only");
}
VH_PROP(C09, aid, 300000, 5000000, "registered identifiers with cut, altered and extended tails; non-trivial: a scheme was expected and compared") {
	Bytes a = unhex(AIDS[s.draw(NAID)].pre);
	switch (s.draw(6)) { case 0: break; case 1: a.resize(s.draw(a.size() + 1)); break; case 2: a[s.draw(a.size())] ^= 1 << s.draw(8); break; case 3: { Bytes p = unhex(AIDS[s.draw(NAID)].pre); for (size_t i = 5; i < p.size() && i < 16; ++i) { if (i < a.size()) a[i] = p[i]; else a.push_back(p[i]); } break; } case 4: a = s.bbytes(s.len(0, 20)); break; default: a.resize(5); break; }
	if (s.chance(1, 2)) add(a, s.bbytes(s.len(0, 12)));
	if (s.want()) s.desc("aid " + hex(a)); check_aid(a, s);
}
VH_ENUM(C09, aid_rows, NAID * (18 + 256), "every registered identifier cut and extended to every length 0..17, and with every value of its last octet") {
	size_t row = s.index / 274, k = s.index % 274; Bytes a = unhex(AIDS[row].pre); if (k < 18) a.resize(k, 0x11); else a.back() = (uint8_t)(k - 18); check_aid(a, s); s.nontrivial();
}
VH_ENUM(C09, aid_pix, 65536 * 17, "every two octet extension of every registered provider") {
	static const char* rid[] = {"A000000003", "A000000098", "A000000004", "A000000005", "A000000025", "A000000790", "A000000152", "A000000324", "A000000042", "A000000065", "A000000121", "A000000333", "A000000337", "A000000371", "A000000384", "A000000658", "A000000732"};
	Bytes a = unhex(rid[s.index >> 16]); a.push_back((uint8_t)(s.index >> 8)); a.push_back((uint8_t)s.index); check_aid(a, s);
}
static int iad_model(const Bytes& a) {
	size_t n = a.size(); if (!n) return EMV_IAD_FORMAT_INVALID;
	if (n == 32 && a[0] == 0x0F && a[16] == 0x0F && (a[1] == 0xA5 || a[1] == 0xA6)) return EMV_IAD_FORMAT_CCD;
	// M/Chip cryptogram version number 0001 0SSC (bit 2 of the session key field unused)
	if (n >= 18 && (a[1] & 0xF0) == 0x10 && !(a[1] & 0x08) && !(a[1] & 0x02)) { if (n == 18) return EMV_IAD_FORMAT_MCHIP4; if (n == 20 || n == 26 || n == 28) return EMV_IAD_FORMAT_MCHIP_ADVANCE; }
	if (n >= 7 && a[0] == 0x06 && a[3] == 0x03) { switch (a[2] >> 4) { case 0: return EMV_IAD_FORMAT_VSDC_0; case 1: return EMV_IAD_FORMAT_VSDC_1; case 3: return EMV_IAD_FORMAT_VSDC_3; default: return EMV_IAD_FORMAT_INVALID; } }
	if (n == 32 && a[0] == 0x1F && !(a[8] & 0xF0)) { switch (a[1] >> 4) { case 2: return EMV_IAD_FORMAT_VSDC_2; case 4: return EMV_IAD_FORMAT_VSDC_4; default: return EMV_IAD_FORMAT_INVALID; } }
	return EMV_IAD_FORMAT_UNKNOWN;
}
VH_PROP(C09, iad, 400000, 8000000, "issuer application data of 0..40 octets around each format's marker bytes; non-trivial: a known format is expected") {
	static const size_t ls[] = {7, 18, 20, 26, 28, 32}; size_t n = s.chance(1, 4) ? s.draw(41) : s.pick(ls); if (s.chance(1, 5)) n += s.draw(3) - (n ? 1 : 0);
	Bytes a = s.bbytes(n);
	auto set = [&](size_t i, uint8_t v) { if (i < a.size() && !s.chance(1, 12)) a[i] = v; };
	switch (s.draw(4)) {
		case 0: set(0, 0x0F); set(1, s.pickl<uint8_t>({0xA5, 0xA6, 0xA4, 0xB5, 0xAA, 0x55})); set(16, 0x0F); if (s.chance(1, 2)) { set(1, 0xA5 + s.draw(2)); } break;
		case 1: set(1, 0x10 | (s.chance(1, 2) ? (s.draw(2) | s.draw(2) << 2) : s.draw(16))); break;
		case 2: set(0, 6); set(2, s.byte()); set(3, 3); break;
		default: set(0, 0x1F); set(1, (uint8_t)(s.draw(6) << 4 | s.draw(16))); set(8, s.draw(16)); break;
	}
	if (s.want()) s.desc("iad " + hex(a));
	Exact x(a); int g = emv_iad_get_format(x.p, x.n), w = iad_model(a);
	if (a.size() > 32) return; // only memory safety beyond the permitted length
	REQUIRE(g == w, "IAD %s is format %d expected %d", hex(a).c_str(), g, w);
	if (w != EMV_IAD_FORMAT_UNKNOWN && w != EMV_IAD_FORMAT_INVALID) s.nontrivial(); s.label(fmt("format %d", w).c_str());
}

// ------------------------------------------------------------------ C10 / C11
static void check_atr(const Bytes& a, Src& s) {
	Atr m = atr_model(a);
	if (!m.judged) s.label("unjudged repeat");
	Exact x(a); Exact inf(sizeof(struct iso7816_atr_info_t), 0xC3); auto* i = (struct iso7816_atr_info_t*)inf.p;
	int r = iso7816_atr_parse(x.p, x.n, i);
	if (!m.judged) return;
	if (!m.ok) { REQUIRE(r > 0, "ATR %s gave %d although it is not valid", hex(a).c_str(), r); s.label("refused"); return; }
	REQUIRE(r == 0, "ATR %s refused with %d", hex(a).c_str(), r);
	s.nontrivial(); s.label("accepted");
	const std::string h = hex(a); const char* hs = h.c_str();
#define EQ(what, got, want) REQUIRE((got) == (want), "ATR %s: " what " is %lld expected %lld", hs, (long long)(got), (long long)(want))
	EQ("length", i->atr_len, a.size()); REQUIRE(!memcmp(i->atr, a.data(), a.size()), "ATR %s: copy differs", hs);
	EQ("TS", i->TS, a[0]); EQ("T0", i->T0, a[1]); EQ("K", i->K_count, m.K);
	for (int k = 1; k < 5; ++k) {
		auto one = [&](const char* n, const uint8_t* p, int v, size_t pos) { if (v < 0) REQUIRE(!p, "ATR %s: %s%d reported although absent", hs, n, k); else { REQUIRE(p, "ATR %s: %s%d missing", hs, n, k); REQUIRE(p == &i->atr[pos] && *p == v, "ATR %s: %s%d is %02X expected %02X", hs, n, k, *p, v); } };
		one("TA", i->TA[k], m.TA[k], m.pA[k]); one("TB", i->TB[k], m.TB[k], m.pB[k]); one("TC", i->TC[k], m.TC[k], m.pC[k]); one("TD", i->TD[k], m.TD[k], m.pD[k]);
	}
	if (m.K) { EQ("T1", i->T1, m.T1); if (m.histlen) REQUIRE(i->historical_bytes == i->atr + m.hist, "ATR %s: historical bytes misplaced", hs); EQ("historical length", i->historical_bytes_len, m.histlen); }
	else { REQUIRE(!i->historical_bytes && !i->historical_bytes_len, "ATR %s: historical bytes reported although absent", hs); }
	if (m.si_judged) {
		if (m.has_si) { REQUIRE(i->status_indicator_bytes == i->atr + m.si && i->status_indicator_bytes_len == m.silen, "ATR %s: status indicator misplaced", hs); }
		else REQUIRE(!i->status_indicator_bytes, "ATR %s: status indicator reported although absent", hs);
		unsigned lcs = 0, s1 = 0, s2 = 0; const uint8_t* q = m.b + m.si; if (m.has_si) { if (m.silen == 1) lcs = q[0]; if (m.silen == 2) { s1 = q[0]; s2 = q[1]; } if (m.silen == 3) { lcs = q[0]; s1 = q[1]; s2 = q[2]; } }
		EQ("LCS", i->status_indicator.LCS, lcs); EQ("SW1", i->status_indicator.SW1, s1); EQ("SW2", i->status_indicator.SW2, s2);
	}
	if (m.tck) { EQ("TCK", i->TCK, m.TCK); s.label("tck"); }
	EQ("Di", i->global.Di, m.Di); EQ("Fi", i->global.Fi, m.Fi); REQUIRE(i->global.fmax == m.fmax, "ATR %s: fmax %f", hs, i->global.fmax);
	EQ("Vpp_connected", i->global.Vpp_connected, m.vpp); if (m.vpp) { EQ("Vpp", i->global.Vpp, m.Vpp); EQ("Ipp", i->global.Ipp, m.Ipp); }
	EQ("N", i->global.N, m.N); EQ("GT", i->global.GT, m.N == 255 ? (m.proto == 0 ? 12u : 11u) : 12 + m.N); EQ("CGT", i->protocol_T1.CGT, m.N == 255 ? 11u : 12 + m.N);
	EQ("protocol", i->global.protocol, m.proto); EQ("specific mode", i->global.specific_mode, m.spec); if (m.spec) { EQ("specific protocol", i->global.specific_mode_protocol, m.spec_proto); EQ("implicit", i->global.etu_is_implicit, m.implicit); EQ("may change", i->global.specific_mode_may_change, m.may); }
	EQ("classes", i->global.card_classes, m.classes); EQ("clock stop", i->global.clock_stop, m.clk); EQ("spu", i->global.spu, m.spu);
	EQ("WI", i->protocol_T0.WI, m.WI); EQ("WT", i->protocol_T0.WT, m.WI * 960 * m.Di);
	EQ("IFSI", i->protocol_T1.IFSI, m.IFSI); EQ("CWI", i->protocol_T1.CWI, m.CWI); EQ("CWT", i->protocol_T1.CWT, 11 + (1u << m.CWI)); EQ("BWI", i->protocol_T1.BWI, m.BWI);
	EQ("BWT", i->protocol_T1.BWT, (unsigned)(11 + ((uint64_t)(1u << m.BWI) * 960 * 372 * m.Di) / m.Fi)); EQ("error detection", (int)i->protocol_T1.error_detection_code, (int)m.crc);
}
VH_PROP(C10, atr, 500000, 12000000, "generated ATRs with up to four interface byte levels, historical bytes in all categories, damaged at times; non-trivial: accepted and every reported value compared") { Bytes a = gen_atr(s, s.chance(1, 4)); if (s.want()) s.desc("atr " + hex(a)); check_atr(a, s); }
VH_PROP(C10, noise, 150000, 3000000, "short strings starting like an ATR; non-trivial: accepted") { Bytes a = s.bytes(s.len(0, 36)); if (!a.empty() && !s.chance(1, 10)) a[0] = s.chance(1, 2) ? 0x3B : 0x3F; if (s.want()) s.desc("atr " + hex(a)); check_atr(a, s); }
VH_ENUM(C10, prefixes, 4096, "all prefixes of generated ATRs: index selects a fixed pseudo-random ATR") { Bytes a = gen_atr(s, false); for (size_t n = 0; n <= a.size(); ++n) check_atr(Bytes(a.begin(), a.begin() + n), s); s.nontrivial(); }
VH_ENUM(C10, one_byte, 256 * 9, "every value of each interface byte position on its own") {
	unsigned v = s.index & 255, k = (unsigned)(s.index >> 8); Bytes a; s.nontrivial();
	switch (k) { case 0: a = {0x3B, 0x10, (uint8_t)v}; break; case 1: a = {0x3B, 0x20, (uint8_t)v}; break; case 2: a = {0x3B, 0x40, (uint8_t)v}; break; case 3: a = {0x3B, 0x80, 0x10, (uint8_t)v}; break; case 4: a = {0x3B, 0x80, 0x20, (uint8_t)v}; break; case 5: a = {0x3B, 0x80, 0x40, (uint8_t)v}; break;
		case 6: a = {0x3B, 0x80, 0x81, 0x11, (uint8_t)v}; break; case 7: a = {0x3B, 0x80, 0x81, 0x21, (uint8_t)v}; break; default: a = {0x3B, 0x80, 0x80, 0x1F, (uint8_t)v}; break; }
	if (k >= 6) { uint8_t x = 0; for (size_t i = 1; i < a.size(); ++i) x ^= a[i]; a.push_back(x); }
	check_atr(a, s);
}
static bool emv_atr_model(const Atr& m) {
	if (!m.ok) return false;
	if (m.TA[1] >= 0) { if (m.TA[2] >= 0) { if (!(m.TA[2] & 0x10) && (m.TA[1] < 0x11 || m.TA[1] > 0x13)) return false; } else if (m.TA[1] >> 4 == 0 || (m.TA[1] & 15) < 3) return false; }
	if (m.TC[1] >= 0 && m.TC[1] != 0 && m.TC[1] != 255) return false;
	unsigned t1 = m.TD[1] < 0 ? 0 : m.TD[1] & 15; if (t1 > 1) return false;
	if (m.TA[2] >= 0) { if ((unsigned)(m.TA[2] & 15) != t1) return false; if (m.TA[2] & 0x10) return false; }
	if (m.TC[2] >= 0) { if (t1 != 0) return false; if (m.TC[2] != 10) return false; }
	unsigned t2 = m.TD[2] < 0 ? 0 : m.TD[2] & 15;
	if (m.TD[2] >= 0) { if (t1 == 0 && t2 != 15) return false; if (t1 == 1 && t2 != 1) return false; } else if (t1 == 1) return false;
	if (t1 == 1) {
		if (m.TA[3] >= 0 && m.TA[3] < 0x10) return false;
		if (m.TB[3] < 0) return false; if (m.TB[3] >> 4 > 4 || (m.TB[3] & 15) > 5) return false;
		if (m.TC[3] > 0) return false;
	}
	return true;
}
static void check_emv_atr(const Bytes& a, Src& s) {
	Atr m = atr_model(a); Exact x(a); int r = emv_atr_parse(x.p, x.n);
	if (a.empty()) { REQUIRE(r == EMV_ERROR_INVALID_PARAMETER, "empty ATR gave %d", r); return; }
	if (!m.judged) return;
	bool w = emv_atr_model(m);
	REQUIRE(w ? r == 0 : r == EMV_OUTCOME_CARD_ERROR, "EMV ATR %s gave %d expected %s", hex(a).c_str(), r, w ? "acceptance" : "card error");
	if (m.ok) s.nontrivial(); s.label(w ? "accepted" : m.ok ? "emv refused" : "iso refused");
}
VH_PROP(C11, atr, 600000, 12000000, "ATRs generated close to the EMV rules; non-trivial: valid by ISO 7816-3, so that the EMV rules decide") { Bytes a = gen_atr(s, !s.chance(1, 6)); if (s.want()) s.desc("atr " + hex(a)); check_emv_atr(a, s); }
VH_ENUM(C11, one_byte, 256 * 12, "every value of each interface byte of otherwise acceptable T=0 and T=1 ATRs") {
	unsigned v = s.index & 255, k = (unsigned)(s.index >> 8); uint8_t b = (uint8_t)v; Bytes a; s.nontrivial();
	switch (k) {
		case 0: a = {0x3B, 0x10, b}; break; case 1: a = {0x3B, 0x90, b, 0x10, 0x00}; break; case 2: a = {0x3B, 0x60, 0, b}; break; case 3: a = {0x3B, 0x80, 0x10, b}; break; case 4: a = {0x3B, 0x80, 0x40, b}; break; case 5: a = {0x3B, 0x80, 0x80, b, 1, 0, 0}; a.resize(4 + __builtin_popcount(b >> 4 & 7)); break;
		case 6: a = {0x3B, 0x80, 0x81, 0x31, b, 0x45}; break; case 7: a = {0x3B, 0x80, 0x81, 0x31, 0x20, b}; break; case 8: a = {0x3B, 0x80, 0x81, 0x71, 0x20, 0x45, b}; break; case 9: a = {0x3B, 0x80, 0xC1, b, 0x21, 0x45}; break; case 10: a = {0x3B, 0x80, 0x91, b, 0x21, 0x45}; break;
		default: a = {0x3B, 0xE0, 0, b, 0x81, 0x21, 0x45}; break; }
	bool need = false; { Atr m; } uint8_t x = 0; for (size_t i = 1; i < a.size(); ++i) x ^= a[i]; need = k >= 5; if (need) a.push_back(x);
	check_emv_atr(a, s);
}
VH_ENUM(C11, parameters, 2, "missing parameters") { uint8_t b[2] = {0x3B, 0}; s.nontrivial(); if (s.index) REQUIRE(emv_atr_parse(nullptr, 2) == EMV_ERROR_INVALID_PARAMETER, "NULL"); else REQUIRE(emv_atr_parse(b, 0) == EMV_ERROR_INVALID_PARAMETER, "zero length"); }

// ------------------------------------------------------------------ C12
static int case_model(const Bytes& c) {
	size_t n = c.size(); if (n < 4) return -1; if (n == 4) return vh_case_values[0]; if (n == 5) return vh_case_values[1];
	if (c[4]) { if (n == 5u + c[4]) return vh_case_values[3]; if (n == 6u + c[4]) return vh_case_values[5]; return -1; }
	if (n == 7) return vh_case_values[2]; if (n < 7) return -1;
	unsigned l = c[5] << 8 | c[6]; if (!l) return -1; if (n == 7u + l) return vh_case_values[4]; if (n == 9u + l) return vh_case_values[6]; return -1;
}
static void check_case(const Bytes& c, Src& s) { Exact x(c); int w = case_model(c), g = vh_apdu_case(x.p, x.n); REQUIRE(w < 0 ? g < 0 : g == w, "command %s of %zu octets is case %d expected %d", hex(c).substr(0, 30).c_str(), c.size(), g, w); if (w >= 0) s.nontrivial(); s.label(fmt("case %d", w).c_str()); }
VH_PROP(C12, apdu_case, 300000, 5000000, "commands of every case, short and extended, and neighbours off by a few octets; non-trivial: a valid case") {
	Bytes c = s.bbytes(4);
	switch (s.draw(7)) { case 0: break; case 1: c.push_back(s.bbyte()); break; case 2: { uint8_t l = (uint8_t)s.len(1, 255); c.push_back(l); c.resize(5 + l, 0x11); break; } case 3: { uint8_t l = (uint8_t)s.len(1, 255); c.push_back(l); c.resize(6 + l, 0x22); break; }
		case 4: c.push_back(0); add(c, s.bbytes(2)); break; case 5: case 6: { unsigned l = (unsigned)(s.chance(1, 4) ? s.range(256, 3000) : s.len(1, 300)); c.push_back(0); c.push_back(l >> 8); c.push_back(l); size_t tot = (s.chance(1, 2) ? 7 : 9) + l; while (c.size() < tot) c.push_back(c.size() < 16 ? s.bbyte() : 0x33); break; } }
	if (s.chance(1, 4)) { size_t n = c.size() + s.draw(7); n = n > 3 ? n - 3 : 0; c.resize(n, s.bbyte()); }
	if (s.want()) s.desc(hex(c).substr(0, 60)); check_case(c, s);
}
VH_ENUM(C12, case_grid, 300 * 256, "every total length 0..299 with every value of C5") { Bytes c(s.index % 300, 1); uint8_t v = (uint8_t)(s.index / 300); if (c.size() > 4) c[4] = v; if (c.size() > 6 && s.index & 1) { size_t l = c.size() - 7; c[5] = l >> 8; c[6] = (uint8_t)l; } check_case(c, s); s.nontrivial(); }
VH_ENUM(C12, sw_all, 65536, "every status word") {
	uint8_t a = (uint8_t)(s.index >> 8), b = (uint8_t)s.index; s.nontrivial(); bool su = a == 0x90 && b == 0, no = su || a == 0x61, wa = a == 0x62 || a == 0x63;
	REQUIRE(vh_sw_success(a, b) == su && vh_sw_normal(a, b) == no && vh_sw_warning(a, b) == wa && vh_sw_error(a, b) == (!no && !wa), "status word %02X%02X misclassified", a, b);
}
