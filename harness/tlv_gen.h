// Generators of EMV TLV, DOL and ASN.1 data with plausible values, shared by the decode tool and viewer checks.
#ifndef TLV_GEN_H
#define TLV_GEN_H
#include "vh.h"
#include "model.h"
#include "emv_tags.inc"
extern "C" {
#include "emv_tlv.h"
#include "emv_strings.h"
}
using namespace vh; using namespace model;

struct Info { const char* name; enum emv_format_t format; std::string text; };
static Info info_of(unsigned tag, const uint8_t* v, size_t n, bool value) {
	struct emv_tlv_t t; memset(&t, 0, sizeof t); struct emv_tlv_info_t i; char str[2048]; str[0] = 0;
	t.tag = tag; t.length = (unsigned)n; t.value = (uint8_t*)v;
	emv_tlv_get_info(&t, &i, value ? str : nullptr, value ? sizeof str : 0);
	return {i.tag_name, i.format, str};
}
static Bytes text_bytes(Src& s, size_t n) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back((uint8_t)s.range(0x20, 0x7E)); return b; }
static Bytes bcd_bytes(Src& s, size_t n) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back((uint8_t)(s.draw(10) << 4 | s.draw(10))); return b; }
static Bytes gen_dol(Src& s) { Bytes b; unsigned n = (unsigned)s.draw(6); for (unsigned i = 0; i < n; ++i) { put_tag(b, s.chance(2, 3) ? s.pick(EMV_TAGS) : (unsigned)s.pickl<uint64_t>({0xDF01, 0x9F8101, 0x5F, 0xC1})); b.push_back(s.chance(2, 3) ? (uint8_t)s.draw(9) : s.byte()); } if (s.chance(1, 5)) corrupt(s, b); return b; }
static Bytes gen_taglist(Src& s) { Bytes b; unsigned n = (unsigned)s.draw(6); for (unsigned i = 0; i < n; ++i) put_tag(b, s.chance(2, 3) ? s.pick(EMV_TAGS) : (unsigned)s.pickl<uint64_t>({0xDF01, 0x9F8101, 0x42, 0xC1})); if (s.chance(1, 5)) corrupt(s, b); return b; }
static Bytes gen_value(Src& s, unsigned tag) {
	if ((tag == 0x8C || tag == 0x8D || tag == 0x97 || tag == 0x9F38 || tag == 0x9F49) && s.chance(3, 4)) return gen_dol(s);
	if (tag == 0x5C && s.chance(3, 4)) return gen_taglist(s);
	static const std::map<unsigned, size_t> L = {{0x95, 5}, {0x9B, 2}, {0x82, 2}, {0x9F33, 3}, {0x9F35, 1}, {0x9F40, 5}, {0x9F34, 3}, {0x9F27, 1}, {0x9F07, 2}, {0x9F66, 4}, {0x9F6C, 2}, {0x9F6E, 4}, {0x9F6D, 1}, {0x9F1D, 8}, {0x9A, 3}, {0x9F21, 3}, {0x5F2A, 2}, {0x9F1A, 2}, {0x5F28, 2}, {0x9C, 1}, {0x9F39, 1}, {0x8A, 2}, {0x5F57, 1}, {0x9F02, 6}, {0x9F15, 2}, {0x5F2D, 4}, {0x94, 8}, {0x8E, 14}, {0x57, 13}, {0x9F10, 32}};
	auto i = L.find(tag); size_t n = i != L.end() && s.chance(4, 5) ? i->second : s.len(0, 34);
	switch (s.weighted({3, 3, 2, 2})) { case 0: return s.bytes(n); case 1: return text_bytes(s, n); case 2: return bcd_bytes(s, n); default: return s.bbytes(n); }
}
static void gen_emv(Src& s, Bytes& b, int depth, size_t budget) {
	static const unsigned cons[] = {0x61, 0x6F, 0x70, 0x77, 0xA5, 0x73, 0xBF0C, 0x71, 0x72, 0xE1};
	unsigned n = (unsigned)s.range(depth ? 0 : 1, 4);
	for (unsigned i = 0; i < n && b.size() < budget; ++i) {
		if (depth < 6 && s.chance(1, 3)) {
			Bytes in; gen_emv(s, in, depth + 1, budget / 2); put_tag(b, s.pick(cons));
			if (s.chance(1, 6)) { b.push_back(0x80); add(b, in); b.push_back(0); b.push_back(0); } else { gen_len(s, b, in.size()); add(b, in); }
		} else { unsigned t = s.pick(EMV_TAGS); uint8_t f = t > 0xFFFF ? t >> 16 : t > 0xFF ? t >> 8 : t; Bytes v; if (f & 0x20) gen_emv(s, v, depth + 3, 60); else v = gen_value(s, t); put_tag(b, t); gen_len(s, b, v.size()); add(b, v); }
	}
}
static void gen_asn1(Src& s, Bytes& b, int depth) {
	unsigned n = (unsigned)s.range(1, 4);
	for (unsigned i = 0; i < n; ++i) {
		if (depth < 5 && s.chance(1, 4)) { Bytes in; gen_asn1(s, in, depth + 1); b.push_back(s.chance(1, 2) ? 0x30 : 0x31); gen_len(s, b, in.size()); add(b, in); continue; }
		static const uint8_t T[] = {12, 19, 22, 23, 24, 6, 6, 6, 2, 4, 30, 26, 7, 18, 13}; uint8_t t = s.pick(T); Bytes v;
		if (t == 6) { unsigned k = (unsigned)s.range(1, 11); for (unsigned j = 0; j < k; ++j) { uint64_t a = s.chance(1, 3) ? s.u32() : s.draw(300); if (s.chance(1, 25)) a = (1ull << 32) + s.draw(100); Bytes x; do { x.insert(x.begin(), (uint8_t)((a & 0x7F) | (x.empty() ? 0 : 0x80))); a >>= 7; } while (a); add(v, x); } if (s.chance(1, 12)) v.push_back(0x81); }
		else { size_t l = s.chance(1, 60) ? (size_t)s.range(1020, 1027) : s.len(0, 30); v = s.chance(3, 4) ? text_bytes(s, l) : s.bbytes(l); }
		b.push_back(t); gen_len(s, b, v.size()); add(b, v);
	}
}
// data aligned to a cipher block by trailing bytes that are not TLV data
static Bytes gen_tlv_input(Src& s, bool emv) {
	Bytes b; size_t budget = s.chance(1, 10) ? 800 : 150;
	switch (s.weighted({4, 3, 1})) { case 0: if (emv) gen_emv(s, b, 0, budget); else gen_asn1(s, b, 0); break; case 1: gen_data(s, b, 0, budget); break; default: b = s.bbytes(s.len(0, 40)); }
	switch (s.weighted({4, 4, 2})) {
		case 0: break;
		case 1: { size_t bs = s.chance(1, 2) ? 8 : 16, k = (bs - b.size() % bs) % bs; if (s.chance(1, 6)) k += s.range(1, bs); uint8_t f = s.pickl<uint8_t>({0x00, 0x80, 0xFF, 0x01, 0x5F, 0x1F}); for (size_t i = 0; i < k; ++i) b.push_back(i ? s.pickl<uint8_t>({0, 0, 0, 0xFF, 0x80}) : s.chance(1, 4) ? (uint8_t)k : f); break; }
		default: corrupt(s, b);
	}
	if (s.chance(1, 6)) { // padding inside a template
		Bytes o; put_tag(o, emv ? (unsigned)s.pickl<uint64_t>({0x70, 0x77, 0x6F}) : 0x30u); gen_len(s, o, b.size()); add(o, b); b = o; if (s.chance(1, 3)) while (b.size() % 8) b.push_back(0xFF);
	}
	return b;
}

#endif
