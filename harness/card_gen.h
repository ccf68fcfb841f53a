// Generators of card contents shared by the session properties
#ifndef CARD_GEN_H
#define CARD_GEN_H
#include "card.h"
using namespace vh; using namespace model; using namespace card;
static const unsigned DOLT[] = {0x9F02, 0x9F03, 0x9F1A, 0x95, 0x5F2A, 0x9A, 0x9C, 0x9F37, 0x9F35, 0x9F45, 0x9F34, 0x9F15, 0x9F16, 0x9F4E, 0x9F33, 0x9F40, 0x9F66, 0x9F39, 0x9F21, 0x9F41, 0x9F06, 0x9B, 0x9F01, 0x9F1E, 0xDF8129};
static Bytes gen_pdol(Src& s) {
	Bytes b; unsigned n = (unsigned)s.range(1, s.chance(1, 6) ? 20 : 6); bool big = s.chance(1, 5);
	for (unsigned i = 0; i < n; ++i) { put_tag(b, s.pick(DOLT)); b.push_back(big ? (uint8_t)s.draw(70) : (uint8_t)s.draw(9)); }
	if (s.chance(1, 6)) { b.clear(); unsigned tot = (unsigned)s.pickl<unsigned>({127, 128, 126, 129, 250, 251, 252, 253, 254, 255, 256, 300}); while (tot) { unsigned l = std::min(tot, (unsigned)s.range(1, 255)); put_tag(b, s.pick(DOLT)); b.push_back((uint8_t)l); tot -= l; if (b.size() > 100) break; } }
	return b;
}
static std::vector<Field> gen_source(Src& s) { std::vector<Field> v; unsigned n = (unsigned)s.draw(8); for (unsigned i = 0; i < n; ++i) { Field f{s.pick(DOLT), s.bytes(s.draw(9))}; v.push_back(f); } return v; }
static Ans gen_gpo(Src& s, bool& trailing) {
	Ans a; trailing = false; Bytes aip = {0x18, 0x00}, afl; unsigned n = (unsigned)(s.chance(1, 10) ? s.draw(40) : s.range(1, 4)); for (unsigned i = 0; i < n; ++i) add(afl, {(uint8_t)(s.range(1, 30) << 3), 1, 1, 0}); if (s.chance(1, 12)) afl.resize(afl.size() + s.range(1, 3));
	switch (s.weighted({4, 5, 1, 1})) {
		case 0: a.data = tlv(0x80, aip + afl); if (s.chance(1, 12)) a.data = tlv(0x80, s.bytes(s.draw(8))); break;
		case 1: { Bytes in; if (!s.chance(1, 12)) add(in, tlv(0x82, aip)); if (s.chance(1, 3)) gen_data(s, in, 3, 60); if (!s.chance(1, 12)) add(in, tlv(0x94, afl)); if (s.chance(1, 3)) gen_data(s, in, 3, 60); if (s.chance(1, 10)) add(in, tlv(0x82, {1, 2})); if (s.chance(1, 15)) corrupt(s, in); a.data = tlv(0x77, in); break; }
		case 2: a.data = tlv(s.pickl<unsigned>({0x70, 0x6F, 0x81, 0x9F01}), tlv(0x82, aip) + tlv(0x94, afl)); break;
		default: a.data = s.bbytes(s.draw(12)); break;
	}
	if (a.data.size() > 252) a.data = tlv(0x80, {0, 0, 8, 1, 1, 0});
	if (s.chance(1, 15)) corrupt(s, a.data); if (a.data.size() > 254) a.data.resize(254); if (s.chance(1, 8)) a.sw = odd_sw(s); if (s.chance(1, 30)) a.fault = true;
	if (a.data.empty() && a.sw == 0x9000) a.data.clear();
	return a;
}
static Bytes gen_record(Src& s, unsigned sfi, std::vector<unsigned>& pool, bool& unjudged) {
	Bytes in; unsigned n = (unsigned)s.range(0, 4); for (unsigned i = 0; i < n && !pool.empty(); ++i) { size_t k = s.draw(pool.size()); Bytes f = tlv(pool[k], s.bytes(s.chance(1, 20) ? s.len(0, 60) : s.draw(10))); if (in.size() + f.size() > 240) break; pool.erase(pool.begin() + k); if (s.chance(1, 15)) f = tlv(0x73, f); add(in, f); }
	Bytes r = tlv(0x70, in);
	if (s.chance(1, 20)) r[0] = s.pickl<uint8_t>({0x77, 0x61, 0x00, 0x71}); if (s.chance(1, 20)) corrupt(s, r); if (s.chance(1, 40)) add(r, s.bbytes(s.range(1, 3))); if (s.chance(1, 60)) r.clear(); if (s.chance(1, 60)) { add(r, tlv(0x70, tlv(0xDF20, {1}))); }
	if (r.size() > 254) r = {0x70, 0}; (void)sfi; (void)unjudged; return r;
}
static void gen_good_card(Src& s, Card& c, const std::vector<Aid>& sup) {
	unsigned n = (unsigned)s.range(1, 3), sfi = (unsigned)s.range(1, 10); Bytes dir; bool pse = s.chance(1, 2);
	for (unsigned i = 0; i < n; ++i) {
		Bytes aid = sup.empty() ? gen_aid(s) : sup[i % sup.size()].v; if (!sup.empty() && sup[i % sup.size()].flags && aid.size() < 15) aid.push_back((uint8_t)i);
		Card::App a; a.name = aid; Bytes pdol; if (s.chance(1, 2)) pdol = {0x9F, 0x02, 6, 0x9A, 3, 0x9F, 0x1A, 2, 0x95, 5, 0x9F, 0x06, 8}; a.ans.data = gen_fci(s, aid, pdol); if (a.ans.data.size() > 250) a.ans.data = tlv(0x6F, tlv(0x84, aid)); c.apps.push_back(a);
		Bytes e = tlv(0x61, gen_pse_entry(s, aid)); if (dir.size() + e.size() < 240) add(dir, e);
	}
	if (pse) { c.pse.data = tlv(0x6F, tlv(0x84, {'1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1'}) + tlv(0xA5, tlv(0x88, {(uint8_t)sfi}) + tlv(0x9F11, {1}))); c.recs[{sfi, 1}] = {0x9000, tlv(0x70, dir), false}; } else c.pse.sw = 0x6A82;
	unsigned f = (unsigned)s.range(11, 30), g = sfi == 10 ? 9 : sfi + 1; Bytes afl = {(uint8_t)(g << 3), 1, 2, 1, (uint8_t)(f << 3), 3, 3, 0};
	c.gpo.data = s.chance(1, 2) ? tlv(0x80, Bytes{0x18, 0} + afl) : tlv(0x77, tlv(0x82, {0x18, 0}) + tlv(0x94, afl) + tlv(0x9F36, {0, 1}));
	c.recs[{g, 1}] = {0x9000, tlv(0x70, tlv(0x5A, s.bytes(8)) + tlv(0x5F24, {0x29, 0x12, 0x31})), false};
	c.recs[{g, 2}] = {0x9000, tlv(0x70, tlv(0x8C, {0x9A, 3}) + tlv(0x8D, {0x8A, 2}) + tlv(0x9F4A, {0x82})), false};
	c.recs[{f, 3}] = {0x9000, s.chance(1, 2) ? tlv(0x70, tlv(0x5F20, {'A', '/', 'B'})) : tlv(0x71, {1, 2}), false};
}
#endif
