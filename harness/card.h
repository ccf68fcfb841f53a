// A logical payment card, the transport wrapper that presents it to emv_ttl, and
// reference models of the procedures that run against it.
#ifndef CARD_H
#define CARD_H
#include "model.h"
#include "iso8859_table.inc"
extern "C" {
#include "emv.h"
#include "emv_app.h"
#include "emv_tal.h"
#include "emv_tlv.h"
#include "emv_ttl.h"
#include "emv_tags.h"
#include "emv_fields.h"
#include "emv_dol.h"
#include "emv_debug.h"
}
namespace card {
using namespace vh; using namespace model;

struct Ans { uint16_t sw = 0x9000; Bytes data; bool fault = false; };

struct Card {
	struct App { Bytes name; Ans ans; };
	std::vector<App> apps; Ans pse; Ans gpo; std::map<std::pair<unsigned, unsigned>, Ans> recs; Ans norec{0x6A83, {}, false};
	int cur = -1; // application found by the last SELECT

	// logical execution
	Ans select(const Bytes& name, bool next) {
		static const Bytes PSE = {'1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1'};
		if (name == PSE) { cur = -1; return pse; }
		for (size_t i = next ? cur + 1 : 0; i < apps.size(); ++i) if (apps[i].name.size() >= name.size() && std::equal(name.begin(), name.end(), apps[i].name.begin())) { cur = (int)i; return apps[i].ans; }
		cur = (int)apps.size(); return {0x6A82, {}, false};
	}
	Ans record(unsigned sfi, unsigned rec) const { auto i = recs.find({sfi, rec}); return i == recs.end() ? norec : i->second; }
	Ans exec(const Bytes& c) {
		if (c.size() < 5) return {0x6700, {}, false};
		if (c[1] == 0xA4) return select(Bytes(c.begin() + 5, c.begin() + std::min<size_t>(c.size(), 5 + c[4])), c[3] == 0x02);
		if (c[1] == 0xB2) return record(c[3] >> 3, c[2]);
		if (c[1] == 0xA8) return gpo;
		return {0x6D00, {}, false};
	}
};

// presents a card over a reader in either mode; all free choices come from a private generator so that a session can be repeated
struct Reader {
	Card c; bool tpdu = false; uint32_t rng = 1; unsigned left = 100000; unsigned noise = 0; // noise: chance in 64 of a meaningless frame
	std::vector<Bytes> cmds, answers; Bytes hdr; Bytes pend; size_t got = 0; Ans a; bool have = false, warned = false; size_t off = 0; bool broken = false;
	int fault_kind = 0; unsigned exchanges = 0;
	unsigned r(unsigned n) { rng = rng * 1664525u + 1013904223u; return (rng >> 8) % n; }
	void out(const Bytes& b, void* rx, size_t* rl) { size_t n = std::min(b.size(), *rl); memcpy(rx, b.data(), n); *rl = n; }
	int fault(void* rx, size_t* rl) {
		switch (fault_kind % 5) { case 0: return -1; case 1: return 5; case 2: *rl = 0; return 0; case 3: out({0x60}, rx, rl); return 0; default: *rl = 0; return -99; }
	}
	static Bytes swb(uint16_t w) { return {(uint8_t)(w >> 8), (uint8_t)w}; }
	// final data + status of the current command in one frame
	Bytes final_frame(bool gr, uint8_t ins) {
		Bytes d(a.data.begin() + off, a.data.end()); off = a.data.size();
		Bytes b; if (tpdu && !d.empty()) b.push_back(ins); add(b, d); add(b, swb(gr && warned ? 0x9000 : a.sw)); return b;
	}
	int trx(const void* tx, size_t txl, void* rx, size_t* rl) {
		Bytes t((const uint8_t*)tx, (const uint8_t*)tx + txl); ++exchanges;
		if (!left) { broken = true; return -55; } --left;
		if (noise && r(64) < noise) {
			Bytes b; unsigned n = r(5) ? r(8) : r(257); for (unsigned i = 0; i < n; ++i) b.push_back((uint8_t)r(256));
			switch (r(9)) { case 0: add(b, {0x90, 0}); break; case 1: b = {(uint8_t)(t.size() > 1 ? t[1] : 0xA4)}; break; case 2: b = {0x61, (uint8_t)r(256)}; break; case 3: b = {0x6C, (uint8_t)r(256)}; break; case 4: b = {0x62, 0x83}; break; case 5: { int k = (int)r(5) - 2; if (!k) *rl = 0; return k; } case 6: b = {(uint8_t)~(t.size() > 1 ? t[1] : 0xA4)}; break; case 7: b = {0x6A, (uint8_t)(0x81 + r(3))}; break; default: break; }
			out(b, rx, rl); return 0;
		}
		bool wait_data = tpdu && !pend.empty() && got < pend[4];
		if (wait_data) {
			add(pend, t); got += t.size();
			if (got < pend[4]) { out({(uint8_t)(r(2) ? pend[1] : ~pend[1])}, rx, rl); return 0; }
			Bytes full = pend; full.push_back(0); return start(full, rx, rl);
		}
		if (t.size() >= 2 && t[1] == 0xC0 && have) return get_response(t, rx, rl);
		if (tpdu && t.size() == 5 && (t[1] == 0xA4 || t[1] == 0xA8) && t[4]) { pend = t; got = 0; out({(uint8_t)(r(3) ? pend[1] : ~pend[1])}, rx, rl); return 0; }
		return start(t, rx, rl);
	}
	int start(const Bytes& full, void* rx, size_t* rl) {
		uint8_t ins = full.size() > 1 ? full[1] : 0; bool again = ins == 0xB2 && have && !hdr.empty() && full.size() == 5 && Bytes(full.begin(), full.begin() + 4) == Bytes(hdr.begin(), hdr.begin() + 4) && full[4] != 0;
		if (again) { out(final_frame(false, ins), rx, rl); have = false; return 0; }
		cmds.push_back(full); a = c.exec(full); answers.push_back(a.data); hdr = full; have = true; off = 0; warned = false; pend.clear(); got = 0;
		if (a.fault) return fault(rx, rl);
		bool case4 = ins == 0xA4 || ins == 0xA8; unsigned w = a.sw >> 8;
		if (case4) {
			if (tpdu || r(4) == 0) {
				if (w == 0x62 || w == 0x63) { warned = true; out(swb(a.sw), rx, rl); return 0; }
				if (a.data.empty() || a.sw != 0x9000) { a.data.clear(); out(swb(a.sw), rx, rl); return 0; }
				out({0x61, (uint8_t)a.data.size()}, rx, rl); return 0;
			}
			if ((w == 0x62 || w == 0x63) && a.data.empty()) warned = true;
			out(final_frame(false, ins), rx, rl); return 0;
		}
		if (ins == 0xB2 && a.sw == 0x9000 && a.data.size() > 1 && a.data.size() < 256 && r(tpdu ? 4 : 16) != 0 && tpdu) { out({0x6C, (uint8_t)a.data.size()}, rx, rl); return 0; }
		if (tpdu && a.data.size() == 0) { out(swb(a.sw), rx, rl); return 0; }
		out(final_frame(false, ins), rx, rl); have = false; return 0;
	}
	int get_response(const Bytes& t, void* rx, size_t* rl) {
		size_t rest = a.data.size() - off; uint8_t le = t[4];
		if (!rest) { out({0x69, 0x85}, rx, rl); return 0; }
		if (warned && le != (uint8_t)rest && rest < 256) { out({0x6C, (uint8_t)rest}, rx, rl); return 0; }
		size_t n = rest; if (rest > 4 && r(6) == 0) n = 1 + r((unsigned)rest - 2); if (n < 2) n = rest;
		if (n < rest) { Bytes b; if (tpdu) b.push_back(0xC0); b.insert(b.end(), a.data.begin() + off, a.data.begin() + off + n); off += n; add(b, {0x61, (uint8_t)(rest - n)}); out(b, rx, rl); return 0; }
		out(final_frame(true, 0xC0), rx, rl); return 0;
	}
	std::vector<Bytes> txlog, rxlog; bool logging = false;
	static int cb(void* c, const void* tx, size_t n, void* rx, size_t* rl) { Reader* r = (Reader*)c; int x = r->trx(tx, n, rx, rl); if (r->logging) { r->txlog.push_back(Bytes((const uint8_t*)tx, (const uint8_t*)tx + n)); if (!x) r->rxlog.push_back(Bytes((const uint8_t*)rx, (const uint8_t*)rx + *rl)); } return x; }
	void attach(struct emv_ttl_t* t) { memset(t, 0, sizeof *t); t->cardreader.mode = tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; t->cardreader.ctx = this; t->cardreader.trx = cb; }
};

// ---------------------------------------------------------------- reference application model
struct MApp {
	Bytes aid; unsigned aidtag; std::vector<Field> f; unsigned prio = 0; bool conf = false;
	bool any_name = false, unsure = false; std::vector<std::string> names; std::string longlabel; // acceptable display names
};
inline const Field* find(const std::vector<Field>& f, unsigned t) { for (auto& x : f) if (x.tag == t) return &x; return nullptr; }
inline std::string utf8(unsigned cp) { std::string o; if (cp < 0x80) o += (char)cp; else if (cp < 0x800) { o += (char)(0xC0 | cp >> 6); o += (char)(0x80 | (cp & 63)); } else { o += (char)(0xE0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); } return o; }
// false when there is nothing at all to display (empty identifier without label)
inline bool finish(MApp& m, const std::vector<Field>* pse) {
	const Field* ct = find(pse ? *pse : m.f, 0x9F11); unsigned part = 0;
	if (ct && ct->value.size() == 1 && ct->value[0] >= 1 && ct->value[0] <= 15 && ct->value[0] != 12) part = ct->value[0];
	bool pref = false, fallback = true;
	if (const Field* n = part ? find(m.f, 0x9F12) : nullptr) {
		std::string all, fit; unsigned cnt = 0;
		for (uint8_t c : n->value) {
			if (c < 0x20 || c == 0x7F || (c > 0x7F && c < 0xA0)) continue;
			if (cnt++ == 16) break;
			unsigned cp = ISO8859[part][c]; if (!cp) { m.any_name = true; continue; }
			std::string u = utf8(cp); if (all == fit && fit.size() + u.size() <= 32) fit += u; all += u;
		}
		if (cnt) { pref = true; m.names.push_back(fit); fallback = fit != all || m.any_name; }
	}
	if (fallback) {
		if (const Field* l = find(m.f, 0x50)) {
			std::string t; for (uint8_t c : l->value) if (c == ' ' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) t += (char)c;
			if (t.size() <= 16) m.names.push_back(t); else m.longlabel = t;
			if (t.empty()) m.names.push_back(hex(m.aid).substr(0, 32));
		} else { if (m.aid.empty()) { if (!pref) return false; m.unsure = true; } m.names.push_back(hex(m.aid).substr(0, 32)); }
	}
	if (const Field* p = find(m.f, 0x87)) if (!p->value.empty()) { m.prio = p->value[0] & 0x0F; m.conf = p->value[0] & 0x80; }
	return true;
}
inline bool app_from_pse(const std::vector<Field>* pse, const uint8_t* p, size_t n, MApp& m) {
	m = MApp(); if (!flatten(p, n, m.f)) return false;
	const Field* a = find(m.f, 0x4F); if (!a) return false; m.aid = a->value; m.aidtag = 0x4F; return finish(m, pse);
}
inline bool app_from_fci(const Bytes& b, MApp& m) {
	m = MApp(); El e; int r = element(b.data(), b.size(), &e); if (r <= 0 || (size_t)r != b.size() || e.tag != 0x6F) return false;
	if (!flatten(b.data() + e.hdr, e.len, m.f)) return false;
	const Field* a = find(m.f, 0x84); if (!a) return false; m.aid = a->value; m.aidtag = 0x84; return finish(m, nullptr);
}
struct Aid { Bytes v; unsigned flags; };
inline bool supported(const Bytes& aid, const std::vector<Aid>& l) {
	for (auto& a : l) { if (a.flags == 0 && a.v == aid) return true; if (a.flags == 1 && a.v.size() <= aid.size() && std::equal(a.v.begin(), a.v.end(), aid.begin())) return true; }
	return false;
}
inline std::vector<Field> list_fields(const struct emv_tlv_list_t& l) { std::vector<Field> o; for (const struct emv_tlv_t* t = l.front; t; t = t->next) o.push_back({t->tag, Bytes(t->value, t->value + t->length)}); return o; }
inline std::string show(const std::vector<Field>& f) { std::string o; for (auto& x : f) o += fmt("%X=%s ", x.tag, hex(x.value).c_str()); return o; }
inline void check_app(const struct emv_app_t* a, const MApp& m, const char* what) {
	REQUIRE(a, "%s: no application", what);
	auto f = list_fields(a->tlv_list);
	if (!(f == m.f)) fails(fmt("%s: application fields ", what) + show(f) + "expected " + show(m.f));
	REQUIRE(a->aid, "%s: application without identifier", what);
	bool inlist = false; for (const struct emv_tlv_t* t = a->tlv_list.front; t; t = t->next) inlist |= t == a->aid;
	REQUIRE(inlist && a->aid->tag == m.aidtag && Bytes(a->aid->value, a->aid->value + a->aid->length) == m.aid, "%s: identifier %s expected %s", what, hex(a->aid->value, a->aid->length).c_str(), hex(m.aid).c_str());
	REQUIRE(a->priority == m.prio && a->confirmation_required == m.conf, "%s: priority %u confirmation %d expected %u %d", what, a->priority, a->confirmation_required, m.prio, m.conf);
	REQUIRE(memchr(a->display_name, 0, sizeof a->display_name), "%s: display name not terminated", what);
	if (!m.any_name) {
		std::string d = a->display_name; bool ok = false; for (auto& n : m.names) ok |= d == n;
		if (!m.longlabel.empty() && d.size() >= 16 && m.longlabel.compare(0, d.size(), d) == 0) ok = true;
		REQUIRE(ok, "%s: display name \"%s\" (%s) expected \"%s\"", what, d.c_str(), hex((const uint8_t*)d.data(), d.size()).c_str(), m.names.empty() ? m.longlabel.c_str() : m.names[0].c_str());
	}
}

// ---------------------------------------------------------------- reference candidate list
inline int ref_candidates(Card c, const std::vector<Aid>& sup, std::vector<MApp>& out, std::string* how = nullptr) {
	out.clear();
	static const Bytes PSE = {'1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1'};
	Ans p = c.select(PSE, false);
	if (p.fault) return EMV_OUTCOME_CARD_ERROR; if (p.sw == 0x6A81) return EMV_OUTCOME_CARD_BLOCKED;
	if (p.sw == 0x9000) {
		std::vector<Field> pf; flatten(p.data, pf); const Field* sfi = find(pf, 0x88);
		if (sfi && sfi->value.size() == 1 && sfi->value[0] >= 1 && sfi->value[0] <= 30) {
			unsigned n = sfi->value[0];
			for (unsigned rec = 1; rec <= 255; ++rec) {
				Ans a = c.record(n, rec); if (a.fault) return EMV_OUTCOME_CARD_ERROR;
				if (a.sw == 0x6A83) break; if (a.sw != 0x9000) continue;
				El t; if (element(a.data.data(), a.data.size(), &t) <= 0 || t.tag != 0x70) continue;
				size_t o = 0; const uint8_t* q = a.data.data() + t.hdr;
				while (o < t.len) { El e; int r = element(q + o, t.len - o, &e); if (r <= 0) break; MApp m; if (e.tag == 0x61 && app_from_pse(&pf, q + o + e.hdr, e.len, m) && supported(m.aid, sup)) out.push_back(m); o += r; }
			}
			if (how) *how = "directory";
		}
	}
	if (out.empty()) {
		if (how) *how = "discovery";
		for (auto& a : sup) for (bool next = false;; next = true) {
			Ans r = c.select(a.v, next); if (r.fault) return EMV_OUTCOME_CARD_ERROR;
			if (!next && r.sw == 0x6A81) return EMV_OUTCOME_CARD_BLOCKED;
			if (r.sw != 0x9000 && r.sw != 0x6283) break;
			MApp m; if (!app_from_fci(r.data, m)) break;
			if (m.unsure) return -100; // an empty identifier whose only name cannot be converted
			if (m.aid.size() == a.v.size()) { if (r.sw == 0x9000) out.push_back(m); break; }
			if (a.flags != 1) break;
			if (r.sw == 0x9000) out.push_back(m);
		}
	}
	if (out.empty()) return EMV_OUTCOME_NOT_ACCEPTED;
	std::stable_sort(out.begin(), out.end(), [](const MApp& x, const MApp& y) { return (x.prio ? x.prio : 99) < (y.prio ? y.prio : 99); });
	return 0;
}

// ---------------------------------------------------------------- generators
inline Bytes ascii(Src& s, size_t n) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back(s.chance(1, 5) ? s.bbyte() : (uint8_t)(s.chance(1, 2) ? 'A' + s.draw(26) : 0x20 + s.draw(95))); return b; }
inline Bytes gen_aid(Src& s) {
	static const Bytes base[] = {{0xA0, 0, 0, 0, 3}, {0xA0, 0, 0, 0, 4}, {0xA0, 0, 0, 0, 3, 0x10, 0x10}, {0xA0, 0, 0, 0, 4, 0x10, 0x10}, {0xA0, 0, 0, 0, 0x25, 1}, {0xA0, 0, 0, 0, 3, 0x20, 0x10}};
	Bytes b = s.pick(base); unsigned x = (unsigned)s.draw(s.chance(1, 8) ? 12 : 4); while (x-- && b.size() < 16) b.push_back((uint8_t)s.draw(3)); return b;
}
inline void name_fields(Src& s, Bytes& b, bool codetable) {
	if (s.chance(3, 4)) add(b, tlv(0x50, ascii(s, s.chance(1, 8) ? s.len(0, 40) : s.draw(17))));
	if (s.chance(1, 2)) add(b, tlv(0x87, s.chance(1, 12) ? s.bbytes(s.draw(3)) : Bytes{(uint8_t)((s.chance(1, 4) ? 0x80 : 0) | (s.chance(1, 8) ? s.byte() & 0x70 : 0) | s.draw(s.chance(1, 3) ? 16 : 4))}));
	if (codetable && s.chance(1, 2)) add(b, tlv(0x9F11, s.chance(1, 10) ? s.bbytes(s.draw(3)) : Bytes{(uint8_t)s.range(s.chance(1, 8) ? 0 : 1, s.chance(1, 8) ? 17 : 15)}));
	if (s.chance(2, 5)) { Bytes n; unsigned l = (unsigned)(s.chance(1, 6) ? s.len(0, 40) : s.draw(17)); for (unsigned i = 0; i < l; ++i) n.push_back(s.chance(1, 2) ? (uint8_t)(0xA0 + s.draw(96)) : s.chance(1, 8) ? s.bbyte() : (uint8_t)(0x20 + s.draw(95))); add(b, tlv(0x9F12, n)); }
}
inline Bytes gen_fci(Src& s, const Bytes& name, const Bytes& pdol = {}) {
	Bytes a5; name_fields(s, a5, true); if (!pdol.empty()) add(a5, tlv(0x9F38, pdol)); if (s.chance(1, 4)) add(a5, tlv(0x5F2D, {'e', 'n'})); if (s.chance(1, 5)) add(a5, tlv(0xBF0C, tlv(0x9F4D, {11, 10})));
	Bytes in; Bytes nm = tlv(0x84, name), t = tlv(0xA5, a5); if (s.chance(1, 12)) in = t + nm; else in = nm + t; if (s.chance(1, 15)) add(in, tlv(0x84, s.bytes(7)));
	return tlv(0x6F, in);
}
inline Bytes gen_pse_entry(Src& s, const Bytes& aid) { Bytes in; Bytes rest; name_fields(s, rest, s.chance(1, 6)); if (s.chance(1, 10)) in = rest + tlv(0x4F, aid); else in = tlv(0x4F, aid) + rest; if (s.chance(1, 10)) add(in, tlv(0x73, tlv(0x9F4D, {1, 2}))); return in; }
inline uint16_t odd_sw(Src& s) { if (s.chance(1, 5)) return (uint16_t)(0x6200 + 256 * s.pickl<unsigned>({0, 1, 2, 3, 5, 6, 7, 8, 9}) + s.draw(256)); if (s.chance(1, 8)) return s.pickl<uint16_t>({0x6984, 0x6986, 0x6A80, 0x6A84, 0x6282, 0x6284, 0x6281, 0x9000 + 0x61, 0x9300}); return s.pickl<uint16_t>({0x6283, 0x6A82, 0x6A81, 0x6985, 0x6300, 0x6D00, 0x6700, 0x6200, 0x6A83, 0x6F00, 0x9001}); }
inline std::vector<Aid> gen_supported(Src& s) { std::vector<Aid> v; unsigned n = (unsigned)s.range(1, 4); for (unsigned i = 0; i < n; ++i) v.push_back({gen_aid(s), (unsigned)s.draw(2)}); if (s.chance(1, 20)) v.push_back(v[0]); if (s.chance(1, 40)) v.clear(); return v; }
inline Bytes card_aid(Src& s, const std::vector<Aid>& sup) {
	Bytes a = !sup.empty() && s.chance(4, 5) ? s.pick(sup).v : gen_aid(s);
	switch (s.draw(6)) { case 0: if (a.size() < 16) a.push_back((uint8_t)s.draw(3)); break; case 1: if (a.size() > 5) a.pop_back(); break; case 2: a[s.draw(a.size())] ^= 1; break; case 3: if (s.chance(1, 4)) a = s.bbytes(s.draw(20)); else if (a.size() < 15) { a.push_back(7); a.push_back((uint8_t)s.draw(4)); } break; default: break; }
	return a;
}
inline void gen_card(Src& s, Card& c, const std::vector<Aid>& sup) {
	// payment system environment
	unsigned sfi = (unsigned)(s.chance(1, 20) ? s.pickl<unsigned>({0, 31, 30, 255, 11}) : s.range(1, 10));
	switch (s.weighted({6, 3, 1})) {
		case 0: {
			Bytes a5; if (!s.chance(1, 20)) add(a5, tlv(0x88, s.chance(1, 20) ? s.bbytes(s.draw(3)) : Bytes{(uint8_t)sfi})); if (s.chance(1, 2)) add(a5, tlv(0x9F11, {(uint8_t)s.range(1, 16)})); if (s.chance(1, 3)) add(a5, tlv(0x5F2D, {'f', 'r'}));
			c.pse.data = tlv(0x6F, tlv(0x84, {'1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1'}) + tlv(0xA5, a5)); if (s.chance(1, 8)) c.pse.data.insert(c.pse.data.end(), s.range(1, 4), s.chance(1, 2) ? 0 : 0xFF); if (s.chance(1, 12)) corrupt(s, c.pse.data); break;
		}
		case 1: c.pse.sw = 0x6A82; break;
		default: c.pse.sw = odd_sw(s); if (c.pse.sw == 0x6283) c.pse.data = tlv(0x6F, tlv(0xA5, tlv(0x88, {1}))); break;
	}
	if (s.chance(1, 40)) c.pse.fault = true;
	unsigned nr = (unsigned)s.draw(5);
	for (unsigned i = 1; i <= nr; ++i) {
		Ans a; Bytes t; unsigned k = (unsigned)s.range(0, 3);
		for (unsigned j = 0; j < k; ++j) { Bytes e = gen_pse_entry(s, card_aid(s, sup)); if (s.chance(1, 12)) { if (s.chance(1, 2)) corrupt(s, e); else e = tlv(0x50, {'X'}); } add(t, tlv(s.chance(1, 12) ? 0x6F : 0x61, e)); if (s.chance(1, 12)) add(t, tlv(0x9F7F, {1, 2})); }
		a.data = tlv(s.chance(1, 15) ? 0x77 : 0x70, t); if (s.chance(1, 12)) corrupt(s, a.data); if (s.chance(1, 12)) a.sw = odd_sw(s); if (s.chance(1, 60)) a.fault = true;
		if (a.data.size() > 250) { a.data = {0x70, 0}; }
		c.recs[{sfi, i}] = a;
	}
	// applications reachable by SELECT
	unsigned na = (unsigned)s.draw(6);
	for (unsigned i = 0; i < na; ++i) {
		Card::App a; a.name = card_aid(s, sup); a.ans.data = gen_fci(s, s.chance(1, 15) ? card_aid(s, sup) : a.name); if (s.chance(1, 10)) corrupt(s, a.ans.data); if (s.chance(1, 6)) a.ans.sw = s.chance(1, 2) ? 0x6283 : odd_sw(s); if (s.chance(1, 50)) a.ans.fault = true;
		if (a.ans.data.size() > 250) a.ans.data = tlv(0x6F, tlv(0x84, a.name));
		c.apps.push_back(a);
	}
}
inline void gen_reader(Src& s, Reader& r) { r.tpdu = s.chance(1, 2); r.rng = (uint32_t)s.draw(1000); r.fault_kind = (int)s.draw(5); }
inline std::string show(const Card& c) {
	std::string o = fmt("PSE %04X%s %s", c.pse.sw, c.pse.fault ? "!" : "", hex(c.pse.data).c_str());
	for (auto& r : c.recs) o += fmt(" [%u/%u] %04X%s %s", r.first.first, r.first.second, r.second.sw, r.second.fault ? "!" : "", hex(r.second.data).c_str());
	for (auto& a : c.apps) o += fmt(" app %s: %04X%s %s", hex(a.name).c_str(), a.ans.sw, a.ans.fault ? "!" : "", hex(a.ans.data).c_str());
	o += fmt(" gpo %04X%s %s", c.gpo.sw, c.gpo.fault ? "!" : "", hex(c.gpo.data).c_str());
	return o;
}
inline void push_aids(struct emv_tlv_list_t* l, const std::vector<Aid>& v) { for (auto& a : v) { Exact e(a.v); emv_tlv_list_push(l, 0x9F06, (unsigned)a.v.size(), e.p, a.flags); } }
inline void push_fields(struct emv_tlv_list_t* l, const std::vector<Field>& v) { for (auto& f : v) { Exact e(f.value); emv_tlv_list_push(l, f.tag, (unsigned)f.value.size(), e.p, 0); } }

// ---------------------------------------------------------------- DOL filling
inline bool dol_fill(const Bytes& b, const std::vector<const std::vector<Field>*>& src, Bytes& out) {
	static const std::set<unsigned> TERM_N = {0x9A, 0x9C, 0x5F2A, 0x5F36, 0x5F57, 0x9F01, 0x9F02, 0x9F03, 0x9F15, 0x9F1A, 0x9F21, 0x9F35, 0x9F39, 0x9F3C, 0x9F3D, 0x9F41};
	out.clear(); size_t o = 0;
	while (o < b.size()) {
		unsigned t; int r = tag(b.data() + o, b.size() - o, &t); if (r <= 0) return false; o += r; if (o >= b.size()) return false; size_t l = b[o++];
		const Field* f = nullptr; for (auto* v : src) { if ((f = find(*v, t))) break; }
		Bytes v(l, 0); if (f) { size_t n = std::min(l, f->value.size()); bool left = TERM_N.count(t); for (size_t k = 0; k < n; ++k) { if (left) v[l - 1 - k] = f->value[f->value.size() - 1 - k]; else v[k] = f->value[k]; } }
		add(out, v);
	}
	return true;
}
} // namespace card
#endif
