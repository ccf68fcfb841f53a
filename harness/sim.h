// Reference transport state machine: plays the card side of emv_ttl_trx(),
// knows the only correct next frame at every step and the correct final result.
#ifndef SIM_H
#define SIM_H
#include "model.h"
extern "C" {
#include "emv_ttl.h"
}
namespace sim {
using namespace vh; using model::add; using model::operator+;
enum State { RUN, OK, ERR, UNJUDGED };
struct Sim {
	Src* s; bool tpdu; Bytes cmd; int kase; size_t cap;
	unsigned wild = 0;               // chance in 64 of an illegal answer per exchange
	unsigned max_ex = 12;
	State st = RUN; int fail_code = 0; unsigned ex = 0;
	Bytes expect, last_header, acc, delivered; size_t sent = 0, lc = 0; bool pending = false; int sw = -1;
	std::string err, log;
	bool multi = false, getresp = false, resent = false, acked = false;

	void init(Src& src, bool t, const Bytes& c, int k, size_t capacity) {
		s = &src; tpdu = t; cmd = c; kase = k; cap = capacity;
		if (k == 3 || k == 4) lc = c[4];
		if (!t) { expect = c; last_header = Bytes(c.begin(), c.begin() + std::min<size_t>(5, c.size())); }
		else { expect = Bytes(c.begin(), c.begin() + std::min<size_t>(5, c.size())); if (k == 1) expect.push_back(0); last_header = expect; pending = k >= 3; }
	}
	uint8_t ins() const { return last_header[1]; }
	void get_response(uint8_t le) { last_header = {0, 0xC0, 0, 0, le}; expect = last_header; pending = false; getresp = true; }
	void to(State x) { if (st == RUN) st = x; }
	// what the answer r means
	void step(const Bytes& r) {
		if (r.empty()) { to(ERR); return; }
		if (kase == 1) { if (r.size() != 2) { to(ERR); return; } sw = r[0] << 8 | r[1]; if (cap < 2) { to(ERR); return; } to(OK); return; }
		if (r.size() == 1) {
			uint8_t b = r[0];
			if (b == 0x60) { to(ERR); return; }
			if (!tpdu || !pending || (b != ins() && b != (uint8_t)~ins())) { to(ERR); return; }
			size_t n = b == ins() ? lc - sent : 1;
			expect = Bytes(cmd.begin() + 5 + sent, cmd.begin() + 5 + sent + n); sent += n; if (sent == lc) pending = false; acked = true;
			return;
		}
		uint8_t s1 = r[r.size() - 2], s2 = r[r.size() - 1]; bool more = false;
		Bytes data;
		if (tpdu) {
			if (r.size() == 3) { st = UNJUDGED; return; }
			if (r.size() > 3) { if (kase == 3 || r[0] != ins()) { to(ERR); return; } if (pending) { st = UNJUDGED; return; } data.assign(r.begin() + 1, r.end() - 2); }
		} else if (r.size() > 2) { if (kase == 3) { to(ERR); return; } data.assign(r.begin(), r.end() - 2); }
		if ((s1 == 0x61 || s1 == 0x6C) && kase == 3) { to(ERR); return; }
		if (s1 == 0x6C && !data.empty()) { st = UNJUDGED; return; }
		if (acc.size() + data.size() + 2 > cap) { to(ERR); return; }
		if (!acc.empty() && !data.empty()) multi = true;
		add(acc, data);
		if (s1 == 0x61) { get_response(s2); more = true; }
		else if (s1 == 0x6C) {
			resent = true; more = true;
			if (kase == 4 && !getresp) { if (tpdu) { st = UNJUDGED; return; } expect = cmd; expect.back() = s2; }
			else { last_header[4] = s2; expect = last_header; }
			pending = false;
		} else if (sw < 0) {
			sw = s1 << 8 | s2;
			if (kase == 4 && r.size() == 2 && (s1 == 0x62 || s1 == 0x63)) { get_response(s1 == 0x62 && s2 >= 2 && s2 <= 0x80 ? s2 : 0); more = true; }
		}
		if (!more) to(OK);
	}
	Bytes sw_gen() {
		switch (s->weighted({6, 3, 2, 2, 2, 1, 1})) {
			case 0: return {0x90, 0x00};
			case 1: return {0x61, s->bbyte()};
			case 2: return {0x6C, s->bbyte()};
			case 3: return {0x62, s->pickl<uint8_t>({0x83, 0x00, 0x81, 0x02, 0x01, 0x80, 0x82, 0x10})};
			case 4: return {s->pickl<uint8_t>({0x6A, 0x69, 0x67, 0x6D, 0x6E, 0x6F, 0x64, 0x65}), s->bbyte()};
			case 5: return {0x63, s->bbyte()};
			default: return {s->bbyte(), s->bbyte()};
		}
	}
	Bytes data_gen() { size_t n = s->chance(1, 6) ? s->len(200, 256) : s->len(1, 40); Bytes d; uint8_t k = s->byte(); for (size_t i = 0; i < n; ++i) d.push_back((uint8_t)(k + i * 5)); return d; }
	virtual Bytes answer() {
		if (ex >= max_ex) return {0x90, 0x00};
		if (s->draw(64) < wild) {
			switch (s->draw(6)) { case 0: return {}; case 1: return {s->bbyte()}; case 2: return {0x60}; case 3: return s->bbytes(s->len(0, 20)); case 4: return data_gen() + sw_gen(); default: { Bytes b{ins()}; return b + data_gen() + sw_gen(); } }
		}
		if (kase == 1) return sw_gen();
		if (tpdu && pending) {
			switch (s->weighted({5, 8, 1})) { case 0: return {ins()}; case 1: return {(uint8_t)~ins()}; default: return sw_gen(); }
		}
		Bytes w = sw_gen();
		if (kase == 3 && (w[0] == 0x61 || w[0] == 0x6C)) w[0] = 0x90;
		if (kase == 3 || w[0] == 0x6C || s->chance(1, 3)) return w;
		Bytes d = data_gen(); if (tpdu) d.insert(d.begin(), ins());
		return d + w;
	}
	int trx(const void* tx, size_t txl, void* rx, size_t* rxl) {
		Bytes t((const uint8_t*)tx, (const uint8_t*)tx + txl);
		if (s->want()) log += (log.empty() ? "> " : " > ") + hex(t).substr(0, 600);
		if (st == OK || st == ERR) { if (err.empty()) err = fmt("transmits %s after the exchange had %s", hex(t).c_str(), st == OK ? "ended" : "failed"); return -77; }
		if (st == RUN && t != expect) { if (err.empty()) err = fmt("exchange %u transmits %s instead of %s", ex + 1, hex(t).c_str(), hex(expect).c_str()); st = UNJUDGED; return -77; }
		if (st == RUN && acked) { add(delivered, t); acked = false; }
		++ex;
		if (wild && s->chance(1, 24)) { fail_code = s->pickl({-1, 1, -99, 99, 7}); if (st == RUN) st = ERR; *rxl = s->chance(1, 2) ? 0 : *rxl; log += fmt(" < reader error %d", fail_code); return fail_code; }
		Bytes r = answer();
		if (r.size() > *rxl) { if (r.size() <= 259 && tpdu) { if (err.empty()) err = fmt("offers a receive buffer of %zu octets for a legal response of %zu", *rxl, r.size()); } r.resize(*rxl); }
		if (s->want()) log += " < " + hex(r).substr(0, 600);
		memcpy(rx, r.data(), r.size()); *rxl = r.size();
		if (st == UNJUDGED) { if (ex > max_ex + 6) return -78; return 0; }
		step(r);
		return 0;
	}
	static int cb(void* c, const void* tx, size_t txl, void* rx, size_t* rxl) { return ((Sim*)c)->trx(tx, txl, rx, rxl); }
	void attach(struct emv_ttl_t* t) { memset(t, 0, sizeof *t); t->cardreader.mode = tpdu ? EMV_CARDREADER_MODE_TPDU : EMV_CARDREADER_MODE_APDU; t->cardreader.ctx = this; t->cardreader.trx = cb; }
	virtual ~Sim() {}
};
inline Bytes gen_cmd(Src& s, int kase) {
	Bytes c; c.push_back(s.pickl<uint8_t>({0x00, 0x80, 0x0C, 0x84})); uint8_t i = s.chance(1, 2) ? s.pickl<uint8_t>({0xA4, 0xB2, 0xA8, 0xCA, 0x20, 0xC0, 0xDA, 0x84}) : s.byte(); if ((i >> 4) == 6 || (i >> 4) == 9) i = 0xB0; c.push_back(i); c.push_back(s.bbyte()); c.push_back(s.bbyte());
	if (kase == 2) c.push_back(s.bbyte());
	if (kase >= 3) { size_t n = s.chance(1, 8) ? s.len(200, 255) : s.len(1, 12); c.push_back((uint8_t)n); uint8_t k = s.byte(); for (size_t j = 0; j < n; ++j) c.push_back((uint8_t)(k + 3 * j)); if (kase == 4) c.push_back(s.chance(1, 3) ? s.bbyte() : 0); }
	return c;
}
} // namespace sim
#endif
