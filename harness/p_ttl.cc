// C13..C15: terminal transport layer
#include "sim.h"
using namespace vh; using namespace sim;

static void exchange(Src& s, bool tpdu, unsigned wild) {
	int k = 1 + (int)s.weighted({1, 3, 3, 4});
	Bytes c = gen_cmd(s, k);
	size_t cap = s.chance(1, 6) ? s.len(1, 60) : s.chance(1, 3) ? 258 : 3000;
	Sim m; m.init(s, tpdu, c, k, cap); m.wild = wild;
	struct emv_ttl_t t; m.attach(&t);
	Exact in(c), out(cap); size_t n = cap; uint16_t sw = 0xABCD;
	int r = emv_ttl_trx(&t, in.p, in.n, out.p, &n, &sw);
	if (s.want()) s.desc(fmt("case %d command %s, capacity %zu: %s", k, hex(c).c_str(), cap, m.log.c_str()));
	if (!m.err.empty()) fails(fmt("command %s: ", hex(c).c_str()) + m.err);
	REQUIRE(in.vec() == c, "command buffer modified");
	if (m.st == UNJUDGED) { s.label("unjudged"); return; }
	if (m.st == RUN) { REQUIRE(cap < 2 && r != 0, "command %s: returned %d although the card's last answer asks for %s", hex(c).c_str(), r, hex(m.expect).c_str()); return; }
	if (m.ex >= 2) s.nontrivial();
	if (m.st == ERR) { s.label("error"); if (m.fail_code) REQUIRE(r == m.fail_code, "reader error %d reported as %d", m.fail_code, r); else REQUIRE(r != 0, "command %s: success with status %04X although the exchange failed", hex(c).c_str(), sw); return; }
	REQUIRE(r == 0, "command %s: error %d although the exchange succeeded", hex(c).c_str(), r);
	REQUIRE(sw == m.sw, "command %s: status %04X expected %04X", hex(c).c_str(), sw, m.sw);
	REQUIRE(n == m.acc.size() + 2 && n <= cap, "command %s: response length %zu expected %zu", hex(c).c_str(), n, m.acc.size() + 2);
	Bytes want = m.acc; want.push_back(m.sw >> 8); want.push_back(m.sw & 255);
	REQUIRE(Bytes(out.p, out.p + n) == want, "command %s: response %s expected %s", hex(c).c_str(), hex(out.p, n).c_str(), hex(want).c_str());
	for (size_t i = n; i < cap; ++i) if (out.p[i] != 0xA5) { /* octets after the response may be used as scratch */ break; }
	if (m.multi) s.label("several parts"); if (m.getresp) s.label("get response"); if (m.resent) s.label("re-issued"); if (k >= 3 && tpdu && m.delivered.size() > 1) s.label("data phase");
}
VH_PROP(C13, legal, 150000, 4000000, "commands of all cases against a card that answers legally with data, 61xx, 6Cxx, warnings and errors; non-trivial: at least two exchanges") { exchange(s, false, 0); }
VH_PROP(C13, hostile, 150000, 4000000, "as before with illegal answers and reader failures mixed in; non-trivial: at least two exchanges") { exchange(s, false, (unsigned)s.pickl({4, 16, 40})); }
VH_PROP(C14, legal, 200000, 5000000, "T=0 commands against a card with random procedure byte schedules; non-trivial: at least two exchanges") { exchange(s, true, 0); }
VH_PROP(C14, hostile, 200000, 5000000, "as before with illegal procedure bytes, answers and reader failures; non-trivial: at least two exchanges") { exchange(s, true, (unsigned)s.pickl({4, 16, 40})); }

// a card with one logical answer, delivered either at once (APDU) or split by a random T=0 schedule
struct SplitCard : Sim {
	Bytes data; uint16_t fin = 0x9000; size_t given = 0; bool warned = false;
	Bytes answer() override {
		if (tpdu && pending) { unsigned left = (unsigned)(lc - sent); if (left > 20 || s->chance(1, 3)) return {ins()}; return {(uint8_t)~ins()}; }
		Bytes w{(uint8_t)(fin >> 8), (uint8_t)fin};
		size_t left = data.size() - given;
		if (!tpdu) { Bytes d(data.begin() + given, data.end()); given = data.size(); return d + w; }
		if (!left) return w;
		bool warn = fin >> 8 == 0x62 || fin >> 8 == 0x63;
		if (kase == 4 && !getresp) { if (warn) { warned = true; return w; } return {0x61, (uint8_t)(left > 255 ? 0 : s->chance(1, 3) ? s->range(1, left) : left)}; }
		size_t p3 = last_header[4] ? last_header[4] : 256;
		if (p3 > left && !resent_now) { resent_now = true; return {0x6C, (uint8_t)left}; }
		resent_now = false;
		size_t n = std::min(p3, left); if (n > 1 && s->chance(1, 4)) n = s->range(1, n);
		Bytes d{ins()}; d.insert(d.end(), data.begin() + given, data.begin() + given + n); given += n; left -= n;
		if (left) return d + Bytes{0x61, (uint8_t)(left > 255 ? 0 : left)};
		if (warned) return d + Bytes{0x90, 0};
		return d + w;
	}
	bool resent_now = false;
};
VH_PROP(C14, same_as_apdu, 150000, 4000000, "one logical answer of up to 256 octets given at once over an APDU reader and split arbitrarily over a T=0 reader: results must be equal; non-trivial: more than two T=0 exchanges") {
	int k = 1 + (int)s.weighted({1, 3, 3, 4}); Bytes c = gen_cmd(s, k);
	Bytes d; if (k == 2 || k == 4) { size_t n = s.chance(1, 4) ? s.range(250, 256) : s.len(0, 60); uint8_t q = s.byte(); for (size_t i = 0; i < n; ++i) d.push_back((uint8_t)(q + 7 * i)); }
	if (k == 2 && !d.empty() && s.chance(1, 2)) c[4] = 0;
	uint16_t fin = s.pickl<uint16_t>({0x9000, 0x9000, 0x6283, 0x6300, 0x63C2, 0x6A83, 0x6985, 0x6200, 0x6210}); if (d.empty() && k == 4 && (fin >> 8 == 0x62 || fin >> 8 == 0x63)) fin = 0x9000;
	struct { int r; Bytes out; uint16_t sw; } res[2]; unsigned ex = 0; Bytes del;
	for (int m = 0; m < 2; ++m) {
		SplitCard card; card.init(s, m == 1, c, k, 258); card.data = d; card.fin = fin; card.max_ex = 100000;
		struct emv_ttl_t t; card.attach(&t); Exact out(258); size_t n = 258; uint16_t sw = 0; Exact in(c);
		res[m].r = emv_ttl_trx(&t, in.p, in.n, out.p, &n, &sw);
		if (s.want()) s.desc(fmt("%s: ", m ? "T=0" : "APDU") + card.log.substr(0, 1500));
		if (!card.err.empty()) fails(card.err);
		res[m].sw = sw; if (!res[m].r) { REQUIRE(n <= 258, "response length %zu", n); res[m].out.assign(out.p, out.p + n); }
		if (m) { ex = card.ex; del = card.delivered; }
	}
	if (ex > 2) s.nontrivial(); s.label(ex > 5 ? "6+ exchanges" : "1-5 exchanges");
	REQUIRE(res[0].r == 0, "APDU exchange failed with %d for %s", res[0].r, hex(c).c_str());
	REQUIRE(res[1].r == 0, "T=0 exchange failed with %d for %s", res[1].r, hex(c).c_str());
	REQUIRE(res[0].out == res[1].out && res[0].sw == res[1].sw, "command %s: APDU reader gives %s, T=0 reader gives %s", hex(c).c_str(), hex(res[0].out).c_str(), hex(res[1].out).c_str());
	if (k >= 3) REQUIRE(del == Bytes(c.begin() + 5, c.begin() + 5 + c[4]), "command %s: card received data %s", hex(c).c_str(), hex(del).c_str());
}
static int never(void* c, const void*, size_t, void*, size_t*) { ++*(int*)c; return -9; }
VH_PROP(C13, parameters, 60000, 600000, "byte strings that are no short command, unknown reader modes and missing parameters: refused without transmission; non-trivial: always") {
	s.nontrivial(); int calls = 0; struct emv_ttl_t t; memset(&t, 0, sizeof t); t.cardreader.ctx = &calls; t.cardreader.trx = never; t.cardreader.mode = s.chance(1, 2) ? EMV_CARDREADER_MODE_APDU : EMV_CARDREADER_MODE_TPDU;
	Bytes c; uint8_t out[16]; size_t n = 16; uint16_t sw; int r;
	switch (s.draw(3)) {
		case 0: { // not a short command
			c = s.bbytes(s.len(1, 24)); if (c.size() == 4 || c.size() == 5) { c.resize(6); c[4] = 0; } if (c.size() > 5 && c[4] && (c.size() == 5u + c[4] || c.size() == 6u + c[4])) c[4] = 0;
			Exact x(c); r = emv_ttl_trx(&t, x.p, x.n, out, &n, &sw); break; }
		case 1: { c = gen_cmd(s, 1 + (int)s.draw(4)); t.cardreader.mode = (enum emv_cardreader_mode_t)s.pickl({0, 3, 4, 255}); Exact x(c); r = emv_ttl_trx(&t, x.p, x.n, out, &n, &sw); break; }
		default: { c = gen_cmd(s, 1 + (int)s.draw(4)); Exact x(c); size_t z = 0; switch (s.draw(7)) { case 0: r = emv_ttl_trx(nullptr, x.p, x.n, out, &n, &sw); break; case 1: r = emv_ttl_trx(&t, nullptr, x.n, out, &n, &sw); break; case 2: r = emv_ttl_trx(&t, x.p, 0, out, &n, &sw); break; case 3: r = emv_ttl_trx(&t, x.p, x.n, nullptr, &n, &sw); break; case 4: r = emv_ttl_trx(&t, x.p, x.n, out, nullptr, &sw); break; case 5: r = emv_ttl_trx(&t, x.p, x.n, out, &z, &sw); break; default: r = emv_ttl_trx(&t, x.p, x.n, out, &n, nullptr); } }
	}
	if (s.want()) s.desc("octets " + hex(c));
	REQUIRE(r < 0, "octets %s: result %d instead of refusal", hex(c).c_str(), r); REQUIRE(calls == 0, "octets %s: transmitted although refused", hex(c).c_str());
}

// ------------------------------------------------------------------ C15
VH_PROP(C15, commands, 250000, 6000000, "SELECT, SELECT next, READ RECORD and GET PROCESSING OPTIONS with parameters in and out of range, both reader modes; non-trivial: the command was permitted and its exact frames and result compared") {
	unsigned op = (unsigned)s.draw(4); bool tpdu = s.chance(1, 2); bool permitted; Bytes cmd, name; uint8_t sfi = 0, rec = 0; bool null_data = false;
	size_t cap = s.chance(1, 5) ? s.len(1, 260) : s.chance(1, 2) ? 256 : 258; int k = 4;
	if (op < 2) { name = s.bbytes(s.chance(1, 4) ? s.len(0, 40) : s.range(5, 16)); permitted = name.size() >= 5 && name.size() <= 16; cmd = {0, 0xA4, 4, (uint8_t)(op ? 2 : 0), (uint8_t)name.size()}; add(cmd, name); cmd.push_back(0); }
	else if (op == 2) { sfi = s.chance(1, 4) ? s.bbyte() : (uint8_t)s.draw(33); rec = s.bbyte(); permitted = sfi >= 1 && sfi <= 30; cmd = {0, 0xB2, rec, (uint8_t)(sfi << 3 | 4), 0}; k = 2; }
	else {
		null_data = s.chance(1, 5);
		if (null_data) name = {0x83, 0}; else { size_t n = s.chance(1, 3) ? s.range(240, 255) : s.len(2, 40); if (s.chance(1, 10)) n = s.pickl<size_t>({0, 1, 256, 257, 300, 511, 512, 514}); name.push_back(s.chance(1, 8) ? s.bbyte() : 0x83); while (name.size() < n) name.push_back((uint8_t)name.size()); name.resize(n); }
		permitted = name.size() >= 2 && name.size() <= 255 && name[0] == 0x83; cmd = {0x80, 0xA8, 0, 0, (uint8_t)name.size()}; add(cmd, name); cmd.push_back(0);
	}
	if (cap < 256) permitted = false;
	Sim m; if (permitted) m.init(s, tpdu, cmd, k, 258); else { m.s = &s; m.tpdu = tpdu; m.st = ERR; m.kase = k; m.cap = 258; m.last_header = {0, 0}; }
	m.wild = s.chance(1, 3) ? 8 : 0;
	struct emv_ttl_t t; m.attach(&t); Exact in(name), out(cap); size_t n = cap; uint16_t sw = 0x1234; int r;
	switch (op) { case 0: r = emv_ttl_select_by_df_name(&t, in.p, in.n, out.p, &n, &sw); break; case 1: r = emv_ttl_select_by_df_name_next(&t, in.p, in.n, out.p, &n, &sw); break; case 2: r = emv_ttl_read_record(&t, sfi, rec, out.p, &n, &sw); break; default: r = emv_ttl_get_processing_options(&t, null_data ? nullptr : in.p, null_data ? s.draw(3) : in.n, out.p, &n, &sw); }
	if (s.want()) s.desc(fmt("operation %u parameter %s sfi %u record %u capacity %zu: ", op, hex(name).c_str(), sfi, rec, cap) + m.log);
	if (!m.err.empty()) fails(m.err);
	if (!permitted) { REQUIRE(r < 0, "operation %u with parameter %s (sfi %u, capacity %zu) is not refused: %d", op, hex(name).c_str(), sfi, cap, r); s.label("refused"); return; }
	if (m.st == UNJUDGED) return;
	REQUIRE(m.ex > 0, "operation %u with parameter %s sfi %u capacity %zu refused with %d", op, hex(name).c_str(), sfi, cap, r);
	s.nontrivial();
	if (m.st == RUN) fail("operation %u returned %d before the exchange ended", op, r);
	if (m.st == ERR) { REQUIRE(r != 0, "operation %u succeeds although the exchange failed", op); s.label("error"); return; }
	REQUIRE(r == 0, "operation %u failed with %d", op, r); REQUIRE(sw == m.sw, "operation %u status %04X expected %04X", op, sw, m.sw);
	REQUIRE(n == m.acc.size() && Bytes(out.p, out.p + n) == m.acc, "operation %u gives %zu octets %s expected %s", op, n, hex(out.p, std::min(n, cap)).c_str(), hex(m.acc).c_str()); s.label("answered");
}
VH_ENUM(C15, read_record_all, 65536, "every file identifier and record number") {
	uint8_t sfi = (uint8_t)(s.index >> 8), rec = (uint8_t)s.index; s.nontrivial();
	struct Rec { Bytes seen; int calls = 0; static int cb(void* c, const void* tx, size_t n, void* rx, size_t* rl) { Rec* r = (Rec*)c; r->seen.assign((const uint8_t*)tx, (const uint8_t*)tx + n); ++r->calls; uint8_t a[] = {0x70, 0x01, 0x55, 0x90, 0}; memcpy(rx, a, 5); *rl = 5; return 0; } } q;
	struct emv_ttl_t t; memset(&t, 0, sizeof t); t.cardreader.mode = EMV_CARDREADER_MODE_APDU; t.cardreader.ctx = &q; t.cardreader.trx = Rec::cb;
	uint8_t out[256]; size_t n = 256; uint16_t sw = 0; int r = emv_ttl_read_record(&t, sfi, rec, out, &n, &sw);
	if (sfi < 1 || sfi > 30) { REQUIRE(r < 0 && !q.calls, "file %u record %u not refused", sfi, rec); return; }
	REQUIRE(r == 0 && q.calls == 1 && q.seen == (Bytes{0, 0xB2, rec, (uint8_t)(sfi << 3 | 4), 0}), "file %u record %u: result %d, sent %s", sfi, rec, r, hex(q.seen).c_str());
	REQUIRE(n == 3 && sw == 0x9000, "response length %zu status %04X", n, sw);
}
