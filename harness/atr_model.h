// independent model of ISO 7816-3 answer to reset parsing, and a generator of answers to reset
#pragma once
#include "vh.h"
#include "model.h"
extern "C" {
#include "iso7816.h"
}
namespace atrm {
using vh::Bytes; using vh::Src; using model::corrupt;
using model::add;
struct Atr {
	bool ok = false, judged = true; uint8_t b[33] = {0}; size_t n = 0;
	int TA[5], TB[5], TC[5], TD[5]; size_t pA[5] = {0}, pB[5] = {0}, pC[5] = {0}, pD[5] = {0};
	unsigned K = 0; int T1 = -1; size_t hist = 0, histlen = 0; size_t si = 0, silen = 0; bool has_si = false, si_judged = true; int TCK = -1; bool tck = false;
	unsigned Di = 1, Fi = 372; float fmax = 5; bool vpp = true; unsigned Vpp = 5000, Ipp = 50; unsigned N = 0, proto = 0; bool spec = false; unsigned spec_proto = 0; bool implicit = false, may = false; unsigned classes = 1, clk = 0, spu = 0, WI = 10, IFSI = 32, CWI = 13, BWI = 4; bool crc = false;
};
static Atr atr_model(const Bytes& a) {
	Atr m; for (int i = 0; i < 5; ++i) m.TA[i] = m.TB[i] = m.TC[i] = m.TD[i] = -1;
	m.n = a.size(); if (m.n < 2 || m.n > 33) return m;
	memcpy(m.b, a.data(), m.n);
	if (a[0] != 0x3B && a[0] != 0x3F) return m;
	m.K = a[1] & 15; unsigned Y = a[1] >> 4; size_t p = 2; unsigned T = 0; bool nonzeroT = false; bool bad = false; unsigned seen1a = 0, seen1b = 0, seen1c = 0, seen15a = 0, seen15b = 0;
	for (int i = 1; i <= 5; ++i) {
		if (i == 5) { if (Y) bad = true; break; } // more interface bytes than can be represented
		auto get = [&](bool pr, int* v, size_t* pos) { if (!pr) return; if (p >= m.n) { bad = true; return; } *v = a[p]; *pos = p++; };
		get(Y & 1, &m.TA[i], &m.pA[i]); get(Y & 2, &m.TB[i], &m.pB[i]); get(Y & 4, &m.TC[i], &m.pC[i]); get(Y & 8, &m.TD[i], &m.pD[i]);
		if (bad) break;
		static const int D[16] = {0, 1, 2, 4, 8, 16, 32, 64, 12, 20, 0, 0, 0, 0, 0, 0};
		static const int F[16] = {372, 372, 558, 744, 1116, 1488, 1860, 0, 0, 512, 768, 1024, 1536, 2048, 0, 0};
		static const float X[16] = {4, 5, 6, 8, 12, 16, 20, 0, 0, 5, 7.5f, 10, 15, 20, 0, 0};
		if (i == 1) {
			if (m.TA[1] >= 0) { m.Di = D[m.TA[1] & 15]; m.Fi = F[m.TA[1] >> 4]; m.fmax = X[m.TA[1] >> 4]; if (!m.Di || !m.Fi) bad = true; }
			if (m.TB[1] >= 0) { if (!m.TB[1]) m.vpp = false; else { unsigned pi = m.TB[1] & 31, ii = m.TB[1] >> 5 & 3; if (pi < 5 || pi > 25 || ii == 3) bad = true; m.Vpp = pi * 1000; m.Ipp = ii == 0 ? 25 : ii == 1 ? 50 : 100; } }
			if (m.TC[1] >= 0) m.N = m.TC[1];
		} else if (i == 2) {
			if (m.TA[2] >= 0) { m.spec = true; m.spec_proto = m.TA[2] & 15; m.implicit = m.TA[2] & 0x10; m.may = !(m.TA[2] & 0x80); }
			if (m.TB[2] >= 0) { if (!m.vpp || m.TB[2] < 50 || m.TB[2] > 250) bad = true; m.Vpp = m.TB[2] * 100; }
			if (m.TC[2] >= 0) { if (!m.TC[2]) bad = true; m.WI = m.TC[2]; }
		} else {
			if (T == 1) {
				if (m.TA[i] >= 0) { if (seen1a++) m.judged = false; if (m.TA[i] == 0 || m.TA[i] == 255) bad = true; m.IFSI = m.TA[i]; }
				if (m.TB[i] >= 0) { if (seen1b++) m.judged = false; m.CWI = m.TB[i] & 15; m.BWI = m.TB[i] >> 4; if (m.BWI > 9) bad = true; }
				if (m.TC[i] >= 0) { if (seen1c++) m.judged = false; m.crc = m.TC[i] & 1; }
			} else if (T == 15) {
				if (m.TA[i] >= 0) { if (seen15a++) m.judged = false; unsigned y = m.TA[i] & 0x3F; if (y < 1 || y > 7) bad = true; if (y == 5) m.judged = false; m.classes = y; m.clk = m.TA[i] >> 6; }
				if (m.TB[i] >= 0) { if (seen15b++) m.judged = false; m.spu = !m.TB[i] ? ISO7816_SPU_NOT_USED : m.TB[i] & 0x80 ? ISO7816_SPU_PROPRIETARY : ISO7816_SPU_STANDARD; }
			}
		}
		if (m.TD[i] < 0) break;
		T = m.TD[i] & 15; if (i == 1) { if (T > 1) bad = true; m.proto = T; } else if (T != 0 && T != 1 && T != 15) bad = true;
		if (T) nonzeroT = true;
		Y = m.TD[i] >> 4;
	}
	if (bad) return m;
	if (p + m.K > m.n) return m;
	if (m.K) {
		m.T1 = a[p]; m.hist = p + 1; m.histlen = m.K - 1;
		if (m.T1 == 0x00) { if (m.histlen < 3) return m; m.histlen -= 3; m.has_si = true; m.si = m.hist + m.histlen; m.silen = 3; }
		if (m.T1 == 0x00 || m.T1 == 0x80) {
			size_t o = m.hist, e = m.hist + m.histlen;
			while (o < e) { size_t l = a[o] & 15; if (o + 1 + l > e) return m; if (a[o] >> 4 == 8) { if (m.has_si) m.si_judged = false; m.has_si = true; m.si = o + 1; m.silen = l; } o += 1 + l; }
		}
		p += m.K;
	}
	m.tck = nonzeroT;
	if (m.tck) { if (p >= m.n) return m; m.TCK = a[p++]; uint8_t x = 0; for (size_t i = 1; i < p; ++i) x ^= a[i]; if (x) return m; }
	m.ok = true; return m;
}
static Bytes gen_atr(Src& s, bool emvish) {
	Bytes a; a.push_back(s.chance(1, 25) ? s.bbyte() : s.chance(1, 2) ? 0x3B : 0x3F); a.push_back(0);
	unsigned levels = (unsigned)s.weighted({3, 4, 5, 3, 2}); unsigned T = 0; size_t ypos = 1; bool need = false;
	for (unsigned i = 1; i <= 4; ++i) {
		uint8_t y = 0; bool last = i > levels;
		if (last && s.chance(2, 3)) break;
		if (s.chance(1, 2)) { y |= 1; uint8_t v; if (i == 1) v = emvish ? s.pickl<uint8_t>({0x11, 0x12, 0x13, 0x18, 0x96, 0x95, 0x94, 0x01, 0x02, 0x10, 0x21, 0x33}) : (uint8_t)(s.pickl({0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13}) << 4 | s.range(1, 9)); else if (i == 2) v = emvish ? (uint8_t)(T | (s.chance(1, 2) ? 0x80 : 0) | (s.chance(1, 8) ? 0x10 : 0)) : s.byte(); else if (T == 15) v = (uint8_t)(s.draw(4) << 6 | s.range(1, 7)); else v = emvish ? s.pickl<uint8_t>({0x10, 0x20, 0xFE, 0x0F, 0x0E, 0x80}) : (uint8_t)s.range(1, 254); if (s.chance(1, 20)) v = s.bbyte(); a.push_back(v); }
		if (s.chance(i >= 3 && emvish ? 3 : 2, 4)) { y |= 2; uint8_t v; if (i == 1) v = s.chance(1, 2) ? 0 : (uint8_t)(s.range(5, 25) | s.draw(3) << 5); else if (i == 2) v = (uint8_t)s.range(50, 250); else if (T == 15) v = s.pickl<uint8_t>({0, 1, 0x80, 0x81, 0x7F}); else v = emvish ? (uint8_t)(s.draw(6) << 4 | s.draw(7)) : (uint8_t)(s.draw(10) << 4 | s.draw(16)); if (s.chance(1, 20)) v = s.bbyte(); a.push_back(v); }
		if (s.chance(1, 2)) { y |= 4; uint8_t v; if (i == 1) v = emvish ? s.pickl<uint8_t>({0, 0xFF, 0, 0xFF, 1, 0xFE}) : s.bbyte(); else if (i == 2) v = emvish ? (s.chance(1, 6) ? s.bbyte() : 0x0A) : (uint8_t)s.range(1, 255); else v = emvish ? (s.chance(1, 6) ? 1 : 0) : s.bbyte(); if (s.chance(1, 25)) v = s.bbyte(); a.push_back(v); }
		a[ypos] |= y << 4;
		if (i <= levels) { a[ypos] |= 0x80; if (i == 1) T = (unsigned)s.draw(2); else T = s.chance(1, 12) ? (unsigned)s.draw(16) : emvish && i == 2 ? (T ? 1 : 15) : s.pickl<unsigned>({0, 1, 15}); if (T) need = true; ypos = a.size(); a.push_back((uint8_t)T); } else break;
	}
	if (levels == 4 && s.chance(1, 6)) { a[ypos] |= (uint8_t)(s.range(1, 15) << 4); add(a, s.bytes(3)); }
	unsigned K = (unsigned)(s.chance(1, 4) ? 0 : s.draw(16)); Bytes h;
	if (K) {
		uint8_t t1 = s.pickl<uint8_t>({0x80, 0x00, 0x10, 0x65, 0x80, 0x00, 0x31, 0x8F}); h.push_back(t1);
		size_t room = K - 1; if (t1 == 0 && room >= 3) room -= 3;
		if (t1 == 0x80 || t1 == 0) { while (room) { size_t l = std::min<size_t>(room - 1, s.draw(5)); h.push_back((uint8_t)((s.chance(1, 4) ? 8 : s.draw(16)) << 4 | l)); add(h, s.bytes(l)); room -= 1 + l; } }
		while (h.size() < K) h.push_back(s.byte());
	}
	a[1] |= K; add(a, h);
	if (need) { uint8_t x = 0; for (size_t i = 1; i < a.size(); ++i) x ^= a[i]; a.push_back(x); }
	if (s.chance(1, 8)) corrupt(s, a);
	if (s.chance(1, 20) && a.size() > 2) a.resize(a.size() - 1);
	if (s.chance(1, 30)) add(a, s.bytes(s.range(1, 20)));
	return a;
}
}
