// Independent reference decoder/encoder for BER-TLV data, shared by the harnesses.
#ifndef MODEL_H
#define MODEL_H
#include "vh.h"
namespace model {
using vh::Bytes; using vh::Src;

struct El { unsigned tag = 0; bool constructed = false; uint8_t cls = 0; size_t hdr = 0; size_t len = 0; size_t total = 0; bool indefinite = false; };

// tag octets per X.690 8.1.2, at most four octets; returns octets used, 0 when there is no data, -1 on error
inline int tag(const uint8_t* p, size_t n, unsigned* out) {
	if (!n) return 0;
	unsigned t = p[0];
	if ((p[0] & 0x1F) != 0x1F) { *out = t; return 1; }
	for (size_t i = 1; ; ++i) {
		if (i >= n) return -1;          // truncated
		if (i >= 4) return -1;          // more octets than the output holds
		t = t << 8 | p[i];
		if (!(p[i] & 0x80)) { *out = t; return (int)i + 1; }
	}
}

// one element; returns consumed octets, 0 for no data, -1 for anything that is not a complete element
inline int element(const uint8_t* p, size_t n, El* e, int depth = 0) {
	if (!n) return 0;
	int t = tag(p, n, &e->tag);
	if (t <= 0) return -1;
	size_t o = t;
	e->cls = p[0] & 0xC0; e->constructed = p[0] & 0x20; e->indefinite = false;
	if (o >= n) return -1;
	uint8_t l = p[o++];
	if (l == 0x80) {
		if (!e->constructed) return -1;
		e->indefinite = true; e->hdr = o; size_t q = o;
		for (;;) {
			if (n - q >= 2 && p[q] == 0 && p[q + 1] == 0) { e->len = q - o; e->total = q + 2; return (int)e->total; }
			El in; int r = element(p + q, n - q, &in, depth + 1);
			if (r <= 0) return -1;
			if (in.tag == 0) return -1; // universal 0 is reserved for end-of-contents
			q += r;
		}
	}
	uint64_t len;
	if (l & 0x80) {
		size_t c = l & 0x7F; if (c > 4) return -1;
		if (n - o < c) return -1;
		len = 0; for (size_t i = 0; i < c; ++i) len = len << 8 | p[o++];
	} else len = l;
	if (len > n - o) return -1;
	e->hdr = o; e->len = len; e->total = o + len;
	return (int)e->total;
}

struct Field { unsigned tag; Bytes value; bool operator==(const Field& o) const { return tag == o.tag && value == o.value; } };

// flatten; returns true when the data is well-formed
inline bool flatten(const uint8_t* p, size_t n, std::vector<Field>& out, int* depth = nullptr, int d = 0) {
	if (depth && d > *depth) *depth = d;
	size_t o = 0;
	while (o < n) {
		El e; int r = element(p + o, n - o, &e);
		if (r <= 0) return false;
		if (e.constructed) { if (!flatten(p + o + e.hdr, e.len, out, depth, d + 1)) return false; }
		else out.push_back({e.tag, Bytes(p + o + e.hdr, p + o + e.hdr + e.len)});
		o += r;
	}
	return true;
}
inline bool flatten(const Bytes& b, std::vector<Field>& out, int* depth = nullptr) { return flatten(b.data(), b.size(), out, depth); }

inline void put_tag(Bytes& b, unsigned t) {
	if (t > 0xFFFFFF) b.push_back(t >> 24);
	if (t > 0xFFFF) b.push_back(t >> 16);
	if (t > 0xFF) b.push_back(t >> 8);
	b.push_back(t);
}
inline void put_len(Bytes& b, size_t l) {
	if (l < 128) b.push_back(l);
	else if (l < 256) { b.push_back(0x81); b.push_back(l); }
	else { b.push_back(0x82); b.push_back(l >> 8); b.push_back(l); }
}
inline Bytes tlv(unsigned t, const Bytes& v) { Bytes b; put_tag(b, t); put_len(b, v.size()); b.insert(b.end(), v.begin(), v.end()); return b; }
inline void add(Bytes& b, const Bytes& c) { b.insert(b.end(), c.begin(), c.end()); }
inline Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// length octets in a randomly chosen legal form
inline void gen_len(Src& s, Bytes& b, size_t l) {
	unsigned k = s.weighted({8, 1, 1, 1, 1});
	if (k == 0) { put_len(b, l); return; }
	unsigned need = l < 256 ? 1 : l < 65536 ? 2 : 3; unsigned c = std::max(need, k);
	b.push_back(0x80 | c); for (unsigned i = c; i--;) b.push_back(l >> (8 * i));
}
inline void gen_tag(Src& s, Bytes& b, bool constructed) {
	static const unsigned prim[] = {0x4F, 0x50, 0x57, 0x5A, 0x82, 0x84, 0x87, 0x88, 0x8C, 0x8D, 0x8E, 0x8F, 0x94, 0x95, 0x9A, 0x9C, 0x9F02, 0x9F12, 0x9F38, 0x5F2D, 0x5F24, 0x9F4D, 0xDF01, 0x9F8101, 0xDF8129, 0x9F81817F, 0x02, 0x04};
	static const unsigned cons[] = {0x61, 0x6F, 0x70, 0x77, 0xA5, 0x73, 0xBF0C, 0x30, 0x31, 0xE1, 0x7F21, 0xBF8102};
	if (!s.chance(1, 4)) { put_tag(b, constructed ? cons[s.draw(sizeof cons / sizeof *cons)] : prim[s.draw(sizeof prim / sizeof *prim)]); return; }
	uint8_t f = (uint8_t)(s.draw(4) << 6) | (constructed ? 0x20 : 0);
	if (s.chance(1, 2)) { f |= 0x1F; b.push_back(f); unsigned n = (unsigned)s.range(1, 3); for (unsigned i = 0; i < n; ++i) b.push_back((s.byte() & 0x7F) | (i + 1 < n ? 0x80 : 0)); }
	else { uint8_t x = (uint8_t)s.draw(31); if (!f && !x) x = 4; b.push_back(f | x); }
}
// random well-formed data of a bounded size
inline void gen_data(Src& s, Bytes& b, int depth, size_t budget) {
	unsigned n = (unsigned)s.range(0, depth > 3 ? 2 : 4);
	for (unsigned i = 0; i < n && b.size() < budget; ++i) {
		if (depth < 6 && s.chance(2, 5)) {
			Bytes in; gen_data(s, in, depth + 1, budget / 2);
			gen_tag(s, b, true);
			if (s.chance(1, 5)) { b.push_back(0x80); add(b, in); b.push_back(0); b.push_back(0); }
			else { gen_len(s, b, in.size()); add(b, in); }
		} else {
			gen_tag(s, b, false);
			size_t l = s.len(0, s.chance(1, 12) ? 300 : 20); gen_len(s, b, l);
			for (size_t k = 0; k < l; ++k) b.push_back(l > 40 ? (uint8_t)(k * 7 + l) : s.bbyte());
		}
	}
}
// structural damage
inline void corrupt(Src& s, Bytes& b) {
	unsigned n = (unsigned)s.range(1, 2);
	while (n--) {
		switch (s.draw(7)) {
			case 6: { // a length so large that adding it to an offset wraps
				if (b.empty()) break; size_t i = s.draw(b.size()); unsigned c = (unsigned)s.pickl<uint64_t>({4, 4, 4, 2, 8}); Bytes l{(uint8_t)(0x80 | c)}; for (unsigned k = 1; k < c; ++k) l.push_back(0xFF); l.push_back((uint8_t)(0x100 - s.range(1, 40)));
				b.erase(b.begin() + i); b.insert(b.begin() + i, l.begin(), l.end()); break; }
			case 0: if (!b.empty()) b.resize(s.draw(b.size())); break;
			case 1: if (!b.empty()) b[s.draw(b.size())] = s.bbyte(); break;
			case 2: b.insert(b.begin() + s.draw(b.size() + 1), s.bbyte()); break;
			case 3: if (!b.empty()) b.erase(b.begin() + s.draw(b.size())); break;
			case 4: { if (b.empty()) break; size_t i = s.draw(b.size()); b[i] ^= 1u << s.draw(8); break; }
			default: b.push_back(s.bbyte()); break;
		}
	}
}
} // namespace model
#endif
