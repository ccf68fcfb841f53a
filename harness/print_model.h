// What print_helpers.c is to print: fields, lists, DOLs, ATR, APDUs, application lines and debug events (C31, C35)
#ifndef PRINT_MODEL_H
#define PRINT_MODEL_H
#include "vh.h"
#include "model.h"
#include "tool_common.h"
#include "tlv_gen.h"
extern "C" {
#include "iso7816.h"
#include "iso7816_strings.h"
#include "iso7816_compact_tlv.h"
#include "iso8825_ber.h"
#include "emv_tlv.h"
#include "emv_app.h"
#include "emv_strings.h"
#include "emv_debug.h"
}
using namespace vh; using namespace model;

// ---------------------------------------------------------------- model
static void rep(std::string& o, const char* prefix, unsigned depth) { for (unsigned i = 0; i < depth; ++i) o += prefix ? prefix : ""; }
static void hexsp(std::string& o, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) o += fmt(" %02X", p[i]); }
static std::vector<std::string> split(const std::string& t, const std::string& delim) {
	std::vector<std::string> v; std::string c; for (char x : t) { if (delim.find(x) != std::string::npos) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; } if (!c.empty()) v.push_back(c); return v;
}
static std::string oid_text(const uint8_t* p, size_t n) { // "" when not decodable
	std::vector<uint64_t> sub; unsigned __int128 a = 0; bool open = false;
	for (size_t i = 0; i < n; ++i) {
		if (!open && p[i] == 0x80) { // redundant octet, may be refused or not
			struct iso8825_oid_t d; if (iso8825_ber_oid_decode(p, n, &d)) return "";
			std::string o = " {"; for (unsigned k = 0; k < d.length; ++k) o += fmt("%s%u", k ? " " : "", d.value[k]); return o + "}";
		}
		a = a << 7 | (p[i] & 0x7F); open = p[i] & 0x80;
		if (a > ((unsigned __int128)1 << 40)) return "";
		if (!open) { sub.push_back((uint64_t)a); a = 0; }
	}
	if (open || sub.empty()) return "";
	std::vector<uint64_t> arcs; uint64_t f = sub[0]; unsigned first = f < 40 ? 0 : f < 80 ? 1 : 2; arcs.push_back(first); arcs.push_back(f - first * 40);
	arcs.insert(arcs.end(), sub.begin() + 1, sub.end());
	for (auto x : arcs) if (x > 0xFFFFFFFFull) return "";
	if (arcs.size() > 10) return "";
	std::string o = " {"; for (size_t i = 0; i < arcs.size(); ++i) o += (i ? " " : "") + std::to_string(arcs[i]); return o + "}";
}
static const std::set<unsigned> STRTAGS = {7, 12, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30};
static const char ERRMARK[] = "BER decoding error "; // followed by a number that is not specified

static void list_text(std::string& o, const std::string& t, const char* prefix, unsigned depth) { for (auto& l : split(t, "\n")) { rep(o, prefix, depth); o += "- " + l + "\n"; } }
static void m_dol(std::string& o, const uint8_t* p, size_t n, const char* prefix, unsigned depth) {
	rep(o, prefix, depth); o += "Data Object List:\n";
	size_t i = 0;
	while (i < n) {
		unsigned tag; int r = model::tag(p + i, n - i, &tag); if (r <= 0 || i + r >= n) break;
		unsigned l = p[i + r]; i += r + 1;
		Info in = info_of(tag, nullptr, l, false);
		rep(o, prefix, depth + 1); o += in.name ? fmt("%02X | %s [%u]\n", tag, in.name, l) : fmt("%02X [%u]\n", tag, l);
	}
}
static void m_taglist(std::string& o, const uint8_t* p, size_t n, const char* prefix, unsigned depth) {
	rep(o, prefix, depth); o += "Tag List:\n";
	size_t i = 0;
	while (i < n) {
		unsigned tag; int r = model::tag(p + i, n - i, &tag); if (r <= 0) break; i += r;
		Info in = info_of(tag, nullptr, 0, false);
		rep(o, prefix, depth + 1); o += in.name ? fmt("%02X | %s\n", tag, in.name) : fmt("%02X\n", tag);
	}
}
struct Stat { unsigned fields = 0; int depth = 0; bool bad = false, padding = false, rich = false; };
static void m_field_text(std::string& o, unsigned tag, const uint8_t* v, size_t n, const Info& in, const char* prefix, unsigned depth, Stat& st) {
	bool list = !in.text.empty() && in.text.back() == '\n';
	if (in.text.empty() || list) {
		o += "\n"; if (list) { list_text(o, in.text, prefix, depth + 1); st.rich = true; }
		if (in.format == EMV_FORMAT_DOL) { m_dol(o, v, n, prefix, depth + 1); st.rich = true; }
		if (in.format == EMV_FORMAT_TAG_LIST) { m_taglist(o, v, n, prefix, depth + 1); st.rich = true; }
	} else {
		bool q = in.format == EMV_FORMAT_A || in.format == EMV_FORMAT_AN || in.format == EMV_FORMAT_ANS; st.rich = true;
		o += (q ? " \"" : " (") + in.text + (q ? "\"\n" : ")\n");
	}
}
static size_t m_tlv(std::string& o, const uint8_t* p, size_t n, const char* prefix, unsigned depth, bool pad, bool emv, Stat& st) {
	size_t i = 0; st.depth = std::max(st.depth, (int)depth);
	while (i < n) {
		El e; int r = element(p + i, n - i, &e);
		if (r <= 0) {
			size_t rest = n - i; st.bad = true;
			if (pad && ((n % 8 == 0 && rest < 8) || (n % 16 == 0 && rest < 16))) {
				rep(o, prefix, depth); o += fmt("Padding : [%zu]", rest); hexsp(o, p + i, rest); o += "\n"; st.padding = true; return n;
			}
			o += ERRMARK; return i;
		}
		++st.fields; const uint8_t* v = p + i + e.hdr;
		rep(o, prefix, depth);
		Info in{nullptr, EMV_FORMAT_B, ""}; if (emv) in = info_of(e.tag, v, e.len, true);
		o += in.name ? fmt("%02X | %s : [%zu]", e.tag, in.name, e.len) : fmt("%02X : [%zu]", e.tag, e.len);
		if (e.constructed) {
			o += "\n"; size_t k = m_tlv(o, v, e.len, prefix, depth + 1, pad, emv, st);
			if (k < e.len) return i + e.hdr + k;
		} else {
			hexsp(o, v, e.len);
			if (emv) m_field_text(o, e.tag, v, e.len, in, prefix, depth, st);
			else {
				if (STRTAGS.count(e.tag)) { if (e.len < 1024) { o += " \""; o += std::string((const char*)v, strnlen((const char*)v, e.len)); o += "\""; } else o += " \"...\""; st.rich = true; }
				else if (e.tag == 6) { std::string t = oid_text(v, e.len); o += t; if (!t.empty()) st.rich = true; }
				o += "\n";
			}
		}
		i += e.total;
	}
	return n;
}
static void m_top(std::string& o, const uint8_t* p, size_t n, const char* prefix, unsigned depth, bool pad, bool emv, Stat& st) {
	size_t v = m_tlv(o, p, n, prefix, depth, pad, emv, st);
	if (v < n) { o += fmt(" at offset %zu; remaining invalid data:", v); hexsp(o, p + v, n - v); o += "\n"; }
}
// compare with the number after the error mark left open
static std::string normal(const std::string& t) {
	std::string o; size_t i = 0, m = sizeof ERRMARK - 1;
	while (i < t.size()) { if (!t.compare(i, m, ERRMARK)) { o += ERRMARK; i += m; if (i < t.size() && t[i] == '-') ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i; } else o += t[i++]; }
	return o;
}
static void same(const char* what, const Bytes& in, const std::string& got0, const std::string& exp) {
	std::string got = normal(got0); if (got == exp) return;
	size_t k = 0; while (k < got.size() && k < exp.size() && got[k] == exp[k]) ++k;
	fails(fmt("%s of %s\nprints   ...%s\nexpected ...%s", what, hex(in).substr(0, 1500).c_str(), around(got, k).c_str(), around(exp, k).c_str()));
}

static void hexof(std::string& o, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) o += fmt("%02X", p[i]); }
static std::string m_capdu(const uint8_t* p, size_t n) { if (!n) return "(null)\n"; char str[1024]; std::string o; hexof(o, p, n); return emv_capdu_get_string(p, n, str, sizeof str) ? o + "\n" : o + " (" + str + ")\n"; }
static std::string m_rapdu(const uint8_t* p, size_t n) { if (!n) return "(null)\n"; char str[1024]; std::string o; hexof(o, p, n); const char* t = n < 2 ? nullptr : iso7816_sw1sw2_get_string(p[n - 2], p[n - 1], str, sizeof str); return t && *t ? o + " (" + t + ")\n" : o + "\n"; }
static std::string m_app(const struct emv_app_t* a) { std::string o = "Application: "; hexof(o, a->aid->value, a->aid->length); o += std::string(", ") + a->display_name; if (a->priority) o += fmt(", Priority %u", a->priority); if (a->confirmation_required) o += ", Cardholder confirmation required"; return o + "\n"; }
// one field as print_emv_tlv shows it, without the children of a template
static void m_field(std::string& o, const struct emv_tlv_t* t, const char* prefix, unsigned depth, Stat& st) {
	const uint8_t* v = t->value; size_t n = t->length; Info in = info_of(t->tag, v, n, true); rep(o, prefix, depth); o += in.name ? fmt("%02X | %s : [%zu]", t->tag, in.name, n) : fmt("%02X : [%zu]", t->tag, n);
	if (t->tag && (((t->tag > 0xFFFFFF ? t->tag >> 24 : t->tag > 0xFFFF ? t->tag >> 16 : t->tag > 0xFF ? t->tag >> 8 : t->tag) & 0x20))) { o += "\n"; m_top(o, v, n, prefix, depth + 1, false, true, st); return; }
	hexsp(o, v, n); m_field_text(o, t->tag, v, n, in, prefix, depth, st);
}
static std::string m_atr(const struct iso7816_atr_info_t* a, const Bytes& b) {
	std::string o = "ATR: "; char str[1024]; for (uint8_t c : b) o += fmt("%02X", c); o += "\n";
	o += fmt("  TS  = 0x%02X: %s\n", b[0], iso7816_atr_TS_get_string(a)); o += fmt("  T0  = 0x%02X: %s\n", b[1], iso7816_atr_T0_get_string(a, str, sizeof str));
	typedef const char* (*G)(const struct iso7816_atr_info_t*, size_t, char*, size_t); static const G g[] = {iso7816_atr_TAi_get_string, iso7816_atr_TBi_get_string, iso7816_atr_TCi_get_string, iso7816_atr_TDi_get_string};
	// interface bytes straight from the ATR
	int val[5][4]; for (auto& r : val) for (int& v : r) v = -1; size_t p = 2; uint8_t y = b[1];
	for (unsigned i = 1; i < 5; ++i) { bool more = false; for (unsigned k = 0; k < 4; ++k) if (y & (0x10 << k)) { val[i][k] = b[p++]; if (k == 3) { y = (uint8_t)val[i][k]; more = true; } } if (!more) break; }
	for (unsigned i = 1; i < 5; ++i) {
		bool any = i < 3; for (int v : val[i]) any |= v >= 0; if (any) o += "  ----\n";
		for (unsigned k = 0; k < 4; ++k) { if (val[i][k] >= 0) o += fmt("  T%c%u = 0x%02X: %s\n", 'A' + k, i, val[i][k], g[k](a, i, str, sizeof str)); else if (i < 3 && k < 3) o += fmt("  T%c%u absent: %s\n", 'A' + k, i, g[k](a, i, str, sizeof str)); }
	}
	unsigned K = b[1] & 15;
	if (K) {
		uint8_t T1 = b[p]; o += "  ----\n"; o += fmt("  T1  = 0x%02X: %s\n", T1, iso7816_atr_T1_get_string(a)); size_t q = p + 1, e = p + K; if (T1 == 0) e -= 3;
		if (T1 != 0 && T1 != 0x80) { o += "  Historical bytes: "; for (; q < e; ++q) o += fmt("%02X", b[q]); o += "\n"; }
		else {
			while (q < e) {
				unsigned t = b[q] >> 4, l = b[q] & 15; if (q + 1 + l > e) break; const uint8_t* v = &b[q + 1];
				o += fmt("  %s (0x%X): [%u] ", iso7816_compact_tlv_tag_get_string((uint8_t)t), t, l); for (unsigned i = 0; i < l; ++i) o += fmt("%s%02X", i ? " " : "", v[i]); o += "\n"; int r = -1;
				if (t == 3 && l) r = iso7816_card_service_data_get_string_list(v[0], str, sizeof str); if (t == 7) r = iso7816_card_capabilities_get_string_list(v, l, str, sizeof str);
				if (r == 0) list_text(o, str, "  ", 2); q += 1 + l;
			}
			if (q != e) o += "Failed to parse ATR historical bytes\n";
		}
		if (a->status_indicator_bytes) { o += "  ----\n"; o += fmt("  LCS = %02X: %s\n", a->status_indicator.LCS, iso7816_lcs_get_string(a->status_indicator.LCS)); if (a->status_indicator.SW1 || a->status_indicator.SW2) o += fmt("  SW  = %02X%02X: (%s)\n", a->status_indicator.SW1, a->status_indicator.SW2, iso7816_sw1sw2_get_string(a->status_indicator.SW1, a->status_indicator.SW2, str, sizeof str)); }
	}
	o += fmt("  ----\n  TCK = 0x%02X\n", a->TCK); return o;
}
static void m_list(std::string& o, const struct emv_tlv_list_t& l) { Stat st; for (const struct emv_tlv_t* t = l.front; t; t = t->next) m_field(o, t, "  ", 1, st); }
static const char* m_source(unsigned src) { return src == EMV_DEBUG_SOURCE_TTL ? "TTL" : src == EMV_DEBUG_SOURCE_TAL ? "TAL" : src == EMV_DEBUG_SOURCE_EMV ? "EMV" : src == EMV_DEBUG_SOURCE_APP ? "APP" : "???"; }
static const char* m_level(unsigned l) { return l == EMV_DEBUG_ERROR ? "ERROR" : l == EMV_DEBUG_INFO ? "INFO" : l == EMV_DEBUG_CARD ? "CARD" : l == EMV_DEBUG_TRACE ? "TRACE" : "????"; }
static std::string m_event(bool verbose, unsigned ts, unsigned src, unsigned level, unsigned type, const char* str, const void* buf, size_t n) {
	std::string o = verbose ? fmt("[%010u,%s,%s] ", ts, m_source(src), m_level(level)) : fmt("[%s] ", m_source(src)); const uint8_t* p = (const uint8_t*)buf; Stat st;
	if (type == EMV_DEBUG_TYPE_MSG) return o + str + "\n";
	if (type == EMV_DEBUG_TYPE_ATR) { const struct iso7816_atr_info_t* a = (const struct iso7816_atr_info_t*)buf; return o + m_atr(a, Bytes(a->atr, a->atr + a->atr_len)); }
	o += std::string(str) + ": "; if (type == EMV_DEBUG_TYPE_CAPDU) return o + m_capdu(p, n); if (type == EMV_DEBUG_TYPE_RAPDU) return o + m_rapdu(p, n);
	if (buf) hexof(o, p, n); else o += "(null)"; o += "\n"; if (type == EMV_DEBUG_TYPE_TLV) m_top(o, p, n, "  ", 1, false, true, st); return o;
}
#endif
