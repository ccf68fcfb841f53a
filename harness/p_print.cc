// C31: printing of BER, EMV TLV, DOL, tag lists, ATR and APDU data, and the decode tool around it
#include "vh.h"
#include "model.h"
#include "tlv_gen.h"
#include "print_model.h"
extern "C" {
#include "print_helpers.h"
#include "iso7816.h"
#include "iso7816_strings.h"
#include "iso7816_compact_tlv.h"
#include "iso8825_ber.h"
#include "iso8859.h"
#include "emv_tlv.h"
#include "emv_app.h"
#include "emv_strings.h"
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
int emv_decode_main(int argc, char** argv);
}
using namespace vh; using namespace model;

static const char* PREFIX[] = {"  ", "", "\t", "> ", nullptr};
static void check_print(Src& s, const Bytes& b, bool emv, bool pad, const char* prefix, unsigned depth) {
	Stat st; std::string exp; Exact x(b);
	m_top(exp, b.data(), b.size(), prefix, depth, pad, emv, st);
	std::string got = captured([&] { emv ? print_emv_buf(x.p, x.n, prefix, depth, pad) : print_ber_buf(x.p, x.n, prefix, depth, pad); });
	REQUIRE(x.vec() == b, "input modified");
	same(emv ? "print_emv_buf" : "print_ber_buf", b, got, exp);
	if (st.bad) s.label(st.padding ? "padding" : "malformed"); if (st.rich) s.label("explained");
	if (st.fields >= 2 || st.padding || (st.bad && st.fields)) s.nontrivial();
}
VH_PROP(C31, ber, 60000, 3000000, "BER data (ASN.1 strings and object identifiers, random nested fields, noise; cut, corrupted or followed by cipher padding of any length, also inside templates) with and without padding allowed; non-trivial: two fields, padding, or a field before an error") {
	Bytes b = gen_tlv_input(s, false); bool pad = s.chance(1, 2); const char* pre = s.chance(3, 4) ? "  " : s.pick(PREFIX); unsigned d = s.chance(3, 4) ? 0 : (unsigned)s.draw(4);
	if (s.want()) s.desc(fmt("print_ber_buf %s padding %d depth %u", hex(b).c_str(), pad, d)); check_print(s, b, false, pad, pre, d);
}
VH_PROP(C31, emv, 40000, 2000000, "EMV TLV data with every known tag and plausible values, as above; value text from emv_tlv_get_info; non-trivial: as above") {
	Bytes b = gen_tlv_input(s, true); bool pad = s.chance(1, 2); const char* pre = s.chance(3, 4) ? "  " : s.pick(PREFIX); unsigned d = s.chance(3, 4) ? 0 : (unsigned)s.draw(4);
	if (s.want()) s.desc(fmt("print_emv_buf %s padding %d depth %u", hex(b).c_str(), pad, d)); check_print(s, b, true, pad, pre, d);
}
VH_ENUM(C31, padding, 2 * 2 * 40 * 34, "one field of 1 to 40 octets in all followed by 0 to 33 octets of FF, BER and EMV, padding allowed and not") {
	uint64_t i = s.index; bool emv = i & 1, pad = i & 2; i /= 4; size_t n = 1 + i % 40, k = i / 40; Bytes b;
	if (n == 1) b = {}; else { b = {0xC1, (uint8_t)(n - 2)}; for (size_t j = 2; j < n; ++j) b.push_back((uint8_t)j); }
	for (size_t j = 0; j < k; ++j) b.push_back(0xFF);
	if (s.want()) s.desc(hex(b) + (pad ? " padding allowed" : "")); check_print(s, b, emv, pad, "  ", 0); s.nontrivial();
}
VH_PROP(C31, nesting, 1500, 100000, "fields nested 1 to 20000 deep, definite or indefinite length, optionally cut; exact output up to depth 60, otherwise every byte of input accounted for by an orderly end; non-trivial: depth above 3") {
	unsigned depth = s.chance(1, 12) ? (unsigned)s.range(1000, 12000) : s.chance(1, 2) ? (unsigned)s.range(1, 60) : (unsigned)s.range(61, 600);
	bool indef = depth < 2000 && s.chance(1, 3), emv = s.chance(1, 2), pad = s.chance(1, 3); Bytes b;
	if (indef) { for (unsigned i = 0; i < depth; ++i) { b.push_back(0x30); b.push_back(0x80); } add(b, tlv(4, Bytes{1, 2})); for (unsigned i = 0; i < 2 * depth; ++i) b.push_back(0); }
	else { std::vector<Bytes> h; size_t len = 4; Bytes in = tlv(0xC1, Bytes{1, 2}); for (unsigned i = 0; i < depth; ++i) { Bytes x; x.push_back(0x70); put_len(x, len); if (len > 65535) { x = {0x70, 0x83, (uint8_t)(len >> 16), (uint8_t)(len >> 8), (uint8_t)len}; } len += x.size(); h.push_back(x); } for (unsigned i = depth; i--;) add(b, h[i]); add(b, in); }
	if (s.chance(1, 4)) { size_t cut = s.draw(4) + 1; if (indef) b.resize(b.size() - std::min(cut, b.size())); else b[b.size() - cut] ^= 0x9F; }
	if (s.want()) s.desc(fmt("depth %u %s, %zu octets %s", depth, indef ? "indefinite" : "definite", b.size(), hex(b).substr(0, 400).c_str()));
	if (depth > 3) s.nontrivial();
	if (depth <= 60) { check_print(s, b, emv, pad, "", 0); return; }
	Exact x(b); std::string got = captured([&] { emv ? print_emv_buf(x.p, x.n, "", 0, pad) : print_ber_buf(x.p, x.n, "", 0, pad); });
	REQUIRE(!got.empty() && got.back() == '\n', "output of data nested %u deep does not end with a line end", depth);
	s.label("deep");
}
VH_PROP(C31, dol, 30000, 1500000, "DOL and tag list data with known and unknown tags, cut or corrupted; non-trivial: two entries") {
	bool dol = s.chance(1, 2); Bytes b = dol ? gen_dol(s) : gen_taglist(s); if (s.chance(1, 8)) b = s.bytes(s.len(0, 30)); const char* pre = s.chance(3, 4) ? "  " : s.pick(PREFIX); unsigned d = (unsigned)s.draw(3);
	if (s.want()) s.desc(fmt("%s %s", dol ? "dol" : "tag list", hex(b).c_str()));
	std::string exp; dol ? m_dol(exp, b.data(), b.size(), pre, d) : m_taglist(exp, b.data(), b.size(), pre, d); Exact x(b);
	same(dol ? "print_emv_dol" : "print_emv_tag_list", b, captured([&] { dol ? print_emv_dol(x.p, x.n, pre, d) : print_emv_tag_list(x.p, x.n, pre, d); }), exp);
	if (split(exp, "\n").size() > 2) s.nontrivial();
}
VH_PROP(C31, field_list, 20000, 800000, "fields and lists of up to 6 fields printed one by one; non-trivial: two fields") {
	struct emv_tlv_list_t L = EMV_TLV_LIST_INIT; unsigned n = (unsigned)s.draw(7); bool single = s.chance(1, 2); if (single) n = 1; std::string exp, d; Stat st; Bytes all; unsigned depth = single ? 0 : 1;
	for (unsigned i = 0; i < n; ++i) {
		Bytes tb; unsigned t; bool cons = false; Bytes v;
		if (s.chance(1, 5)) { t = s.pickl<unsigned>({0x70, 0x6F, 0xA5, 0xBF0C, 0x77}); cons = true; gen_emv(s, v, 4, 60); if (s.chance(1, 4)) corrupt(s, v); }
		else if (s.chance(3, 4)) { t = s.pick(EMV_TAGS); uint8_t f = t > 0xFFFF ? t >> 16 : t > 0xFF ? t >> 8 : t; cons = f & 0x20; v = cons ? Bytes{} : gen_value(s, t); }
		else { t = s.pickl<unsigned>({0xDF01, 0xC1, 0x9F8101, 0x01}); v = s.bytes(s.len(0, 20)); }
		Exact x(v); emv_tlv_list_push(&L, t, (unsigned)v.size(), x.p, cons ? 0x20 : 0); add(all, tlv(t, v));
		rep(exp, "  ", depth); Info in = info_of(t, v.data(), v.size(), true);
		exp += in.name ? fmt("%02X | %s : [%zu]", t, in.name, v.size()) : fmt("%02X : [%zu]", t, v.size());
		if (cons) { exp += "\n"; m_top(exp, v.data(), v.size(), "  ", depth + 1, false, true, st); } else { hexsp(exp, v.data(), v.size()); m_field_text(exp, t, v.data(), v.size(), in, "  ", depth, st); }
	}
	if (s.want()) s.desc(hex(all));
	std::string got = captured([&] { if (single) print_emv_tlv(L.front); else print_emv_tlv_list(&L); }); emv_tlv_list_clear(&L);
	same(single ? "print_emv_tlv" : "print_emv_tlv_list", all, got, exp); if (n > 1) s.nontrivial();
}
VH_PROP(C31, small, 30000, 1000000, "hexadecimal buffers, string lists, applications and debug lines; non-trivial: non-empty data") {
	std::string got, exp; Bytes b = s.bytes(s.len(0, 40)); Exact x(b); std::string H; for (uint8_t c : b) H += fmt("%02X", c);
	switch (s.draw(4)) {
		case 0: { const char* nm = s.pickl<const char*>({"data", "", nullptr, "100%s"}); bool nul = s.chance(1, 8); got = captured([&] { print_buf(nm, nul ? nullptr : x.p, x.n); }); if (nm) exp = std::string(nm) + ": "; exp += nul ? "(null)" : H; exp += "\n"; break; }
		case 1: {
			std::string t; unsigned n = (unsigned)s.draw(30); for (unsigned i = 0; i < n; ++i) t += "ab%s \n\n;x"[s.draw(9)]; const char* dl = s.pickl<const char*>({"\n", ";", "\n;"}); const char* pre = s.pick(PREFIX); unsigned d = (unsigned)s.draw(4); const char* bu = s.pickl<const char*>({"- ", "", nullptr}); const char* su = s.pickl<const char*>({"\n", nullptr, "|"});
			got = captured([&] { print_str_list(t.c_str(), dl, pre, d, bu, su); }); for (auto& l : split(t, dl)) { rep(exp, pre, d); exp += std::string(bu ? bu : "") + l + (su ? su : ""); } if (s.want()) s.desc(t); break;
		}
		case 2: {
			struct emv_app_t a; memset(&a, 0, sizeof a); struct emv_tlv_t t; memset(&t, 0, sizeof t); t.tag = 0x4F; t.length = (unsigned)b.size(); t.value = x.p; a.aid = &t; Bytes nm = text_bytes(s, s.draw(33)); memcpy(a.display_name, nm.data(), nm.size()); a.priority = (uint8_t)s.draw(16); a.confirmation_required = s.chance(1, 2);
			got = captured([&] { print_emv_app(&a); }); exp = m_app(&a); break;
		}
		default: {
			static const enum emv_debug_source_t SRC[] = {EMV_DEBUG_SOURCE_TTL, EMV_DEBUG_SOURCE_TAL, EMV_DEBUG_SOURCE_EMV, EMV_DEBUG_SOURCE_APP, (enum emv_debug_source_t)0x40}; 
			static const enum emv_debug_level_t LV[] = {EMV_DEBUG_ERROR, EMV_DEBUG_INFO, EMV_DEBUG_CARD, EMV_DEBUG_TRACE}; 
			unsigned si = (unsigned)s.draw(5), li = (unsigned)s.draw(4), ty = (unsigned)s.draw(5), ts = s.u32(); bool vb = s.chance(1, 2); static const enum emv_debug_type_t TY[] = {EMV_DEBUG_TYPE_MSG, EMV_DEBUG_TYPE_DATA, EMV_DEBUG_TYPE_TLV, EMV_DEBUG_TYPE_CAPDU, EMV_DEBUG_TYPE_RAPDU};
			if (ty == 2 && s.chance(2, 3)) { b.clear(); gen_emv(s, b, 1, 80); H.clear(); for (uint8_t c : b) H += fmt("%02X", c); } Exact y(b); std::string msg = s.pickl<std::string>({"message", "a %d b", ""});
			got = captured([&] { vb ? print_emv_debug_verbose(ts, SRC[si], LV[li], TY[ty], msg.c_str(), y.p, y.n) : print_emv_debug(ts, SRC[si], LV[li], TY[ty], msg.c_str(), y.p, y.n); });
			exp = m_event(vb, ts, SRC[si], LV[li], TY[ty], msg.c_str(), y.p, y.n);
		}
	}
	if (s.want()) s.desc(hex(b)); same("output", b, got, exp); if (!b.empty()) s.nontrivial();
}
VH_PROP(C31, apdu, 30000, 1000000, "command and response APDUs and status words; non-trivial: at least two octets") {
	Bytes b; unsigned k = (unsigned)s.draw(3); std::string exp, got, H; char str[1024];
	if (k == 0) { if (s.chance(1, 3)) b = s.bytes(s.len(0, 12)); else { b = {s.pickl<uint8_t>({0, 0x80, 0x84, 0x90}), s.pickl<uint8_t>({0xA4, 0xB2, 0xA8, 0xAE, 0x20, 0x88, 0xCA, 0x84, 0x82, 0xC0, 0x16, 0x18, 0x24, 0x1E}), s.bbyte(), s.bbyte()}; if (s.chance(3, 4)) { Bytes d = text_bytes(s, s.chance(1, 6) ? s.range(200, 255) : s.draw(20)); b.push_back((uint8_t)d.size()); add(b, d); if (s.chance(1, 2)) b.push_back(0); } if (s.chance(1, 5)) corrupt(s, b); } }
	else { b = s.chance(1, 4) ? s.bytes(s.range(240, 300)) : s.bytes(s.len(0, 20)); if (b.size() > 1 && s.chance(2, 3)) { b[b.size() - 2] = s.pickl<uint8_t>({0x90, 0x61, 0x6C, 0x62, 0x63, 0x69, 0x6A, 0x6E}); b[b.size() - 1] = s.bbyte(); } }
	for (uint8_t c : b) H += fmt("%02X", c); Exact x(b);
	if (k == 0) { got = captured([&] { print_capdu(x.p, x.n); }); exp = m_capdu(b.data(), b.size()); }
	else if (k == 1) { got = captured([&] { print_rapdu(x.p, x.n); }); exp = m_rapdu(b.data(), b.size()); }
	else { uint8_t a = b.size() > 1 ? b[b.size() - 2] : s.byte(), c = b.size() > 1 ? b[b.size() - 1] : s.byte(); got = captured([&] { print_sw1sw2(a, c); }); const char* t = iso7816_sw1sw2_get_string(a, c, str, sizeof str); exp = t ? fmt("SW1SW2: %02X%02X (%s)\n", a, c, t) : "Failed to parse SW1-SW2 status bytes\n"; }
	if (s.want()) s.desc(hex(b)); same("APDU", b, got, exp); if (b.size() >= 2) s.nontrivial();
}

// ---------------------------------------------------------------- ATR
static Bytes gen_atr(Src& s) {
	Bytes b{s.chance(9, 10) ? (uint8_t)0x3B : (uint8_t)0x3F}; unsigned K = (unsigned)s.draw(16); unsigned lev = (unsigned)s.draw(4); bool t_other = false;
	uint8_t y = lev ? (uint8_t)(0x80 | s.draw(8) << 4) : (uint8_t)(s.draw(8) << 4); b.push_back(y | K);
	for (unsigned i = 1; i <= 4; ++i) {
		if (y & 0x10) b.push_back(s.bbyte()); if (y & 0x20) b.push_back(i == 1 ? 0 : s.bbyte()); if (y & 0x40) b.push_back(s.bbyte());
		if (!(y & 0x80)) break;
		uint8_t proto = i < lev && s.chance(1, 3) ? 0x0F : s.pickl<uint8_t>({0, 1}); if (i == 1) proto = s.pickl<uint8_t>({0, 1}); if (i == 4) proto = 15; if (proto) t_other = true;
		uint8_t td = (uint8_t)((i < lev && i < 4 ? 0x80 : 0) | s.draw(8) << 4 | proto); b.push_back(td); y = td & 0xF0;
	}
	Bytes h; if (K) { uint8_t T1 = s.pickl<uint8_t>({0x80, 0x80, 0x00, 0x10, 0x31}); h.push_back(T1);
		while (h.size() < K) { static const uint8_t tags[] = {3, 7, 8, 1, 15, 6, 0}; uint8_t l = (uint8_t)s.draw(4); h.push_back((uint8_t)(s.pick(tags) << 4 | l)); for (unsigned i = 0; i < l; ++i) h.push_back(s.bbyte()); }
		if (s.chance(1, 2) && h.size() > K) h.resize(K); h.resize(K); }
	add(b, h); if (t_other || s.chance(1, 10)) { uint8_t x = 0; for (size_t i = 1; i < b.size(); ++i) x ^= b[i]; b.push_back(x); }
	if (s.chance(1, 10)) corrupt(s, b); if (b.size() > 33) b.resize(33); return b;
}
VH_PROP(C31, atr, 40000, 1500000, "answer to reset strings with up to four groups of interface bytes and compact TLV historical bytes; non-trivial: accepted, with historical bytes or a second group") {
	Bytes b = gen_atr(s); if (s.want()) s.desc(hex(b)); struct iso7816_atr_info_t a; Exact x(b);
	if (iso7816_atr_parse(x.p, x.n, &a)) { s.label("refused"); return; }
	std::string exp = m_atr(&a, b); same("print_atr", b, captured([&] { print_atr(&a); }), exp); if ((b[1] & 0x8F) != 0) s.nontrivial(); s.label("accepted");
}

// ---------------------------------------------------------------- the tool
typedef int (*FieldFn)(const uint8_t*, size_t, char*, size_t);
static int f_term_type(const uint8_t* p, size_t, char* s, size_t n) { return emv_term_type_get_string_list(p[0], s, n); }
static int f_amex(const uint8_t* p, size_t, char* s, size_t n) { return emv_amex_cl_reader_caps_get_string(p[0], s, n); }
static const struct Mode { std::vector<const char*> opts; size_t lo, hi; FieldFn fn; bool list; } MODES[] = {
	{{"--mcc", "--9F15"}, 2, 2, emv_mcc_get_string, false}, {{"--term-type", "--9F35"}, 1, 1, f_term_type, true}, {{"--term-caps", "--9F33"}, 3, 3, emv_term_caps_get_string_list, true},
	{{"--addl-term-caps", "--9F40"}, 5, 5, emv_addl_term_caps_get_string_list, true}, {{"--cvm-list", "--8E"}, 1, 400, emv_cvm_list_get_string_list, true}, {{"--cvm-results", "--9F34"}, 3, 3, emv_cvm_results_get_string_list, true},
	{{"--tvr", "--95"}, 5, 5, emv_tvr_get_string_list, true}, {{"--tsi", "--9B"}, 2, 2, emv_tsi_get_string_list, true}, {{"--issuer-app-data", "--9F10"}, 1, 32, emv_iad_get_string_list, true}, {{"--ttq", "--9F66"}, 4, 4, emv_ttq_get_string_list, true},
	{{"--ctq", "--9F6C"}, 2, 2, emv_ctq_get_string_list, true}, {{"--amex-cl-reader-caps", "--9F6D"}, 1, 1, f_amex, false}, {{"--mastercard-third-party-data"}, 5, 32, emv_mastercard_third_party_data_get_string_list, true}, {{"--visa-ffi"}, 4, 4, emv_visa_form_factor_indicator_get_string_list, true},
	{{"--amex-enh-cl-reader-caps"}, 4, 4, emv_amex_enh_cl_reader_caps_get_string_list, true}, {{"--terminal-risk-management-data", "--9F1D"}, 8, 8, emv_terminal_risk_management_data_get_string_list, true},
};
VH_PROP(C31, tool, 6000, 200000, "the emv-decode command with every mode, hexadecimal input in any case with white space, binary standard input, wrong lengths and invalid input, in a forked process; non-trivial: output was printed") {
	tool_data();
	std::vector<std::string> args{"emv-decode", "--isocodes-path=" + g_data + "/", "--mcc-json=" + g_data + "/mcc.json"}; Bytes b; std::string exp, input; bool verbatim = false, no_input = false, pad = s.chance(1, 3), must_fail = false, fails_len = false; Stat st; char str[2048]; std::string mode;
	unsigned k = (unsigned)s.weighted({4, 4, 1, 1, 8, 1, 1, 2, 1, 2});
	switch (k) {
		case 0: case 1: mode = k ? "--tlv" : "--ber"; b = gen_tlv_input(s, k); if (b.empty()) b = {0x50, 0x00}; if (b.size() > 20000) b.resize(20000); m_top(exp, b.data(), b.size(), "  ", 0, pad, k, st); break;
		case 2: mode = "--dol"; b = gen_dol(s); if (b.empty()) b = {0x95, 5}; m_dol(exp, b.data(), b.size(), "  ", 0); break;
		case 3: mode = "--tag-list"; b = gen_taglist(s); if (b.empty()) b = {0x95}; m_taglist(exp, b.data(), b.size(), "  ", 0); break;
		case 4: {
			const Mode& m = s.pick(MODES); mode = m.opts[s.draw(m.opts.size())]; size_t n = s.chance(5, 6) ? s.range(m.lo, std::min<size_t>(m.hi, 60)) : s.chance(1, 8) && m.hi == 400 ? s.range(200, 252) : s.range(1, 40);
			b = s.chance(1, 3) ? bcd_bytes(s, n) : s.bbytes(n); if (m.fn == emv_mcc_get_string && n == 2 && s.chance(2, 3)) b = s.pickl<Bytes>({{0x59, 0x99}, {0x07, 0x42}, {0x60, 0x11}});
			if (m.fn == emv_iad_get_string_list && s.chance(1, 2)) { static const Bytes P[] = {{0x06, 0x01, 0x0A, 0x03, 0xA0, 0x00, 0x00}, {0x0F, 0xA5, 0, 0, 0}, {0x01, 0x10, 0xA0}, {0x1F, 0x43, 0x01}}; Bytes q = s.pick(P); for (size_t i = 0; i < q.size() && i < b.size(); ++i) b[i] = q[i]; }
			if (b.size() < m.lo || b.size() > m.hi) { fails_len = true; s.label("wrong length"); break; }
			memset(str, 0, sizeof str); Exact x(b); int r = m.fn(x.p, x.n, str, m.fn == emv_cvm_list_get_string_list || m.lo != m.hi || m.lo == 8 ? 2048 : m.fn == emv_tvr_get_string_list || m.fn == emv_tsi_get_string_list || m.fn == emv_ttq_get_string_list || m.fn == emv_ctq_get_string_list || m.lo == 4 ? 2048 : 1024);
			if (r || (!m.list && m.fn == emv_mcc_get_string && !str[0])) fails_len = true; else exp = std::string(str) + (m.list ? "" : "\n"); break;
		}
		case 5: { mode = "--sw1sw2"; b = s.bytes(s.chance(5, 6) ? 2 : s.range(1, 4)); if (b.size() == 2) { const char* t = iso7816_sw1sw2_get_string(b[0], b[1], str, sizeof str); exp = fmt("SW1SW2: %02X%02X (%s)\n", b[0], b[1], t ? t : ""); } else fails_len = true; break; }
		case 6: { mode = "--atr"; b = gen_atr(s); if (s.chance(1, 8)) b = s.bytes(s.range(1, 40)); if (b.empty()) b = {0x3B}; struct iso7816_atr_info_t a; if (b.size() < 2 || b.size() > 33 || iso7816_atr_parse(b.data(), b.size(), &a)) fails_len = true; else exp = m_atr(&a, b); break; }
		case 7: {
			unsigned f = (unsigned)s.draw(3); static const char* O[3][2] = {{"--country", "--iso3166-1"}, {"--currency", "--iso4217"}, {"--language", "--iso639"}}; mode = O[f][s.draw(2)]; verbatim = true; static const std::vector<std::string> C[3] = {{"ZA", "ZAF", "710", "008", "8", "08", "NLD", "NL"}, {"ZAR", "EUR", "978", "008", "978"}, {"en", "eng", "nl", "ace", "nld"}};
			static const std::map<std::string, const char*> N[3] = {{{"ZA", "South Africa"}, {"ZAF", "South Africa"}, {"710", "South Africa"}, {"008", "Albania"}, {"08", "Albania"}, {"NLD", "Netherlands"}, {"NL", "Netherlands"}}, {{"ZAR", "Rand"}, {"EUR", "Euro"}, {"978", "Euro"}, {"008", "Lek"}}, {{"en", "English"}, {"eng", "English"}, {"nl", "Dutch; Flemish"}, {"nld", "Dutch; Flemish"}, {"ace", "Achinese"}}};
			input = s.chance(3, 4) ? s.pick(C[f]) : s.pickl<std::string>({"", "A", "QQ", "QQQ", "999", "12x", "ABCD", "71", "7 1"}); auto i = N[f].find(input); if (i != N[f].end()) exp = std::string(i->second) + "\n"; else fails_len = true; break;
		}
		case 8: {
			unsigned cp = (unsigned)s.range(1, 15); if (cp == 12) cp = 1; mode = fmt("--iso8859-%u", cp); b = text_bytes(s, s.range(1, 30)); if (s.chance(1, 2)) for (auto& c : b) if (s.chance(1, 4)) c = (uint8_t)s.range(0xA0, 0xBF); if (s.chance(1, 8)) b = s.bytes(s.range(1, 20)); if (s.chance(1, 10)) { b.clear(); no_input = must_fail = true; break; } memset(str, 0, sizeof str); Exact x(b); int r = iso8859_to_utf8(cp, x.p, x.n, str, sizeof str); if (r && str[0]) fails_len = true; else exp = std::string(str) + "\n"; break;
		}
		default: { // invalid command line or input
			mode = s.pickl<std::string>({"--tlv", "--ber", "--dol", "--tvr"}); must_fail = true; verbatim = true; input = s.pickl<std::string>({"", "A", "5", "500", "50 0", "5G", "0x9000", "9A031", "zz", "50-00", "9F02\xC3", "12 34 5"}); break;
		}
	}
	if (pad) args.insert(args.begin() + 1 + s.draw(args.size()), "--ignore-padding");
	bool from_stdin = !verbatim && (no_input || s.chance(1, 4));
	if (!verbatim) { if (from_stdin) input = "-"; else for (size_t i = 0; i < b.size(); ++i) { const char* f = "%02X"; if (s.chance(1, 6)) f = "%02x"; input += fmt(f, b[i]); if (i + 1 < b.size() && s.chance(1, 6)) input += s.pickl<std::string>({" ", "  ", "\n", "\t"}); } if (!from_stdin && b.size() && s.chance(1, 10)) input.insert(1, " "); }
	if (s.chance(1, 4)) { args.push_back(input); args.push_back(mode); } else { args.push_back(mode); args.push_back(input); }
	if (k == 9 && s.chance(1, 3)) { unsigned w = (unsigned)s.draw(4); if (w == 0) { args.pop_back(); args.back() = mode; args = {args[0], args[1], args[2], mode}; } else if (w == 1) { args[args[args.size() - 1] == mode ? args.size() - 2 : args.size() - 1] = "9F3704"; args.insert(args.begin() + 1, s.chance(1, 2) ? mode : "--sw1sw2"); } else if (w == 2) args.insert(args.begin() + 1, "--no-such-option"); }
	std::string cmd; for (size_t i = 3; i < args.size(); ++i) cmd += " '" + args[i] + "'"; if (s.want()) s.desc(cmd.substr(0, 3000) + (from_stdin ? " with standard input " + hex(b) : ""));
	Run r = run_tool(emv_decode_main, args, from_stdin ? &b : nullptr);
	REQUIRE(WIFEXITED(r.status) && WEXITSTATUS(r.status) != 99 && WEXITSTATUS(r.status) != 98, "emv-decode%s failed (status %X): %s", cmd.substr(0, 1500).c_str(), r.status, r.err.substr(0, 1500).c_str());
	int code = WEXITSTATUS(r.status);
	if (must_fail) { REQUIRE(code != 0 && r.out.empty(), "emv-decode%s: invalid use gives exit code %d and prints %s", cmd.c_str(), code, r.out.substr(0, 300).c_str()); s.label("invalid use"); return; }
	REQUIRE(r.marked, "emv-decode%s did not end in an orderly way: exit code %d, %s", cmd.substr(0, 1500).c_str(), code, r.err.substr(0, 500).c_str());
	if (fails_len) { REQUIRE(r.out.empty(), "emv-decode%s explains an invalid value: %s", cmd.substr(0, 800).c_str(), r.out.substr(0, 300).c_str()); REQUIRE(!r.err.empty(), "emv-decode%s reports nothing for an invalid value", cmd.substr(0, 800).c_str()); s.label("reported"); return; }
	REQUIRE(code == 0, "emv-decode%s exits with %d: %s", cmd.substr(0, 800).c_str(), code, r.err.substr(0, 500).c_str());
	same(("emv-decode" + cmd.substr(0, 800)).c_str(), b, r.out, exp); if (!exp.empty()) s.nontrivial(); s.label("printed");
}
