// C24 to C28, C34: text descriptions of EMV fields, tags, commands and status words
#include "vh.h"
#include "model.h"
#include "atr_model.h"
#include "bit_tables_types.h"
#include "str_tables.inc"
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include "iso7816.h"
#include "iso7816_strings.h"
#include "emv_strings.h"
#include "emv_tlv.h"
#include "emv_fields.h"
#include "isocodes_lookup.h"
#include "mcc_lookup.h"
int vh_apdu_case(const void*, size_t);
extern const int vh_case_values[7];
}
using namespace vh;

static void add(Bytes& o, const Bytes& a) { o.insert(o.end(), a.begin(), a.end()); }
static std::string lines(const std::vector<std::string>& v) { std::string t; for (auto& l : v) t += l + "\n"; return t; }

// ------------------------------------------------------------------ code lists
static const struct { unsigned code; const char* text; } MCCS[] = {{742, "Veterinary Services"}, {5411, "Grocery Stores, Supermarkets"}, {9999, "Last"}, {1, "First"}, {5999, "Miscellaneous and Specialty Retail Stores"}};
static void init_lists() {
	static bool done; if (done) return; done = true;
	std::string p = tmpdir + "/mcc" + std::to_string(getpid()) + ".json"; FILE* f = fopen(p.c_str(), "w"); if (!f) fail("harness: cannot write %s", p.c_str());
	fputs("[", f); for (size_t i = 0; i < 5; ++i) fprintf(f, "%s{\"mcc\":\"%04u\",\"edited_description\":\"%s\"}", i ? "," : "", MCCS[i].code, MCCS[i].text); fputs("]\n", f); fclose(f);
	int r = emv_strings_init("/usr/share/iso-codes/json", p.c_str()); unlink(p.c_str());
	if (r) fail("harness: emv_strings_init returned %d", r);
}

// ------------------------------------------------------------------ expectation
struct Exp { enum K { TEXT, REFUSE, ANY } k; std::string t; };
static Exp T(const std::string& t) { return {Exp::TEXT, t}; }
static Exp L(const std::vector<std::string>& v) { return {Exp::TEXT, lines(v)}; }
static const Exp REF = {Exp::REFUSE, ""}, WHATEVER = {Exp::ANY, ""};

// ---- bit-mapped fields
static std::vector<std::string> bit_rules(const BSeg& g, uint8_t v) {
	std::vector<std::string> o;
	for (auto& r : g.r) {
		bool on = r.k == 'A' || (r.k == 'E' && (v & r.m) == r.v) || (r.k == 'X' && (v & r.m) != r.v) || (r.k == 'V' && std::find(r.vs.begin(), r.vs.end(), (int)(v & r.m)) != r.vs.end());
		if (!on) continue;
		unsigned x = r.nk == 'v' ? v : r.nk == 'h' ? v >> 4 : r.nk == 'l' ? v & 15 : r.nk == 'p' ? ((v & 15) ? 1u << ((v & 15) - 1) : 0) : r.nk == 'c' ? (v & 7) + 1u : 0;
		char b[512]; if (r.nk == '-') snprintf(b, sizeof b, "%s", r.t); else snprintf(b, sizeof b, r.t, x, x);
		o.push_back(b);
	}
	return o;
}
static const BTab* bit_table(const std::string& n) { for (auto& t : BITS) if (n == t.name) return &t; return nullptr; }
static std::vector<std::string> bit_lines(const std::string& n, const Bytes& b) {
	const BTab* t = bit_table(n); std::vector<std::string> o;
	if (n == "addl_term_caps" && b[0] == 0 && b[1] == 0) o.push_back("Transaction Type Capability: None");
	for (auto& g : t->segs) { auto l = bit_rules(g, g.b < 0 ? 0 : b[g.b]); o.insert(o.end(), l.begin(), l.end()); }
	// one line tells of all the reserved bits of these fields together
	if (n == "tsi" || n == "trmd") { size_t c = o.size(); o.erase(std::remove(o.begin(), o.end(), "RFU"), o.end()); if (o.size() != c) o.push_back("RFU"); }
	return o;
}
static Exp bits(const std::string& n, const Bytes& b) { return b.size() == bit_table(n)->base.size() ? L(bit_lines(n, b)) : REF; }

// ---- EMV formats
static Exp chars(const Bytes& b, bool digits, bool space, bool any) {
	std::string t; bool odd = false; if (b.empty()) return REF;
	for (uint8_t c : b) {
		bool al = (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'), di = c >= '0' && c <= '9';
		if (any) { if (c == 0x7F) odd = true; else if (c < 0x20 || c > 0x7E) return REF; }
		else if (!(al || (digits && di) || (space && c == ' '))) return REF;
		t += (char)c;
	}
	return odd ? WHATEVER : T(t);
}
static Exp m_cn(const Bytes& b) {
	std::string t; if (b.empty()) return REF; bool pad = false;
	for (size_t i = 0; i < b.size() * 2; ++i) { unsigned d = i & 1 ? b[i / 2] & 15 : b[i / 2] >> 4; if (pad) { if (d != 15) return WHATEVER; continue; } if (d == 15) { pad = true; continue; } if (d > 9) return REF; t += (char)('0' + d); }
	return T(t);
}
static Exp m_n(const Bytes& b) {
	std::string t; if (b.empty()) return REF;
	for (uint8_t c : b) { if (c >> 4 > 9 || (c & 15) > 9) return REF; t += (char)('0' + (c >> 4)); t += (char)('0' + (c & 15)); }
	size_t z = t.find_first_not_of('0'); return T(z == std::string::npos ? "0" : t.substr(z));
}
static Exp m_amount(const Bytes& b) { if (b.empty() || b.size() > 4) return REF; uint64_t v = 0; for (uint8_t c : b) v = v << 8 | c; return T(std::to_string(v)); }
static bool bcd(const Bytes& b, std::string* t) { t->clear(); for (uint8_t c : b) { if (c >> 4 > 9 || (c & 15) > 9) return false; *t += (char)('0' + (c >> 4)); *t += (char)('0' + (c & 15)); } return true; }
static Exp m_date(const Bytes& b) { std::string d; if (b.size() != 3 || !bcd(b, &d)) return REF; return T("20" + d.substr(0, 2) + "-" + d.substr(2, 2) + "-" + d.substr(4)); }
static Exp m_time(const Bytes& b) { std::string d; if (b.size() != 3 || !bcd(b, &d)) return REF; return T(d.substr(0, 2) + ":" + d.substr(2, 2) + ":" + d.substr(4)); }
static Exp m_track2(const Bytes& b) {
	std::string t; if (b.empty()) return REF;
	for (size_t i = 0; i < b.size() * 2; ++i) { unsigned d = i & 1 ? b[i / 2] & 15 : b[i / 2] >> 4; if (d == 15) { for (++i; i < b.size() * 2; ++i) if ((i & 1 ? b[i / 2] & 15 : b[i / 2] >> 4) != 15) return WHATEVER; break; } t += (char)('0' + d); }
	return T(t);
}
struct CT { unsigned v; const char* t; };
template <size_t N> static Exp coded(const CT (&tab)[N], const Bytes& b) { for (auto& c : tab) if (b.size() == 1 && c.v == b[0]) return T(c.t); return REF; }
static const CT TXN[] = {{0x00, "Goods and services"}, {0x01, "Cash"}, {0x09, "Cashback"}, {0x20, "Refund"}, {0x30, "Inquiry"}};
static const CT ACCOUNT[] = {{0x00, "Default"}, {0x10, "Savings"}, {0x20, "Cheque/Debit"}, {0x30, "Credit"}};
static const CT POS[] = {{0x00, "Unknown"}, {0x01, "Manual PAN entry"}, {0x02, "Magnetic stripe"}, {0x03, "Optical Code"}, {0x04, "OCR"}, {0x05, "Integrated circuit card (ICC). CVV can be checked."}, {0x07, "Auto entry via contactless EMV"}, {0x10, "Merchant has Cardholder Credentials on File"}, {0x80, "Fallback from integrated circuit card (ICC) to magnetic stripe"}, {0x90, "Magnetic stripe as read from track 2. CVV can be checked."}, {0x91, "Auto entry via contactless magnetic stripe"}, {0x95, "Integrated circuit card (ICC). CVV may not be checked."}, {0x99, "Same as original transaction"}};

// ---- code lists (which names the lists hold is decided by C30)
static Exp looked_up(const char* s) { return T(s ? s : ""); }
static bool num2(const Bytes& b, unsigned* v) { std::string d; if (b.size() != 2 || !bcd(b, &d)) return false; *v = (unsigned)atoi(d.c_str()); return true; }
static Exp m_country(const Bytes& b) { unsigned v; return num2(b, &v) ? looked_up(isocodes_lookup_country_by_numeric(v)) : REF; }
static Exp m_currency(const Bytes& b) { unsigned v; return num2(b, &v) ? looked_up(isocodes_lookup_currency_by_numeric(v)) : REF; }
static Exp m_mcc(const Bytes& b) { unsigned v; if (!num2(b, &v)) return REF; for (auto& m : MCCS) if (m.code == v) return T(m.text); return T(""); }
static Exp m_refcur(const Bytes& b) {
	if (b.empty() || b.size() & 1) return REF; std::vector<std::string> o;
	for (size_t i = 0; i < b.size(); i += 2) { Exp e = m_currency(Bytes(b.begin() + i, b.begin() + i + 2)); if (e.k != Exp::TEXT) return REF; if (e.t.size() > 127) return WHATEVER; o.push_back(e.t.empty() ? "Unknown" : e.t); }
	return L(o);
}
static Exp m_langs(const Bytes& b) {
	if (b.empty() || b.size() & 1) return REF; std::vector<std::string> o;
	for (size_t i = 0; i < b.size(); i += 2) { char c[3] = {(char)b[i], (char)b[i + 1], 0}; for (int k = 0; k < 2; ++k) if (c[k] >= 'A' && c[k] <= 'Z') c[k] += 32; const char* n = isocodes_lookup_language_by_alpha2(c); if (n && strlen(n) > 127) return WHATEVER; o.push_back(n ? n : "Unknown"); }
	return L(o);
}
static Exp m_alpha(const Bytes& b, size_t n) {
	if (b.size() != n) return REF; char c[4] = {0}; memcpy(c, b.data(), n);
	return looked_up(n == 2 ? isocodes_lookup_country_by_alpha2(c) : isocodes_lookup_country_by_alpha3(c));
}

// ---- AID
static Exp m_aid(const Bytes& b) {
	if (b.size() < 5 || b.size() > 16) return REF;
	struct emv_aid_info_t i; memset(&i, 0, sizeof i); if (emv_aid_get_info(b.data(), b.size(), &i)) return REF;
	static const std::map<int, const char*> P = {
		{EMV_CARD_PRODUCT_VISA_CREDIT_DEBIT, "Visa Credit/Debit"}, {EMV_CARD_PRODUCT_VISA_ELECTRON, "Visa Electron"}, {EMV_CARD_PRODUCT_VISA_VPAY, "V Pay"}, {EMV_CARD_PRODUCT_VISA_PLUS, "Visa Plus"}, {EMV_CARD_PRODUCT_VISA_USA_DEBIT, "Visa USA Debit"},
		{EMV_CARD_PRODUCT_MASTERCARD_CREDIT_DEBIT, "Mastercard Credit/Debit"}, {EMV_CARD_PRODUCT_MASTERCARD_MAESTRO, "Maestro"}, {EMV_CARD_PRODUCT_MASTERCARD_CIRRUS, "Mastercard Cirrus"}, {EMV_CARD_PRODUCT_MASTERCARD_USA_DEBIT, "Mastercard USA Debit"}, {EMV_CARD_PRODUCT_MASTERCARD_MAESTRO_UK, "Maestro UK"}, {EMV_CARD_PRODUCT_MASTERCARD_TEST, "Mastercard Test Card"},
		{EMV_CARD_PRODUCT_AMEX_CREDIT_DEBIT, "American Express Credit/Debit"}, {EMV_CARD_PRODUCT_AMEX_CHINA_CREDIT_DEBIT, "American Express (China Credit/Debit)"}, {EMV_CARD_PRODUCT_DISCOVER_CARD, "Discover Card"}, {EMV_CARD_PRODUCT_DISCOVER_USA_DEBIT, "Discover USA Debit"}, {EMV_CARD_PRODUCT_DISCOVER_ZIP, "Discover ZIP"},
		{EMV_CARD_PRODUCT_CB_CREDIT_DEBIT, "Cartes Bancaires (CB) Credit/Debit"}, {EMV_CARD_PRODUCT_CB_DEBIT, "Cartes Bancaires (CB) Debit"}, {EMV_CARD_PRODUCT_DANKORT_VISADANKORT, "Visa/Dankort"}, {EMV_CARD_PRODUCT_DANKORT_JSPEEDY, "Dankort (J/Speedy)"},
		{EMV_CARD_PRODUCT_UNIONPAY_DEBIT, "UnionPay Debit"}, {EMV_CARD_PRODUCT_UNIONPAY_CREDIT, "UnionPay Credit"}, {EMV_CARD_PRODUCT_UNIONPAY_QUASI_CREDIT, "UnionPay Quasi-credit"}, {EMV_CARD_PRODUCT_UNIONPAY_ELECTRONIC_CASH, "UnionPay Electronic Cash"}, {EMV_CARD_PRODUCT_UNIONPAY_USA_DEBIT, "UnionPay USA Debit"},
		{EMV_CARD_PRODUCT_GIMUEMOA_STANDARD, "GIM-UEMOA Standard"}, {EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_ONLINE, "GIM-UEMOA Prepaye Online"}, {EMV_CARD_PRODUCT_GIMUEMOA_CLASSIC, "GIM-UEMOA Classic"}, {EMV_CARD_PRODUCT_GIMUEMOA_PREPAID_OFFLINE, "GIM-UEMOA Prepaye Possibile Offline"}, {EMV_CARD_PRODUCT_GIMUEMOA_RETRAIT, "GIM-UEMOA Retrait"}, {EMV_CARD_PRODUCT_GIMUEMOA_ELECTRONIC_WALLET, "GIM-UEMOA Porte Monnaie Electronique"},
		{EMV_CARD_PRODUCT_DK_GIROCARD, "Deutsche Kreditwirtschaft (DK) Girocard"}, {EMV_CARD_PRODUCT_EFTPOS_SAVINGS, "eftpos (Australia) savings"}, {EMV_CARD_PRODUCT_EFTPOS_CHEQUE, "eftpos (Australia) cheque"}, {EMV_CARD_PRODUCT_MIR_CREDIT, "Mir Credit"}, {EMV_CARD_PRODUCT_MIR_DEBIT, "Mir Debit"},
	};
	static const std::map<int, const char*> S = {
		{EMV_CARD_SCHEME_VISA, "Visa"}, {EMV_CARD_SCHEME_MASTERCARD, "Mastercard"}, {EMV_CARD_SCHEME_AMEX, "American Express"}, {EMV_CARD_SCHEME_DISCOVER, "Discover"}, {EMV_CARD_SCHEME_CB, "Cartes Bancaires (CB)"}, {EMV_CARD_SCHEME_JCB, "JCB"}, {EMV_CARD_SCHEME_DANKORT, "Dankort"}, {EMV_CARD_SCHEME_UNIONPAY, "UnionPay"}, {EMV_CARD_SCHEME_GIMUEMOA, "GIM-UEMOA"}, {EMV_CARD_SCHEME_DK, "Deutsche Kreditwirtschaft (DK)"}, {EMV_CARD_SCHEME_VERVE, "Verve"}, {EMV_CARD_SCHEME_EFTPOS, "eftpos (Australia)"}, {EMV_CARD_SCHEME_RUPAY, "RuPay"}, {EMV_CARD_SCHEME_MIR, "Mir"}, {EMV_CARD_SCHEME_MEEZA, "Meeza"},
	};
	auto p = P.find(i.product); if (p != P.end()) return T(p->second);
	auto q = S.find(i.scheme); if (q != S.end()) return T(q->second);
	return REF;
}
static const char* const AIDS[] = {"A0000000031010", "A0000000032010", "A0000000032020", "A0000000038010", "A0000000980840", "A0000000041010", "A0000000043060", "A0000000046000", "A0000000042203", "A0000000050001", "A00000002501", "A000000790", "A0000001523010", "A0000001524010", "A0000003241010", "A0000000421010", "A0000000422010", "A0000000651010", "A0000001211010", "A0000001214711", "A000000333010101", "A000000333010102", "A000000333010103", "A000000333010106", "A000000333010108", "A0000003374010", "A0000003370010", "A0000003590101", "A0000003591010028001", "A0000003710001", "A00000038410", "A00000038420", "A0000005241010", "A0000006581010", "A0000006582010", "A0000007321001"};

// ---- ASRPD, AFL
static Exp m_asrpd(const Bytes& b) {
	if (b.size() < 3) return REF; std::vector<std::string> o; size_t p = 0;
	while (p < b.size()) { if (b.size() - p < 3) return REF; unsigned id = b[p] << 8 | b[p + 1], l = b[p + 2]; if (l > b.size() - p - 3) return REF; o.push_back(id == 1 ? "European Cards Stakeholders Group" : id == 3 ? "Technical Cooperation ep2 Association" : "Unknown ASRPD identifier"); p += 3 + l; }
	return L(o);
}
static Exp m_afl(const Bytes& b) {
	if (b.empty() || b.size() % 4 || b.size() > 252) return REF; std::vector<std::string> o;
	for (size_t i = 0; i < b.size(); i += 4) {
		unsigned sfi = b[i] >> 3, f = b[i + 1], l = b[i + 2], oda = b[i + 3];
		if ((b[i] & 7) || sfi < 1 || sfi > 30 || !f || l < f || oda > l - f + 1) return REF;
		std::string t = fmt("SFI %u, record %u", sfi, f); if (l != f) t += fmt(" to %u", l); if (oda) t += fmt(", %u record%s used for offline data authentication", oda, oda > 1 ? "s" : ""); o.push_back(t);
	}
	return L(o);
}
// ---- CVM
static std::string cvm_text(uint8_t c) {
	static const char* low[16] = {"Fail CVM processing", "Plaintext PIN verification performed by ICC", "Enciphered PIN verified online", "Plaintext PIN verification performed by ICC and signature", "Enciphered PIN verification performed by ICC", "Enciphered PIN verification performed by ICC and signature", "Facial biometric verified offline (by ICC)", "Facial biometric verified online", "Finger biometric verified offline (by ICC)", "Finger biometric verified online", "Palm biometric verified offline (by ICC)", "Palm biometric verified online", "Iris biometric verified offline (by ICC)", "Iris biometric verified online", "Voice biometric verified offline (by ICC)", "Voice biometric verified online"};
	c &= 0x3F; return c < 16 ? low[c] : c == 0x1E ? "Signature (paper)" : c == 0x1F ? "No CVM required" : c == 0x3F ? "Invalid CV Rule" : "Unknown CVM";
}
static std::string cond_text(uint8_t c, const std::string& X, const std::string& Y) {
	static const char* low[6] = {"Always", "If unattended cash", "If not unattended cash and not manual cash and not purchase with cashback", "If terminal supports the CVM", "If manual cash", "If purchase with cashback"};
	if (c < 6) return low[c]; if (c > 9) return "Unknown condition";
	return std::string("If transaction is in the application currency and is ") + (c == 6 || c == 8 ? "under " : "over ") + (c < 8 ? X : Y) + " value";
}
static Exp m_cvmlist(const Bytes& b) {
	if (b.size() < 10 || b.size() & 1 || b.size() > 252) return REF; uint32_t a[2] = {0, 0}; for (int i = 0; i < 8; ++i) a[i / 4] = a[i / 4] << 8 | b[i];
	std::vector<std::string> o;
	for (size_t i = 8; i < b.size(); i += 2) o.push_back(cond_text(b[i + 1], std::to_string(a[0]), std::to_string(a[1])) + "; " + cvm_text(b[i]) + "; " + (b[i] & 0x40 ? "Apply succeeding CV Rule if this CVM is unsuccessful" : "Fail cardholder verification if this CVM is unsuccessful"));
	return L(o);
}
static Exp m_cvmres(const Bytes& b) {
	if (b.size() != 3) return REF;
	return L({"CVM Performed: " + (b[0] == 0x3F ? std::string("CVM not performed") : cvm_text(b[0])), "CVM Condition: " + cond_text(b[1], "X", "Y"), b[2] == 0 ? "CVM Result: Unknown" : b[2] == 1 ? "CVM Result: Failed" : b[2] == 2 ? "CVM Result: Successful" : fmt("CVM Result: %u", b[2])});
}
// ---- issuer application data, issuer authentication data
static const char* iad_kind(const Bytes& a, bool* invalid) {
	size_t n = a.size(); *invalid = false; if (!n) { *invalid = true; return nullptr; }
	if (n == 32 && a[0] == 0x0F && a[16] == 0x0F && (a[1] == 0xA5 || a[1] == 0xA6)) return "iad_ccd";
	if (n >= 18 && (a[1] & 0xF0) == 0x10 && !(a[1] & 0x08) && !(a[1] & 0x02)) { if (n == 18) return "iad_mchip4"; if (n == 20) return "iad_mchipadv20"; if (n == 26) return "iad_mchipadv26"; if (n == 28) return "iad_mchipadv28"; }
	if (n >= 7 && a[0] == 0x06 && a[3] == 0x03) { switch (a[2] >> 4) { case 0: return "iad_vsdc0"; case 1: return "iad_vsdc1"; case 3: return "iad_vsdc3"; default: *invalid = true; return nullptr; } }
	if (n == 32 && a[0] == 0x1F && !(a[8] & 0xF0)) { switch (a[1] >> 4) { case 2: return "iad_vsdc2"; case 4: return "iad_vsdc4"; default: *invalid = true; return nullptr; } }
	return nullptr;
}
static Exp m_iad(const Bytes& b) {
	if (b.empty() || b.size() > 32) return REF; bool bad; const char* k = iad_kind(b, &bad); if (bad) return REF; if (!k) return L({"Unknown IAD format"});
	return L(bit_lines(k, b));
}
static bool is_an(uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static Exp m_issuerauth(const Bytes& b) {
	if (b.size() < 8 || b.size() > 16) return REF; auto up = [&](size_t o, size_t n) { return hex(b.data() + o, n); };
	std::string arc; if (b.size() == 10 && is_an(b[8]) && is_an(b[9])) arc = std::string(1, (char)b[8]) + (char)b[9];
	if (!arc.empty()) return L({"Authorisation Response Cryptogram (ARPC): " + up(0, 8), "Authorisation Response Code: " + arc});
	if (b.size() == 10 && !(b[8] & 0xF0)) return L({"Authorisation Response Cryptogram (ARPC): " + up(0, 8), "M/Chip ARPC Response Code: " + up(8, 2)});
	if ((b[4] & 0x70) || b[6]) return T("");
	std::vector<std::string> o{"Authorisation Response Cryptogram (ARPC): " + up(0, 4)}; const std::string c = "Card Status Update (CSU): ";
	if (b[4] & 0x80) o.push_back(c + "Proprietary Authentication Data Included");
	if (b[4] & 15) o.push_back(c + fmt("PIN Try Counter = %u", b[4] & 15));
	static const char* by2[] = {"Issuer Approves Online Transaction", "Card Block", "Application Block", "Update PIN Try Counter", "Set Go Online on Next Transaction", "CSU Created by Proxy for the Issuer"};
	for (int i = 0; i < 6; ++i) if (b[5] & (0x80 >> i)) o.push_back(c + by2[i]);
	static const char* cnt[] = {"Do Not Update Offline Counters", "Set Offline Counters to Upper Offline Limits", "Reset Offline Counters to Zero", "Add Transaction to Offline Counter"}; o.push_back(c + cnt[b[5] & 3]);
	if (b[7]) o.push_back(c + fmt("Issuer Discretionary 0x%02X", b[7]));
	if (b.size() > 8 && b[4] & 0x80) o.push_back(fmt("Proprietary Authentication Data: %zu bytes", b.size() - 8));
	return L(o);
}
static Exp m_arc(const Bytes& b) {
	if (b.size() != 2 || !is_an(b[0]) || !is_an(b[1])) return REF; std::string c(b.begin(), b.end());
	for (auto& r : ARC_DESC) if (c == r.code) return T(c + " - " + r.text);
	return T(c);
}
static Exp m_tpd(const Bytes& b) {
	if (b.size() < 5 || b.size() > 32) return REF; std::vector<std::string> o; unsigned v; std::string c;
	if (num2(Bytes(b.begin(), b.begin() + 2), &v)) { const char* n = isocodes_lookup_country_by_numeric(v); if (n) c = n; } if (c.size() > 127) return WHATEVER;
	o.push_back("Country: " + (c.empty() ? "Unknown" : c)); unsigned id = b[2] << 8 | b[3]; bool ext = id == 3 || id == 0x8003;
	o.push_back(std::string("Unique Identifier: ") + (id == 0 ? "Proprietary Data not used" : ext ? "Mastercard Product Extension" : "Unknown"));
	size_t p = 4; bool odd = false;
	if (!(id & 0x8000)) {
		if (b.size() < 7) return REF; std::string d(b.begin() + 4, b.begin() + 6), t = "Device Type: "; if (!is_an(d[0]) || !is_an(d[1])) odd = true;
		t += d; for (auto& r : DEVICE_TYPE) if (d == r.code) { t += std::string(" - ") + r.text; break; } o.push_back(t); p = 6;
	}
	size_t n = b.size() - p; const uint8_t* q = b.data() + p;
	if (id == 0 && (q[0] || n != 1)) return REF; if (ext && n < 2) return REF;
	if (ext) {
		unsigned pid = q[0] << 8 | q[1];
		if (pid == 1) {
			o.push_back("Product Identifier: Fleet Card"); if (n != 8) return REF;
			if (q[2]) o.push_back(std::string("Product Restriction Code: ") + (q[2] == 2 ? "Good for fuel only" : q[2] == 1 ? "Good for fuel and other products" : "RFU"));
			static const char* pr[] = {"Odometer", "Driver Number", "Vehicle Number", "ID Number"}; for (int i = 0; i < 4; ++i) if (q[3] & (8 >> i)) o.push_back(std::string("Product Type Code: Prompt for ") + pr[i]);
			if (q[3] & 0xF0) o.push_back("Product Type Code: RFU");
			if (q[4]) o.push_back(std::string("Card Type: ") + (q[4] == 0x80 ? "Driver card" : q[4] == 0x40 ? "Vehicle card" : "RFU"));
		} else if (pid == 2) {
			o.push_back("Product Identifier: Transit"); if (n != 5) return REF;
			if (q[2] & 0x80) o.push_back("Transit: Deferred Authorization Not Supported"); if (q[2] & 0x7F) o.push_back("Transit: RFU");
			static const char* cc[] = {"01 - Senior Citizen, potentially eligible for senior citizen discounts", "02 - Student, potentially eligible for student-based discounts", "03 - Active military and veterans, potentially eligible for service member discounts", "04 - Low Income household, potentially eligible for means-based discounts", "05 - Disability, eligible for paratransit and other disability discounts", "06 - Minor Child, potentially enables free travel for under 16 and young kids", "07 - Transit Staff, potentially enables free travel for transit staff", "08 - City/Government/Preferred Employees, potentially enables discounted travel for federal and preferred employees"};
			o.push_back(std::string("Concession Code: ") + (q[3] >= 1 && q[3] <= 8 ? cc[q[3] - 1] : "RFU"));
		} else o.push_back("Product Identifier: Unknown");
	} else if (q[0] == 0) o.push_back("Proprietary Data: Not used");
	return odd ? WHATEVER : L(o);
}
static Exp m_ffi(const Bytes& b) { if (b.size() != 4) return REF; if (b[0] >> 5 != 1) return L({fmt("Form Factor Indicator (FFI): Version Number %u", b[0] >> 5)}); return L(bit_lines("ffi1", b)); }

// ---- commands and status words
static Exp m_iso_capdu(const Bytes& b) {
	if (b.size() < 4 || b[0] == 0xFF || b[0] & 0x80) return REF;
	static const CT INS[] = {{0x04, "DEACTIVATE FILE"}, {0x0C, "ERASE RECORD"}, {0x0E, "ERASE BINARY"}, {0x0F, "ERASE BINARY"}, {0x10, "PERFORM SCQL OPERATION"}, {0x12, "PERFORM TRANSACTION OPERATION"}, {0x14, "PERFORM USER OPERATION"}, {0x20, "VERIFY"}, {0x21, "VERIFY"}, {0x22, "MANAGE SECURITY ENVIRONMENT"}, {0x24, "CHANGE REFERENCE DATA"}, {0x26, "DISABLE VERIFICATION REQUIREMENT"}, {0x28, "ENABLE VERIFICATION REQUIREMENT"}, {0x2A, "PERFORM SECURITY OPERATION"}, {0x2C, "RESET RETRY COUNTER"}, {0x44, "ACTIVATE FILE"}, {0x46, "GENERATE ASYMMETRIC KEY PAIR"}, {0x70, "MANAGE CHANNEL"}, {0x82, "EXTERNAL AUTHENTICATE"}, {0x84, "GET CHALLENGE"}, {0x86, "GENERAL AUTHENTICATE"}, {0x87, "GENERAL AUTHENTICATE"}, {0x88, "INTERNAL AUTHENTICATE"}, {0xA0, "SEARCH BINARY"}, {0xA1, "SEARCH BINARY"}, {0xA2, "SEARCH RECORD"}, {0xB0, "READ BINARY"}, {0xB1, "READ BINARY"}, {0xC0, "GET RESPONSE"}, {0xC2, "ENVELOPE"}, {0xC3, "ENVELOPE"}, {0xCA, "GET DATA"}, {0xCB, "GET DATA"}, {0xD0, "WRITE BINARY"}, {0xD1, "WRITE BINARY"}, {0xD2, "WRITE RECORD"}, {0xD6, "UPDATE BINARY"}, {0xD7, "UPDATE BINARY"}, {0xDC, "UPDATE RECORD"}, {0xDD, "UPDATE RECORD"}, {0xE0, "CREATE FILE"}, {0xE2, "APPEND RECORD"}, {0xE4, "DELETE FILE"}, {0xE6, "TERMINATE DF"}, {0xE8, "TERMINATE EF"}, {0xFE, "TERMINATE CARD USAGE"}};
	for (auto& c : INS) if (c.v == b[1]) return T(c.t);
	// command case from the lengths alone (ISO 7816-3:2006, 12.1.3)
	size_t n = b.size(); enum { C1, S2, S3, S4, E2, E3, E4, BAD } k = BAD; uint8_t P1 = b[2], P2 = b[3];
	if (n == 4) k = C1; else if (n == 5) k = S2; else if (b[4] && n == 5u + b[4]) k = S3; else if (b[4] && n == 6u + b[4]) k = S4; else if (!b[4] && n == 7) k = E2; else if (!b[4] && n > 7) { size_t lc = b[5] << 8 | b[6]; if (lc && n == 7 + lc) k = E3; else if (lc && n == 9 + lc) k = E4; }
	static const char* occ[] = {"first", "last", "next", "previous"};
	if (b[1] == 0xA4) {
		if (k != S2 && k != S4) return k == BAD ? REF : WHATEVER;
		if (!P1 && !P2 && (k == S2 || (b[4] == 2 && b[5] == 0x3F && b[6] == 0))) return T("SELECT Master File");
		if (k == S2) return REF;
		std::string id; bool pr = true; for (size_t i = 0; i < b[4]; ++i) { if (b[5 + i] < 0x20 || b[5 + i] > 0x7E) pr = false; id += (char)b[5 + i]; } if (!pr) id = hex(b.data() + 5, b[4]);
		return T(std::string("SELECT ") + occ[P2 & 3] + " " + id);
	}
	if (b[1] == 0xB2 || b[1] == 0xB3) {
		bool ok = b[1] == 0xB2 ? k == S2 || k == E2 : k == S4 || k == E4; if (!ok || P1 == 0xFF) return REF;
		bool num = P2 & 4; std::string rec = P1 == 0 ? "current record" : num ? fmt("record number %u", P1) : fmt("record identifier %u", P1), t = fmt("READ RECORD from short EF %u, ", P2 >> 3);
		if (!num) return T(t + occ[P2 & 3] + " occurence of " + rec);
		switch (P2 & 3) { case 0: return T(t + rec); case 1: return T(t + "all records from " + rec + " up to last"); case 2: return T(t + "all records from the last up to " + rec); default: return REF; }
	}
	if (b[1] == 0xDA || b[1] == 0xDB) {
		if (k == E3) return T("PUT DATA"); if (k != S3) return REF;
		if (b[1] == 0xDA) {
			if (P1 == 0 && P2 >= 0x40 && P2 <= 0xFE) return T(fmt("PUT DATA for BER-TLV field %02X", P2));
			if (P1 == 1) return T(fmt("PUT DATA for proprietary identifier %02X", P2)); if (P1 == 2 && P2 >= 1 && P2 <= 0xFE) return T(fmt("PUT DATA for SIMPLE-TLV field %02X", P2)); if (P1 >= 0x40) return T(fmt("PUT DATA for BER-TLV field %02X%02X", P1, P2));
		} else {
			if (P1 == 0 && P2 >= 1 && P2 <= 0x1E) return T(fmt("PUT DATA for short EF %u", P2)); if (P1 == 0x3F && P2 == 0xFF) return T("PUT DATA for current DF"); if (P1 || P2) return T(fmt("PUT DATA for file %02X%02X", P1, P2));
		}
		return T("PUT DATA");
	}
	return REF;
}
static Exp m_emv_capdu(const Bytes& b) {
	if (b.size() < 4 || b[0] == 0xFF) return REF; if (!(b[0] & 0x80)) return m_iso_capdu(b);
	switch (b[1]) { case 0x1E: return T("APPLICATION BLOCK"); case 0x18: return T("APPLICATION UNBLOCK"); case 0x16: return T("CARD BLOCK"); case 0xAE: return T("GENERATE AC"); case 0xCA: return T(fmt("GET DATA field %02X%02X", b[2], b[3])); case 0xA8: return T("GET PROCESSING OPTIONS"); case 0x24: return T("PIN CHANGE/UNBLOCK"); }
	return REF;
}
static std::vector<std::string> sw_texts(unsigned a, unsigned b) { // permitted texts
	static const std::map<unsigned, const char*> M = {
		{0x6200, "State of non-volatile memory is unchanged"}, {0x6281, "Part of returned data may be corrupted"}, {0x6282, "End of file or record reached before reading Ne bytes"}, {0x6283, "Selected file deactivated"}, {0x6284, "File control information not formatted according to ISO 7816-4:2005, 5.3.3"}, {0x6285, "Selected file in termination state"}, {0x6286, "No input data available from a sensor on the card"},
		{0x6300, "State of non-volatile memory has changed"}, {0x6381, "File filled up by the last write"}, {0x6400, "State of non-volatile memory is unchanged"}, {0x6401, "Immediate response required by card"}, {0x6500, "State of non-volatile memory has changed"}, {0x6581, "Memory failure"}, {0x6700, "Wrong length"},
		{0x6800, "Functions in CLA not supported"}, {0x6881, "Logical channel not supported"}, {0x6882, "Secure messaging not supported"}, {0x6883, "Last command of the chain expected"}, {0x6884, "Command chaining not supported"},
		{0x6900, "Command not allowed"}, {0x6981, "Command incompatible with file structure"}, {0x6982, "Security status not satisfied"}, {0x6983, "Authentication method blocked"}, {0x6984, "Reference data not usable"}, {0x6985, "Conditions of use not satisfied"}, {0x6986, "Command not allowed (no current EF)"}, {0x6987, "Expected secure messaging data objects missing"}, {0x6988, "Incorrect secure messaging data objects"},
		{0x6A00, "Wrong parameters P1-P2"}, {0x6A80, "Incorrect parameters in the command data field"}, {0x6A81, "Function not supported"}, {0x6A82, "File or application not found"}, {0x6A83, "Record not found"}, {0x6A84, "Not enough memory space in the file"}, {0x6A85, "Nc inconsistent with TLV structure"}, {0x6A86, "Incorrect parameters P1-P2"}, {0x6A87, "Nc inconsistent with parameters P1-P2"}, {0x6A88, "Referenced data or reference data not found"}, {0x6A89, "File already exists"}, {0x6A8A, "DF name already exists"},
		{0x6B00, "Wrong parameters P1-P2"}, {0x6D00, "Instruction code not supported or invalid"}, {0x6E00, "Class not supported"}, {0x6F00, "No precise diagnosis"},
	};
	if (a == 0x90 && !b) return {"Normal"};
	if (a == 0x61) return b ? std::vector<std::string>{fmt("Normal: %u data bytes remaining", b)} : std::vector<std::string>{"Normal: 0 data bytes remaining", "Normal: 256 data bytes remaining"};
	if (((a & 0xF0) != 0x60 && (a & 0xF0) != 0x90) || a == 0x60) return {"Invalid"};
	if ((a & 0xF0) == 0x90 || ((a == 0x67 || a == 0x6B || a == 0x6D || a == 0x6E || a == 0x6F) && b)) return {"Proprietary"};
	std::string p = a <= 0x63 ? "Warning: " : a <= 0x66 ? "Execution error: " : "Checking error: ";
	auto m = M.find(a << 8 | b); if (m != M.end()) return {p + m->second};
	if ((a == 0x62 || a == 0x64) && b >= 2 && b <= 0x80) return {p + fmt("Card-originated query of %u bytes", b)};
	if (a == 0x63 && (b & 0xF0) == 0xC0) return {p + fmt("Counter is %u", b & 15)};
	if (a == 0x66) return {p + fmt("Security error 0x%02X", b)};
	if (a == 0x6C) return b ? std::vector<std::string>{p + fmt("Wrong Le field (%u data bytes available)", b)} : std::vector<std::string>{p + "Wrong Le field (0 data bytes available)", p + "Wrong Le field (256 data bytes available)"};
	return {p + "Unknown"};
}
static const char* lcs_text(unsigned v) {
	if (v == 0) return "No information given"; if (v == 1) return "Creation state"; if (v == 3) return "Initialisation state";
	if (v == 5 || v == 7) return "Operational state (activated)"; if (v == 4 || v == 6) return "Operational state (deactivated)"; if (v >= 12 && v <= 15) return "Termination state";
	return "Proprietary";
}

// ------------------------------------------------------------------ generators
static Bytes g_n(Src& s, size_t n) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back((uint8_t)(s.draw(10) << 4 | s.draw(10))); if (n && s.chance(1, 6)) { size_t z = s.range(0, n - 1); for (size_t i = 0; i < z; ++i) b[i] = 0; } if (n && s.chance(1, 10)) b[s.draw(n)] = s.bbyte(); return b; }
static Bytes g_text(Src& s, size_t n, unsigned mode) {
	static const char an[] = "A0zZa9mM5"; Bytes b;
	for (size_t i = 0; i < n; ++i) b.push_back(mode == 0 ? (uint8_t)(s.chance(1, 2) ? s.range('A', 'Z') : s.range('a', 'z')) : mode == 1 ? (s.chance(1, 3) ? (uint8_t)s.range('0', '9') : s.chance(1, 2) ? (uint8_t)s.range('A', 'Z') : (uint8_t)s.range('a', 'z')) : mode == 2 ? (s.chance(1, 5) ? ' ' : (uint8_t)an[s.draw(9)]) : (uint8_t)s.range(0x20, 0x7E));
	if (n && s.chance(1, 8)) b[s.draw(n)] = s.chance(1, 2) ? s.pickl<uint8_t>({'@', '[', '`', '{', '/', ':', 0x1F, 0x20, 0x7F, 0x80, 0}) : s.byte();
	return b;
}
static Bytes g_cn(Src& s, size_t n) { Bytes b = g_n(s, n); if (n && s.chance(3, 4)) { size_t pad = s.draw(std::min<size_t>(2 * n, 6) + 1); for (size_t i = 2 * n - pad; i < 2 * n; ++i) b[i / 2] |= i & 1 ? 15 : 0xF0; } if (n && s.chance(1, 15)) b[s.draw(n)] ^= (uint8_t)s.byte(); return b; }
static Bytes fixed(Src& s, size_t n) { return s.bbytes(s.chance(1, 12) ? s.draw(n + 3) : n); }
static Bytes g_afl(Src& s) {
	Bytes b; size_t n = s.chance(1, 10) ? s.range(0, 64) : s.range(1, 6);
	for (size_t i = 0; i < n; ++i) { uint8_t f = (uint8_t)s.range(1, s.chance(1, 4) ? 255 : 9), l = (uint8_t)(f + s.draw(std::min(256 - f, s.chance(1, 5) ? 256 : 5))); uint8_t oda = (uint8_t)s.draw((unsigned)(l - f + 2)); uint8_t sfi = (uint8_t)(s.range(1, 30) << 3); if (s.chance(1, 25)) { sfi = s.bbyte(); f = s.bbyte(); } add(b, {sfi, f, l, oda}); }
	if (s.chance(1, 15)) b.resize(b.size() + s.range(1, 3), 1); return b;
}
static Bytes g_cvmlist(Src& s) {
	Bytes b = s.bbytes(8); if (s.chance(1, 3)) { size_t o = s.draw(3); for (size_t i = 0; i < 4; ++i) if (o == 2) b[4 + i] = b[i]; else b[4 * o + i] = 0; } size_t n = s.chance(1, 12) ? s.range(0, 125) : s.range(1, 5);
	for (size_t i = 0; i < n; ++i) { b.push_back((uint8_t)(s.chance(1, 4) ? s.byte() : (s.pickl<uint8_t>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0x1E, 0x1F, 0x3F, 0x1D, 0x10}) | (s.chance(1, 2) ? 0x40 : 0)))); b.push_back(s.chance(1, 8) ? s.byte() : (uint8_t)s.draw(11)); }
	if (s.chance(1, 15)) b.resize(s.draw(b.size() + 1)); return b;
}
static Bytes g_iad(Src& s) {
	static const size_t ls[] = {7, 18, 20, 26, 28, 32, 9, 15}; size_t n = s.chance(1, 6) ? s.draw(36) : s.pick(ls); Bytes a = s.bbytes(n);
	auto set = [&](size_t i, uint8_t v) { if (i < a.size() && !s.chance(1, 15)) a[i] = v; };
	switch (s.draw(4)) { case 0: set(0, 0x0F); set(1, s.chance(1, 2) ? 0xA5 : 0xA6); set(16, 0x0F); break; case 1: set(1, (uint8_t)(0x10 | s.draw(2) | s.draw(2) << 2)); break; case 2: set(0, 6); set(2, (uint8_t)(s.pickl({0, 1, 3, 3, 2}) << 4 | s.draw(16))); set(3, 3); break; default: set(0, 0x1F); set(1, (uint8_t)(s.pickl({2, 4, 2, 4, 3}) << 4 | s.draw(16))); set(8, (uint8_t)s.draw(16)); break; }
	return a;
}
static Bytes g_numcode(Src& s) { static const unsigned known[] = {826, 840, 978, 710, 36, 4, 8, 276, 250, 392, 752, 643, 999, 1, 0, 12}; unsigned v = s.chance(1, 2) ? s.pick(known) : (unsigned)s.draw(10000); Bytes b{(uint8_t)(v / 1000 << 4 | v / 100 % 10), (uint8_t)(v / 10 % 10 << 4 | v % 10)}; if (s.chance(1, 15)) b[s.draw(2)] = s.byte(); if (s.chance(1, 20)) b.resize(s.draw(5)); return b; }
static Bytes g_lang(Src& s) { static const char* known[] = {"en", "fr", "de", "zu", "af", "EN", "De", "xx", "aa", "cu", "ia"}; Bytes b; size_t n = s.chance(1, 10) ? s.range(0, 12) : s.range(1, 4); for (size_t i = 0; i < n; ++i) { if (s.chance(2, 3)) { const char* k = s.pick(known); b.push_back((uint8_t)k[0]); b.push_back((uint8_t)k[1]); } else { b.push_back((uint8_t)s.range('a', 'z')); b.push_back((uint8_t)s.range('A', 'z')); } } if (s.chance(1, 12)) b.push_back('e'); if (!b.empty() && s.chance(1, 20)) b[s.draw(b.size())] = s.bbyte(); return b; }
static Bytes g_tpd(Src& s) {
	Bytes b = g_numcode(s); b.resize(2, 0); add(b, s.pickl<Bytes>({{0, 0}, {0, 3}, {0x80, 3}, {0x12, 0x34}, {0x80, 0}, {0xFF, 0xFF}, {0, 3}, {0x80, 3}})); if (s.chance(1, 4)) b[2 + s.draw(2)] ^= (uint8_t)(1 << s.draw(8)); // near misses of the identifiers
	if (!(b[2] & 0x80)) { if (s.chance(1, 10)) { b.push_back(s.byte()); b.push_back(s.byte()); } else { b.push_back((uint8_t)s.range('0', '3')); b.push_back((uint8_t)s.range('0', '9')); } }
	unsigned id = b[2] << 8 | b[3];
	if (id == 0) b.push_back(s.chance(1, 8) ? s.bbyte() : 0);
	else if ((id & 0x7FFF) == 3) { switch (s.draw(3)) { case 0: add(b, {0, 1, s.pickl<uint8_t>({0, 1, 2, 3, 0x80}), s.byte(), s.pickl<uint8_t>({0, 0x80, 0x40, 0xC0, 1}), 0, 0, 0}); break; case 1: add(b, {0, 2, s.pickl<uint8_t>({0, 0x80, 1, 0x7F, 0xFF}), s.chance(1, 5) ? s.byte() : (uint8_t)s.draw(10), s.byte()}); break; default: add(b, s.bbytes(s.range(1, 10))); } }
	else add(b, s.bbytes(s.range(1, 12)));
	if (s.chance(1, 12)) { if (s.chance(1, 2)) b.resize(s.draw(b.size() + 1)); else b.resize(b.size() + s.range(1, 24), 0); }
	return b;
}
static Bytes g_issuerauth(Src& s) { Bytes b = s.bbytes(s.chance(1, 6) ? s.draw(20) : (size_t)s.pickl({8, 10, 9, 12, 16, 10})); if (b.size() >= 8 && s.chance(2, 3)) { b[4] &= 0x8F; b[6] = 0; } if (b.size() == 10) switch (s.draw(4)) { case 0: { Bytes t = g_text(s, 2, 1); b[8] = t[0]; b[9] = t[1]; break; } case 1: b[8] &= 15; break; default: break; } return b; }
static Bytes g_arc(Src& s) { if (s.chance(2, 3)) { const char* c = ARC_DESC[s.draw(sizeof ARC_DESC / sizeof *ARC_DESC)].code; return {(uint8_t)c[0], (uint8_t)c[1]}; } return g_text(s, s.chance(1, 10) ? s.draw(5) : 2, 1); }
static Bytes g_asrpd(Src& s) { Bytes b; size_t n = s.range(1, 5); for (size_t i = 0; i < n; ++i) { Bytes id = s.pickl<Bytes>({{0, 1}, {0, 3}, {0, 2}, {1, 0}, {3, 1}}); if (s.chance(1, 4)) id[s.draw(2)] ^= (uint8_t)(1 << s.draw(8)); add(b, id); size_t l = s.len(0, 20); b.push_back((uint8_t)l); add(b, s.bbytes(l)); } if (s.chance(1, 6)) { if (s.chance(1, 2)) b.resize(s.draw(b.size() + 1)); else add(b, s.bbytes(s.range(1, 4))); } return b; }
static Bytes g_aid(Src& s) { Bytes b = unhex(s.pick(AIDS)); if (s.chance(1, 3)) add(b, s.bbytes(s.len(0, 10))); if (s.chance(1, 8)) b.resize(s.draw(b.size() + 1)); if (!b.empty() && s.chance(1, 8)) b[s.draw(b.size())] ^= 1 << s.draw(8); return b; }
static Bytes g_capdu(Src& s) {
	static const uint8_t ins[] = {0xA4, 0xA4, 0xA4, 0xB2, 0xB2, 0xB3, 0xDA, 0xDB, 0xDA, 0x1E, 0x18, 0x16, 0xAE, 0xCA, 0xA8, 0x24, 0x84, 0x88, 0x20, 0xC0, 0xFE};
	Bytes b{s.chance(1, 3) ? (uint8_t)0x80 : s.chance(1, 8) ? s.bbyte() : (uint8_t)0, s.chance(1, 5) ? s.byte() : s.pick(ins), s.chance(1, 2) ? (uint8_t)s.draw(5) : s.bbyte(), s.chance(1, 3) ? (uint8_t)s.draw(5) : s.byte()};
	switch (s.weighted({1, 4, 4, 6, 1, 1, 1})) {
		case 0: break; case 1: b.push_back(s.bbyte()); break;
		case 2: case 3: { size_t l = s.chance(1, 8) ? s.range(200, 255) : s.len(1, 20); Bytes d = s.chance(1, 2) ? g_text(s, l, 3) : s.bbytes(l); if (l == 2 && s.chance(1, 2)) d = {0x3F, 0}; b.push_back((uint8_t)l); add(b, d); if (s.chance(2, 3)) b.push_back(s.bbyte()); break; }
		case 4: add(b, {0, s.byte(), s.byte()}); break;
		case 5: { size_t l = s.len(1, 300); add(b, {0, (uint8_t)(l >> 8), (uint8_t)l}); add(b, s.bbytes(l)); if (s.chance(1, 2)) add(b, {s.byte(), s.byte()}); break; }
		default: add(b, s.bbytes(s.len(1, 30))); }
	if (s.chance(1, 10)) b.resize(s.draw(b.size() + 1)); return b;
}
static Bytes g_bits(Src& s, const char* n) { size_t l = bit_table(n)->base.size(); Bytes b = s.chance(1, 2) ? s.bytes(l) : s.bbytes(l); if (s.chance(1, 4)) { b.assign(l, 0); b[s.draw(l)] = 1 << s.draw(8); } if (s.chance(1, 15)) b.resize(s.draw(l + 3), 0x55); return b; }

// ------------------------------------------------------------------ kinds of text
enum LT { SCALAR, EMVLIST, ISOLIST };
struct Kind { const char* name; LT lt; int prop; size_t exact; // exact > 0: value of exactly this many octets passed by value
	int (*call)(const uint8_t*, size_t, char*, size_t); Bytes (*gen)(Src&); Exp (*exp)(const Bytes&); size_t (*need)(const Bytes&, const std::string&); };
static size_t need_text(const Bytes&, const std::string& t) { return t.size() + 1; }
static size_t need_n1(const Bytes& b, const std::string&) { return b.size() + 1; }
static size_t need_2n1(const Bytes& b, const std::string&) { return 2 * b.size() + 1; }
static size_t need_arc(const Bytes&, const std::string& t) { return std::max<size_t>(t.size() + 1, 10); }
#define DIRECT(f) [](const uint8_t* p, size_t n, char* s, size_t l) { return f(p, n, s, l); }
#define BYVAL(f) [](const uint8_t* p, size_t, char* s, size_t l) { return f(*p, s, l); }
#define GEN [](Src& s) -> Bytes
#define EXPB(n) [](const Bytes& b) { return bits(n, b); }
#define BITK(n, f) {n, EMVLIST, 25, 0, DIRECT(f), GEN { return g_bits(s, n); }, EXPB(n), need_text}
static Bytes g_byte(Src& s) { return {s.byte()}; }
static const Kind KINDS[] = {
	{"a", SCALAR, 26, 0, DIRECT(emv_format_a_get_string), GEN { return g_text(s, s.len(1, 40), 0); }, [](const Bytes& b) { return chars(b, false, false, false); }, need_n1},
	{"an", SCALAR, 26, 0, DIRECT(emv_format_an_get_string), GEN { return g_text(s, s.len(1, 40), 1); }, [](const Bytes& b) { return chars(b, true, false, false); }, need_n1},
	{"sp", SCALAR, 26, 0, DIRECT(emv_format_ans_only_space_get_string), GEN { return g_text(s, s.len(1, 40), 2); }, [](const Bytes& b) { return chars(b, true, true, false); }, need_n1},
	{"ans", SCALAR, 26, 0, DIRECT(emv_format_ans_ccs_get_string), GEN { return g_text(s, s.len(1, 90), 3); }, [](const Bytes& b) { return chars(b, true, true, true); }, need_n1},
	{"cn", SCALAR, 26, 0, DIRECT(emv_format_cn_get_string), GEN { return g_cn(s, s.len(1, 20)); }, m_cn, need_2n1},
	{"n", SCALAR, 26, 0, DIRECT(emv_format_n_get_string), GEN { return g_n(s, s.len(1, 20)); }, m_n, need_text},
	{"amount", SCALAR, 26, 0, DIRECT(emv_amount_get_string), GEN { Bytes b = s.bbytes(s.chance(1, 10) ? s.draw(9) : s.range(1, 4)); if (b.size() == 4 && s.chance(1, 3)) { uint64_t v = 1; for (size_t k = s.draw(10); k; --k) v *= 10; v -= s.draw(2); for (int i = 0; i < 4; ++i) b[i] = (uint8_t)(v >> (24 - 8 * i)); } return b; }, m_amount, need_text},
	{"date", SCALAR, 26, 0, DIRECT(emv_date_get_string), GEN { return g_n(s, s.chance(1, 10) ? s.draw(6) : 3); }, m_date, need_text},
	{"time", SCALAR, 26, 0, DIRECT(emv_time_get_string), GEN { return g_n(s, s.chance(1, 10) ? s.draw(6) : 3); }, m_time, need_text},
	{"txntype", SCALAR, 26, 1, BYVAL(emv_transaction_type_get_string), GEN { return Bytes{(uint8_t)(s.chance(1, 2) ? s.pick(TXN).v : s.byte())}; }, [](const Bytes& b) { return coded(TXN, b); }, need_text},
	{"account", SCALAR, 26, 1, BYVAL(emv_account_type_get_string), GEN { return Bytes{(uint8_t)(s.chance(1, 2) ? s.pick(ACCOUNT).v : s.byte())}; }, [](const Bytes& b) { return coded(ACCOUNT, b); }, need_text},
	{"posentry", SCALAR, 26, 1, BYVAL(emv_pos_entry_mode_get_string), GEN { return Bytes{(uint8_t)(s.chance(2, 3) ? s.pick(POS).v : s.byte())}; }, [](const Bytes& b) { return coded(POS, b); }, need_text},
	{"mcc", SCALAR, 26, 0, DIRECT(emv_mcc_get_string), GEN { if (s.chance(1, 2)) { unsigned v = MCCS[s.draw(5)].code; return Bytes{(uint8_t)(v / 1000 << 4 | v / 100 % 10), (uint8_t)(v / 10 % 10 << 4 | v % 10)}; } return g_numcode(s); }, m_mcc, need_text},
	{"aid", SCALAR, 26, 0, DIRECT(emv_aid_get_string), g_aid, m_aid, need_text},
	{"track2", SCALAR, 26, 0, DIRECT(emv_track2_equivalent_data_get_string), GEN { Bytes b = g_cn(s, s.len(1, 20)); if (s.chance(3, 4) && b.size() > 1) { size_t i = s.draw(b.size() * 2); b[i / 2] = i & 1 ? (b[i / 2] & 0xF0) | 13 : (b[i / 2] & 15) | 0xD0; } return b; }, m_track2, need_2n1},
	{"arc", SCALAR, 26, 0, DIRECT(emv_auth_response_code_get_string), g_arc, m_arc, need_arc},
	{"asrpd", EMVLIST, 26, 0, DIRECT(emv_asrpd_get_string_list), g_asrpd, m_asrpd, need_text},
	{"afl", EMVLIST, 26, 0, DIRECT(emv_afl_get_string_list), g_afl, m_afl, need_text},
	{"refcurrencies", EMVLIST, 26, 0, DIRECT(emv_app_reference_currency_get_string_list), GEN { Bytes b; size_t n = s.range(1, 5); for (size_t i = 0; i < n; ++i) { Bytes c = g_numcode(s); if (!s.chance(1, 30)) c.resize(2); add(b, c); } return b; }, m_refcur, need_text},
	{"languages", EMVLIST, 26, 0, DIRECT(emv_language_preference_get_string_list), g_lang, m_langs, need_text},
	{"cvmlist", EMVLIST, 26, 0, DIRECT(emv_cvm_list_get_string_list), g_cvmlist, m_cvmlist, need_text},
	{"cvmresults", EMVLIST, 26, 0, DIRECT(emv_cvm_results_get_string_list), GEN { Bytes b{s.chance(1, 4) ? s.byte() : s.pickl<uint8_t>({0, 1, 2, 3, 4, 5, 0x1E, 0x1F, 0x3F, 0x41, 0x5F, 0x7F}), s.chance(1, 6) ? s.byte() : (uint8_t)s.draw(11), s.chance(1, 5) ? s.byte() : (uint8_t)s.draw(4)}; if (s.chance(1, 15)) b.resize(s.draw(6)); return b; }, m_cvmres, need_text},
	{"issuerauth", EMVLIST, 26, 0, DIRECT(emv_issuer_auth_data_get_string_list), g_issuerauth, m_issuerauth, need_text},
	{"tpd", EMVLIST, 26, 0, DIRECT(emv_mastercard_third_party_data_get_string_list), g_tpd, m_tpd, need_text},
	{"iad", EMVLIST, 26, 0, DIRECT(emv_iad_get_string_list), g_iad, m_iad, need_text},
	{"cid", EMVLIST, 25, 1, BYVAL(emv_cid_get_string_list), g_byte, EXPB("cid"), need_text},
	{"term_type", EMVLIST, 25, 1, BYVAL(emv_term_type_get_string_list), g_byte, [](const Bytes& b) { return b[0] ? bits("term_type", b) : REF; }, need_text},
	{"amex_caps", SCALAR, 25, 1, BYVAL(emv_amex_cl_reader_caps_get_string), g_byte, [](const Bytes& b) { Exp e = bits("amex_caps", b); if (!e.t.empty()) e.t.pop_back(); return e; }, need_text},
	BITK("term_caps", emv_term_caps_get_string_list), BITK("addl_term_caps", emv_addl_term_caps_get_string_list), BITK("aip", emv_aip_get_string_list), BITK("auc", emv_app_usage_control_get_string_list), BITK("tvr", emv_tvr_get_string_list), BITK("tsi", emv_tsi_get_string_list),
	BITK("trmd", emv_terminal_risk_management_data_get_string_list), BITK("ttq", emv_ttq_get_string_list), BITK("ctq", emv_ctq_get_string_list), BITK("amex_enh", emv_amex_enh_cl_reader_caps_get_string_list),
	{"ffi", EMVLIST, 25, 0, DIRECT(emv_visa_form_factor_indicator_get_string_list), GEN { Bytes b = g_bits(s, "ffi1"); if (!b.empty() && s.chance(3, 4)) b[0] = 0x20 | (b[0] & 31); return b; }, m_ffi, need_text},
	{"card_service", ISOLIST, 28, 1, BYVAL(iso7816_card_service_data_get_string_list), g_byte, EXPB("card_service"), need_text},
	{"card_caps", ISOLIST, 28, 0, DIRECT(iso7816_card_capabilities_get_string_list), GEN { return s.bbytes(s.chance(1, 15) ? s.draw(6) : s.range(1, 3)); }, [](const Bytes& b) { if (b.empty()) return REF; if (b.size() > 2 && (b[2] & 0x18) == 0x18) return WHATEVER; Bytes c(b.begin(), b.begin() + std::min<size_t>(3, b.size())); return L(bit_lines(c.size() == 1 ? "card_caps1" : c.size() == 2 ? "card_caps2" : "card_caps3", c)); }, need_text},
	{"capdu", SCALAR, 28, 0, DIRECT(emv_capdu_get_string), g_capdu, m_emv_capdu, need_text},
	{"iso_capdu", SCALAR, 28, 0, [](const uint8_t* p, size_t n, char* s, size_t l) { const char* r = iso7816_capdu_get_string(p, n, s, l); if (r && r != s) vh::fail("iso7816_capdu_get_string returned another pointer"); return r ? 0 : 1; }, g_capdu, m_iso_capdu, need_text},
	{"sw1sw2", SCALAR, 28, 2, [](const uint8_t* p, size_t, char* s, size_t l) { return iso7816_sw1sw2_get_string(p[0], p[1], s, l) ? 0 : 1; }, GEN { return Bytes{s.chance(4, 5) ? (uint8_t)s.range(0x60, 0x6F) : s.byte(), s.chance(1, 2) ? s.byte() : s.pickl<uint8_t>({0, 1, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0xC0, 0xCF})}; }, [](const Bytes& b) { auto v = sw_texts(b[0], b[1]); return v.size() == 1 ? T(v[0]) : WHATEVER; }, need_text},
};
static const size_t NKINDS = sizeof KINDS / sizeof *KINDS;
static const Kind* kind(const std::string& n) { for (auto& k : KINDS) if (n == k.name) return &k; return nullptr; }
// A value of the kind, sometimes with a single bit changed: identifiers, formats and codes which are nearly, but not quite, a known one
static Bytes gen_near(const Kind& k, Src& s) { Bytes b = k.gen(s); if (!b.empty() && s.chance(1, 8)) b[s.draw(s.chance(1, 2) ? std::min<size_t>(b.size(), 5) : b.size())] ^= (uint8_t)(1 << s.draw(8)); return b; }

struct Got { int r; std::string t; };
static Got run(const Kind& k, const Bytes& b, size_t cap, uint8_t fill) {
	Exact x(b), o(cap, fill); int r = k.call(x.p, x.n, o.c(), cap);
	REQUIRE(x.vec() == b, "%s: input %s modified", k.name, hex(b).c_str());
	if (r) return {r, ""};
	const void* z = memchr(o.p, 0, cap);
	REQUIRE(z, "%s of %s: text in a buffer of %zu octets is not NUL terminated", k.name, hex(b).c_str(), cap);
	return {0, std::string(o.c())};
}
static size_t big(const Bytes& b) { return 4096 + 160 * b.size(); }
static Got full(const Kind& k, const Bytes& b) {
	Got a = run(k, b, big(b), 0), c = run(k, b, big(b), 0xA5);
	REQUIRE(a.r == c.r && a.t == c.t, "%s of %s: result depends on the previous content of the buffer: %d \"%s\" and %d \"%s\"", k.name, hex(b).c_str(), a.r, a.t.c_str(), c.r, c.t.c_str());
	return a;
}
static void match(const char* name, const Bytes& b, const Got& g, const Exp& e) {
	if (e.k == Exp::ANY) return;
	if (e.k == Exp::REFUSE) { REQUIRE(g.r != 0, "%s of %s: explained as \"%s\" although it does not have the required structure", name, hex(b).c_str(), g.t.c_str()); return; }
	REQUIRE(g.r == 0, "%s of %s: failed with %d, expected \"%s\"", name, hex(b).c_str(), g.r, e.t.c_str());
	REQUIRE(g.t == e.t, "%s of %s: text \"%s\" expected \"%s\"", name, hex(b).c_str(), g.t.c_str(), e.t.c_str());
}
static void decide(const Kind& k, const Bytes& b, Src& s) {
	Exp e = k.exp(b); Got g = full(k, b); match(k.name, b, g, e);
	if (g.r > 0 && k.name == std::string("afl")) { // an AFL is explained as a whole or not at all
		Exact x(b), o(big(b), (uint8_t)0); k.call(x.p, x.n, o.c(), o.n); REQUIRE(!o.c()[0], "afl of %s: refused, but entries before the invalid one are listed", hex(b).c_str());
	}
	s.label(k.name); if (e.k == Exp::TEXT && !e.t.empty()) s.nontrivial();
}
static void absent(const Kind& k) {
	if (k.exact) return; Exact o((size_t)64, 0xA5); Bytes before = o.vec();
	int r = k.call(nullptr, 0, o.c(), o.n); REQUIRE(r != 0, "%s: absent value accepted", k.name);
	uint8_t one = 0; r = k.call(&one, 0, o.c(), o.n); REQUIRE(r != 0, "%s: empty value accepted", k.name);
}

// ------------------------------------------------------------------ C25
struct BitByte { const BTab* t; int b; };
static std::vector<BitByte> bit_bytes() { std::vector<BitByte> v; for (auto& t : BITS) { std::set<int> seen; for (auto& g : t.segs) if (g.b >= 0 && seen.insert(g.b).second) v.push_back({&t, g.b}); } return v; }
static const std::vector<BitByte> BB = bit_bytes();
static const Kind* kind_of_table(const std::string& n) { if (n.compare(0, 4, "iad_") == 0) return kind("iad"); if (n == "ffi1") return kind("ffi"); if (n.compare(0, 9, "card_caps") == 0) return kind("card_caps"); return kind(n); }
VH_ENUM(C25, every_value, BB.size() * 256, "every value of every meaningful byte of every bit-mapped field, with the other bytes zero and with several random others") {
	const BitByte& bb = BB[s.index / 256]; const Kind* k = kind_of_table(bb.t->name); Bytes b = bb.t->base; b[bb.b] = (uint8_t)s.index;
	if (s.want()) s.desc(fmt("%s byte %d value %02X", bb.t->name, bb.b + 1, (unsigned)(s.index & 255)));
	init_lists(); decide(*k, b, s); s.nontrivial();
	for (int i = 0; i < 6; ++i) { Bytes c = s.bytes(b.size()); bool iad = k->name == std::string("iad"); if (iad) { bool bad; c[0] = b[0]; if (!iad_kind(c, &bad) || i & 1) { Bytes d = b; for (size_t j = 0; j < d.size(); ++j) { uint8_t old = d[j]; d[j] = c[j]; const char* kk = iad_kind(d, &bad); if (!kk || strcmp(kk, bb.t->name)) d[j] = old; } c = d; } } c[bb.b] = (uint8_t)s.index; decide(*k, c, s); }
}
VH_PROP(C25, random, 200000, 6000000, "random values (dense, sparse, boundary and single-bit) of every bit-mapped field; non-trivial: text expected") {
	static const char* names[] = {"term_caps", "addl_term_caps", "aip", "auc", "tvr", "tsi", "trmd", "ttq", "ctq", "amex_enh", "ffi", "iad", "iad", "card_caps", "card_service", "cid", "term_type", "amex_caps"};
	init_lists(); const Kind* k = kind(s.pick(names)); Bytes b = gen_near(*k, s); if (s.want()) s.desc(std::string(k->name) + " " + hex(b)); decide(*k, b, s);
	if (s.chance(1, 50)) absent(*k);
}
VH_PROP(C25, bit_independence, 60000, 2000000, "two random values of one field that differ in one bit: lines contributed by the other bytes are the same; non-trivial: the texts differ") {
	static const char* names[] = {"term_caps", "aip", "auc", "tvr", "tsi", "trmd", "ttq", "ctq", "amex_enh"};
	const Kind* k = kind(s.pick(names)); const BTab* t = bit_table(k->name); Bytes b = s.bytes(t->base.size()), c = b; size_t i = s.draw(b.size()); c[i] ^= 1 << s.draw(8);
	if (s.want()) s.desc(std::string(k->name) + " " + hex(b) + " / " + hex(c));
	Got x = full(*k, b), y = full(*k, c); REQUIRE(!x.r && !y.r, "%s: %s or %s refused", k->name, hex(b).c_str(), hex(c).c_str());
	// the longest common prefix and suffix, in whole lines, must cover everything but the lines of byte i
	auto split = [](const std::string& t) { std::vector<std::string> v; size_t p = 0, q; while ((q = t.find('\n', p)) != std::string::npos) { if (t.compare(p, q - p, "RFU")) v.push_back(t.substr(p, q - p)); p = q + 1; } return v; };
	auto u = split(x.t), v = split(y.t); auto count = [](const std::vector<std::string>& l) { return l.size() - (size_t)std::count(l.begin(), l.end(), "RFU"); }; size_t own = 0, own2 = 0; for (auto& g : t->segs) { if (g.b >= 0 && (size_t)g.b == i) { own += count(bit_rules(g, b[i])); own2 += count(bit_rules(g, c[i])); } }
	REQUIRE(u.size() - own == v.size() - own2, "%s: changing byte %zu of %s to %02X changed lines of other bytes", k->name, i + 1, hex(b).c_str(), c[i]);
	std::multiset<std::string> d1(u.begin(), u.end()), d2(v.begin(), v.end()); size_t common = 0; for (auto& l : d1) { auto it = d2.find(l); if (it != d2.end()) { d2.erase(it); ++common; } }
	REQUIRE(common >= u.size() - own, "%s: changing byte %zu of %s to %02X changed lines of other bytes", k->name, i + 1, hex(b).c_str(), c[i]); if (x.t != y.t) s.nontrivial();
}

// ------------------------------------------------------------------ C26
VH_PROP(C26, random, 400000, 12000000, "generated values of every structured kind, mostly well formed; non-trivial: text expected") {
	static std::vector<const Kind*> ks; if (ks.empty()) for (auto& k : KINDS) if (k.prop == 26) ks.push_back(&k);
	init_lists(); const Kind& k = *ks[s.draw(ks.size())]; Bytes b = gen_near(k, s); if (s.want()) s.desc(std::string(k.name) + " " + hex(b)); decide(k, b, s);
	if (s.chance(1, 50)) absent(k);
}
VH_ENUM(C26, single, 256 * 4, "every transaction type, account type, POS entry mode and cryptogram information octet") { static const char* n[] = {"txntype", "account", "posentry", "cid"}; decide(*kind(n[s.index >> 8]), Bytes{(uint8_t)s.index}, s); }
VH_ENUM(C26, arc, 65536, "every two octet authorisation response code") { decide(*kind("arc"), Bytes{(uint8_t)(s.index >> 8), (uint8_t)s.index}, s); }
VH_ENUM(C26, mcc, 65536, "every two octet merchant category code") { init_lists(); decide(*kind("mcc"), Bytes{(uint8_t)(s.index >> 8), (uint8_t)s.index}, s); }
VH_ENUM(C26, currency, 65536, "every two octet currency code") { init_lists(); decide(*kind("refcurrencies"), Bytes{(uint8_t)(s.index >> 8), (uint8_t)s.index}, s); }
VH_ENUM(C26, language, 65536, "every two octet language code") { init_lists(); decide(*kind("languages"), Bytes{(uint8_t)(s.index >> 8), (uint8_t)s.index}, s); }
VH_ENUM(C26, cvm, 65536, "every CVM code with every condition code, as a list rule and as a result") {
	Bytes r{(uint8_t)(s.index >> 8), (uint8_t)s.index}, b{0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0}; add(b, r); decide(*kind("cvmlist"), b, s); r.push_back((uint8_t)(s.index % 5)); decide(*kind("cvmresults"), r, s);
}
VH_ENUM(C26, device_type, 65536, "every two octet device type of third party data") { init_lists(); decide(*kind("tpd"), Bytes{0x08, 0x26, 0, 0, (uint8_t)(s.index >> 8), (uint8_t)s.index, 0}, s); }
VH_ENUM(C26, tpd_product, 256 * 6, "every value of each decoded product extension octet, with and without a device type") {
	uint8_t v = (uint8_t)s.index; unsigned w = s.index >> 8; Bytes b{0x08, 0x40}; if (w & 1) add(b, {0, 3, '0', '1'}); else add(b, {0x80, 3});
	if (w < 2) add(b, {0, 1, v, 0x0A, 0x80, 0, 0, 0}); else if (w < 4) add(b, {0, 1, 2, v, (uint8_t)(v ^ 0x40), 0, 0, 0}); else add(b, {0, 2, (uint8_t)(v * 5), v, 0});
	init_lists(); decide(*kind("tpd"), b, s);
}
VH_ENUM(C26, issuer_auth, 65536, "every value of the first two CSU octets, and of the two octets behind an ARPC") {
	Bytes b{1, 2, 3, 4, (uint8_t)(s.index >> 8), (uint8_t)s.index, 0, 0}; decide(*kind("issuerauth"), b, s); b[7] = 0x5A; b.resize(11, 0x77); decide(*kind("issuerauth"), b, s);
	Bytes c{0xA1, 0xB2, 0xC3, 0xD4, 0x0E, 0xF5, 0, 0x17, (uint8_t)(s.index >> 8), (uint8_t)s.index}; decide(*kind("issuerauth"), c, s);
}
VH_ENUM(C26, digits, 65536, "every two octets as n, cn, track 2 and binary amount, alone and with an octet before or behind") {
	uint8_t a = (uint8_t)(s.index >> 8), b = (uint8_t)s.index; static const char* ks[] = {"n", "cn", "track2", "amount"};
	for (auto k : ks) { decide(*kind(k), {a, b}, s); decide(*kind(k), {0, a, b}, s); decide(*kind(k), {0x12, a, b}, s); decide(*kind(k), {a, b, 0x30}, s); } decide(*kind("date"), {a, b, 0x09}, s); decide(*kind("date"), {0x26, a, b}, s); decide(*kind("time"), {a, b, 0x59}, s); decide(*kind("time"), {0x23, a, b}, s);
}
VH_ENUM(C26, characters, 256 * 4 * 3, "every octet as a, an, an with space, and ans character, alone, first and last") {
	static const char* ks[] = {"a", "an", "sp", "ans"}; uint8_t c = (uint8_t)s.index; unsigned w = s.index >> 8; Bytes b; if (w % 3 == 0) b = {c}; else if (w % 3 == 1) b = {c, 'x', 'Y'}; else b = {'x', 'Y', c}; decide(*kind(ks[w / 3]), b, s);
}

// ------------------------------------------------------------------ C24
static bool is_line_subsequence(const std::string& t, const std::string& full) {
	size_t p = 0, q = 0; if (!t.empty() && t.back() != '\n') return false;
	while (p < t.size()) { size_t e = t.find('\n', p); std::string l = t.substr(p, e - p + 1); for (;;) { if (q >= full.size()) return false; size_t f = full.find('\n', q); if (f == std::string::npos) return false; bool same = full.compare(q, f - q + 1, l) == 0; q = f + 1; if (same) break; } p = e + 1; }
	return true;
}
static void check_cut(const char* name, const Bytes& b, LT lt, const std::string& t, const std::string& f, size_t cap) {
	if (lt == SCALAR) REQUIRE(f.compare(0, t.size(), t) == 0, "%s of %s: buffer of %zu octets holds \"%s\" which is not a prefix of \"%s\"", name, hex(b).c_str(), cap, t.c_str(), f.c_str());
	else {
		std::string u = t; if (!u.empty() && u.back() == '\n') u.pop_back();
		REQUIRE(f.compare(0, u.size(), u) == 0 || is_line_subsequence(t, f), "%s of %s: buffer of %zu octets holds \"%s\" which is not a part of \"%s\"", name, hex(b).c_str(), cap, t.c_str(), f.c_str());
	}
}
static std::vector<size_t> sizes(Src& s, const std::string& f) {
	std::set<size_t> z; if (f.size() <= 40 && s.chance(3, 4)) for (size_t i = 1; i <= f.size() + 3; ++i) z.insert(i);
	else { for (size_t i : {(size_t)1, (size_t)2, (size_t)3, (size_t)4, f.size() - 1, f.size(), f.size() + 1, f.size() + 2}) if (i >= 1 && i < f.size() + 4) z.insert(i); for (int i = 0; i < 5; ++i) z.insert(s.range(1, f.size() + 2)); size_t p = 0; int n = 0; while ((p = f.find('\n', p)) != std::string::npos && n++ < 4) { ++p; for (size_t i = p; i < p + 4; ++i) z.insert(i); } }
	return std::vector<size_t>(z.begin(), z.end());
}
VH_PROP(C24, sizes, 60000, 3000000, "a value of every kind rendered into buffers of every size up to its text length (all sizes of short texts; ends, line ends and random sizes of long ones), each an exact heap block; non-trivial: a shorter buffer succeeded with other text than the full one") {
	init_lists(); const Kind& k = KINDS[s.draw(NKINDS)]; Bytes b = s.chance(1, 12) && !k.exact ? s.bbytes(s.len(0, 300)) : gen_near(k, s);
	if (s.want()) s.desc(std::string(k.name) + " " + hex(b)); s.label(k.name);
	Got f = full(k, b);
	if (s.chance(1, 8)) { Exact x(b); char c[4] = {1, 2, 3, 4}; k.call(x.p, x.n, nullptr, 0); k.call(x.p, x.n, c, 0); REQUIRE(c[0] == 1 && c[3] == 4, "%s of %s: wrote to a buffer of no size", k.name, hex(b).c_str()); }
	for (size_t cap : sizes(s, f.r ? std::string(s.draw(30), 'x') : f.t)) {
		Got g = run(k, b, cap, 0xA5);
		if (f.r) { continue; }
		if (cap >= k.need(b, f.t) && cap > f.t.size()) REQUIRE(g.r == 0 && g.t == f.t, "%s of %s: buffer of %zu octets gave %d \"%s\" instead of \"%s\"", k.name, hex(b).c_str(), cap, g.r, g.t.c_str(), f.t.c_str());
		if (g.r) continue;
		static const std::set<std::string> whole = {"a", "an", "sp", "ans", "cn", "n", "amount", "date", "time", "track2"};
		if (whole.count(k.name)) REQUIRE(g.t == f.t, "%s of %s: buffer of %zu octets was reported to hold all of \"%s\" but holds \"%s\"", k.name, hex(b).c_str(), cap, f.t.c_str(), g.t.c_str());
		if (!strcmp(k.name, "arc")) REQUIRE(g.t.size() >= std::min<size_t>(2, f.t.size()), "%s of %s: buffer of %zu octets was reported to hold the code but holds \"%s\"", k.name, hex(b).c_str(), cap, g.t.c_str());
		check_cut(k.name, b, k.lt, g.t, f.t, cap); if (g.t != f.t) s.nontrivial();
	}
}

// ------------------------------------------------------------------ C27
struct Want { bool known; const TagRow* row; Exp e; LT lt; bool refuse_ok = false; size_t need; };
static size_t kind_max(const char* k) { size_t i = 0; while (k[i] && !isdigit((unsigned char)k[i])) ++i; return (size_t)atoi(k + i); }
static std::string kind_base(const char* k) { std::string s = k; static const char* plain[] = {"track2", "alpha2", "alpha3", "amex_caps"}; for (auto p : plain) if (s == p) return s; while (!s.empty() && isdigit((unsigned char)s.back())) s.pop_back(); return s; }
static const TagRow* tag_row(unsigned tag, const Bytes* v, size_t length) {
	for (auto& r : TAGS) {
		if (r.tag != tag) continue; std::string k = r.kind;
		if (k == "ttq" && length != 4) continue; if (tag == 0x9F6D && length != 1) continue;
		if (k == "tpd" && (length < 5 || length > 32)) continue;
		if (k == "ffi" && !(length == 4 && v && (*v)[0] >> 5 == 1 && !(*v)[2] && !(*v)[3])) continue;
		if (k == "amex_enh" && tag == 0x9F6E && !(length == 4 && v && !((*v)[0] & 0x20) && (*v)[0] & 0x10 && (*v)[0] & 0x08 && !((*v)[0] & 3) && (*v)[1] & 0x80 && !((*v)[1] & 0x0F) && !((*v)[2] & 0x3F) && !((*v)[3] & 0x18) && (*v)[3] & 7)) continue;
		return &r;
	}
	return nullptr;
}
static Want tag_want(unsigned tag, const Bytes& v, bool null) {
	Want w{}; w.row = tag_row(tag, null ? nullptr : &v, v.size()); w.known = w.row; w.lt = SCALAR; w.need = 0; w.e = T("");
	if (!w.known) return w;
	std::string k = w.row->kind, base = kind_base(w.row->kind); if (k.empty()) return w;
	if (null || v.empty()) { w.e = T(""); w.refuse_ok = true; return w; }
	size_t max = kind_max(w.row->kind);
	if (base == "verbatim") { if (v.size() > 16) { w.e = REF; return w; } std::string t((const char*)v.data(), v.size()); w.e = T(t.c_str()); w.need = 17; return w; }
	if (base == "dfname") { std::string t((const char*)v.data(), v.size()); if (t == "1PAY.SYS.DDF01" || t == "2PAY.SYS.DDF01") { w.e = T(t); w.need = t.size() + 1; return w; } base = "aid"; }
	if (base == "country") { w.e = m_country(v); w.need = w.e.t.size() + 1; return w; }
	if (base == "currency") { w.e = m_currency(v); w.need = w.e.t.size() + 1; return w; }
	if (base == "alpha2" || base == "alpha3") { Exp e = m_alpha(v, base == "alpha2" ? 2 : 3); w.e = e; w.need = std::max<size_t>(e.t.size() + 1, 16); if (e.k == Exp::REFUSE || e.t.empty()) w.e = v.size() > (base == "alpha2" ? 2u : 3u) ? REF : chars(v, false, false, false); return w; }
	const Kind* kd = kind(base); if (!kd) fail("harness: no kind %s", base.c_str());
	if (kd->exact == 1 && v.size() != 1) { // single octet fields look at the first octet only
		w.e = WHATEVER; w.lt = kd->lt; return w; }
	w.e = kd->exp(v); w.lt = kd->lt; w.need = kd->need(v, w.e.t);
	if (base == "n" || base == "cn") { if (max) { if (v.size() > (max + 1) / 2) w.e = REF; w.need = std::max(w.need, max + 1); } }
	else if (base == "a" || base == "an" || base == "sp" || base == "ans") { if (max) { if (v.size() > max) w.e = REF; w.need = std::max(w.need, max + 1); } }
	return w;
}
static Bytes tag_value(Src& s, unsigned tag) {
	if (s.chance(1, 20)) return {};
	if (s.chance(1, 10)) return s.bbytes(s.len(1, 300));
	std::vector<const TagRow*> rows; for (auto& r : TAGS) if (r.tag == tag) rows.push_back(&r);
	if (rows.empty()) return s.bbytes(s.len(0, 20));
	const TagRow* r = rows[s.draw(rows.size())]; std::string k = r->kind, base = kind_base(r->kind); if (k.empty()) return s.bbytes(s.len(1, 40));
	size_t max = kind_max(r->kind);
	if (tag == 0x9F6E && k == "ffi") { Bytes b = s.bytes(4); b[0] = 0x20 | (b[0] & 31); b[2] = 0; b[3] = 0; if (s.chance(1, 5)) b[s.draw(4)] = s.byte(); return b; }
	if (tag == 0x9F6E && k == "amex_enh") { Bytes b = s.bytes(4); b[0] = (b[0] & 0xDC) | 0x18; b[1] = (b[1] & 0xF0) | 0x80; b[2] &= 0xC0; b[3] = (b[3] & 0xE7) | 1; if (s.chance(1, 5)) b[s.draw(4)] ^= 1 << s.draw(8); return b; }
	if (base == "verbatim") return s.bbytes(s.len(1, 18));
	if (base == "dfname") { if (s.chance(1, 3)) { std::string t = s.chance(1, 2) ? "1PAY.SYS.DDF01" : "2PAY.SYS.DDF01"; Bytes b(t.begin(), t.end()); if (s.chance(1, 3)) b.resize(s.range(1, 16), '1'); else if (s.chance(1, 4)) b[s.draw(14)] ^= 1 << s.draw(7); return b; } return g_aid(s); }
	if (base == "country" || base == "currency") return g_numcode(s);
	if (base == "alpha2" || base == "alpha3") { static const char* c[] = {"GB", "US", "ZA", "xx", "GBR", "USA", "ZAF", "ZZZ", "gb", "D1"}; std::string t = s.pick(c); return Bytes(t.begin(), t.end()); }
	if (max && (base == "n" || base == "cn")) { size_t l = (max + 1) / 2; l = s.chance(1, 6) ? l + s.range(1, 2) : s.range(1, l); return base == "n" ? g_n(s, l) : g_cn(s, l); }
	if (max) { size_t l = s.chance(1, 6) ? max + s.range(1, 2) : s.chance(1, 3) ? max : s.range(1, max); return g_text(s, l, base == "an" ? 1 : base == "sp" ? 2 : 3); }
	return gen_near(*kind(base), s);
}
struct Info { int r; struct emv_tlv_info_t i; std::string t; bool term; };
static Info lookup(unsigned tag, const Bytes& v, bool null, size_t cap, uint8_t fill, bool noinfo = false) {
	Exact x(v), o(cap, fill); struct emv_tlv_t tlv; memset(&tlv, 0, sizeof tlv); tlv.tag = tag; tlv.length = (unsigned)v.size(); tlv.value = null ? nullptr : x.p;
	Info g; memset(&g.i, 0xEE, sizeof g.i); g.r = emv_tlv_get_info(&tlv, &g.i, cap ? o.c() : nullptr, cap);
	REQUIRE(x.vec() == v, "tag %X: value modified", tag);
	g.term = !cap || memchr(o.p, 0, cap); REQUIRE(g.term, "tag %X value %s: text in a buffer of %zu octets is not NUL terminated (result %d)", tag, hex(v).c_str(), cap, g.r); if (cap) g.t = o.c(); (void)noinfo; return g;
}
static bool sames(const char* a, const char* b) { return a ? b && !strcmp(a, b) : !b; }
static void check_tag(Src& s, unsigned tag, const Bytes& v, bool null) {
	Want w = tag_want(tag, v, null); size_t cap = big(v);
	auto head = [&](const Info& g, size_t c) {
		if (!w.known) { REQUIRE(g.r > 0, "unknown tag %X value %s: result %d", tag, hex(v).c_str(), g.r); REQUIRE(!g.i.tag_name && !g.i.tag_desc && g.t.empty(), "unknown tag %X value %s described as \"%s\"", tag, hex(v).c_str(), g.i.tag_name ? g.i.tag_name : g.t.c_str()); REQUIRE(g.i.format == EMV_FORMAT_B, "unknown tag %X has format %d", tag, g.i.format); return; }
		REQUIRE(sames(g.i.tag_name, w.row->name), "tag %X value %s: name \"%s\" expected \"%s\"", tag, hex(v).c_str(), g.i.tag_name ? g.i.tag_name : "(null)", w.row->name);
		REQUIRE(sames(g.i.tag_desc, w.row->desc), "tag %X value %s: description \"%s\" expected \"%s\"", tag, hex(v).c_str(), g.i.tag_desc ? g.i.tag_desc : "(null)", w.row->desc);
		REQUIRE((int)g.i.format == w.row->format, "tag %X value %s: format %d expected %d", tag, hex(v).c_str(), g.i.format, w.row->format); (void)c;
	};
	Info g = lookup(tag, v, null, cap, 0xA5); head(g, cap);
	Info g2 = lookup(tag, v, null, cap, 0x00); REQUIRE(g.r == g2.r && g.t == g2.t, "tag %X value %s: result depends on the previous content of the buffer", tag, hex(v).c_str());
	if (w.known) {
		if (w.e.k == Exp::TEXT && !w.refuse_ok) REQUIRE(g.r == 0 && g.t == w.e.t, "tag %X value %s: result %d text \"%s\" expected \"%s\"", tag, hex(v).c_str(), g.r, g.t.c_str(), w.e.t.c_str());
		if (w.e.k == Exp::TEXT && w.refuse_ok) REQUIRE(g.t.empty(), "tag %X without value described as \"%s\"", tag, g.t.c_str());
		if (w.e.k == Exp::REFUSE) REQUIRE(g.r != 0, "tag %X value %s: text \"%s\" although the value does not have the required structure", tag, hex(v).c_str(), g.t.c_str());
		// the text agrees with the dedicated function
		const Kind* kd = kind(kind_base(w.row->kind)); if (kd && !null && !v.empty() && w.row->kind == kind_base(w.row->kind)) { Got d = full(*kd, v); if (d.r == 0 || kd->lt != SCALAR) REQUIRE((g.r != 0) == (d.r != 0) && (d.r || d.t == g.t), "tag %X value %s: lookup gave %d \"%s\", the dedicated function %d \"%s\"", tag, hex(v).c_str(), g.r, g.t.c_str(), d.r, d.t.c_str()); }
		if (!g.t.empty()) { s.nontrivial(); s.label("with text"); } else s.label("without text");
	} else s.label("unknown tag");
	Info h = lookup(tag, v, null, 0, 0); head(h, 0); // without a buffer
	size_t lim = g.r ? 24 : g.t.size() + 3;
	for (int i = 0; i < 4; ++i) {
		size_t c = i == 3 ? std::max<size_t>(1, std::max(w.need, g.t.size() + 1)) : s.range(1, lim); Info q = lookup(tag, v, null, c, 0xA5); head(q, c);
		if (g.r == 0 && q.r == 0) check_cut(fmt("tag %X", tag).c_str(), v, w.lt, q.t, g.t, c);
		if (i == 3 && w.known && g.r == 0 && !w.refuse_ok) REQUIRE(q.r == 0 && q.t == g.t, "tag %X value %s: buffer of %zu octets gave %d \"%s\" instead of \"%s\"", tag, hex(v).c_str(), c, q.r, q.t.c_str(), g.t.c_str());
	}
}
static std::vector<unsigned> tags_known() { std::vector<unsigned> v; for (auto& r : TAGS) v.push_back(r.tag); return v; }
static const std::vector<unsigned> TK = tags_known();
VH_PROP(C27, values, 120000, 4000000, "every known tag with values generated for its kind, noise, empty and absent values, buffers of random sizes, and a lookup of another tag in between; non-trivial: text produced") {
	init_lists(); unsigned tag = s.chance(1, 15) ? s.u32() : s.pick(TK); Bytes v = tag_value(s, tag); bool null = s.chance(1, 12);
	if (s.want()) s.desc(fmt("tag %X %s %s", tag, null ? "absent value of length" : "value", null ? std::to_string(v.size()).c_str() : hex(v).c_str()));
	if (s.chance(1, 4)) { unsigned o = s.pick(TK); Info a = lookup(tag, v, null, 300, 1); lookup(o, tag_value(s, o), false, s.range(1, 200), 2); Info b = lookup(tag, v, null, 300, 3); REQUIRE(a.r == b.r && a.t == b.t && a.i.tag_name == b.i.tag_name, "tag %X value %s: result changed after looking up tag %X", tag, hex(v).c_str(), o); }
	check_tag(s, tag, v, null);
}
VH_ENUM(C27, tag_numbers, 256 + 65536 + 8192, "every tag number up to FFFF and three octet tag numbers DF8100 to DFA0FF, with an empty and a short value") {
	init_lists(); unsigned i = (unsigned)s.index, tag = i < 256 ? i : i < 256 + 65536 ? i - 256 : 0xDF8100 + (i - 256 - 65536);
	if (s.want()) s.desc(fmt("tag %X", tag)); check_tag(s, tag, Bytes{}, false); check_tag(s, tag, Bytes{0x12, 0x34, 0x56}, false); s.nontrivial();
}
VH_ENUM(C27, codes, 65536 * 2, "every two octet country and currency code") { init_lists(); Bytes v{(uint8_t)(s.index >> 9), (uint8_t)(s.index >> 1)}; check_tag(s, s.index & 1 ? 0x9F1A : 0x5F2A, v, false); s.nontrivial(); }
VH_PROP(C27, null_arguments, 2000, 20000, "lookups without a field or without an info structure are refused") {
	struct emv_tlv_info_t i; char t[4] = {'a', 'b', 'c', 0}; struct emv_tlv_t f; memset(&f, 0, sizeof f); f.tag = s.pick(TK); REQUIRE(emv_tlv_get_info(nullptr, &i, t, sizeof t) != 0, "no field accepted"); REQUIRE(emv_tlv_get_info(&f, nullptr, t, sizeof t) != 0, "no info accepted"); s.nontrivial();
}

// ------------------------------------------------------------------ C28
VH_PROP(C28, commands, 400000, 12000000, "commands of every case, length and truncation through both describing functions; non-trivial: a description is expected") {
	const Kind& k = *kind(s.chance(1, 2) ? "capdu" : "iso_capdu"); Bytes b = gen_near(k, s); if (s.want()) s.desc(std::string(k.name) + " " + hex(b)); decide(k, b, s);
	if (b.size() >= 4 && b[0] != 0xFF && !(b[0] & 0x80)) { Got x = full(*kind("iso_capdu"), b), y = full(*kind("capdu"), b); REQUIRE((x.r == 0) == (y.r == 0) && x.t == y.t, "command %s: \"%s\" as ISO command, \"%s\" as EMV command", hex(b).c_str(), x.t.c_str(), y.t.c_str()); }
	if (s.chance(1, 40)) absent(k);
}
VH_ENUM(C28, instructions, 65536 * 3, "every class and instruction octet with no data, an Le octet and a short data field") {
	unsigned i = (unsigned)(s.index / 3); Bytes b{(uint8_t)(i >> 8), (uint8_t)i, 1, 2}; if (s.index % 3 == 1) b.push_back(0); if (s.index % 3 == 2) add(b, {2, 0x3F, 0x00, 0}); decide(*kind("capdu"), b, s); decide(*kind("iso_capdu"), b, s);
}
VH_ENUM(C28, parameters, 65536 * 6, "every P1 and P2 of SELECT, READ RECORD and PUT DATA") {
	unsigned i = (unsigned)(s.index / 6); Bytes b{0, 0, (uint8_t)(i >> 8), (uint8_t)i}; switch (s.index % 6) { case 0: b[1] = 0xA4; add(b, {2, 0x3F, 0, 0}); break; case 1: b[1] = 0xA4; b.push_back(0); break; case 2: b[1] = 0xB2; b.push_back(0); break; case 3: b[1] = 0xB3; add(b, {1, 0x80, 0}); break; case 4: b[1] = 0xDA; add(b, {1, 9}); break; default: b[1] = 0xDB; add(b, {2, 1, 2}); }
	decide(*kind("iso_capdu"), b, s);
}
VH_ENUM(C28, select_lengths, 255 * 3, "SELECT with every length of file identifier, printable, binary and mixed") {
	unsigned l = (unsigned)(s.index / 3) + 1; Bytes b{0, 0xA4, 4, 0, (uint8_t)l}; for (unsigned i = 0; i < l; ++i) b.push_back(s.index % 3 == 0 ? 'A' + i % 26 : s.index % 3 == 1 ? (uint8_t)(0x80 + i) : i + 1 == l ? 0x7F : 'a'); b.push_back(0); decide(*kind("iso_capdu"), b, s); decide(*kind("capdu"), b, s);
}
VH_ENUM(C28, status_words, 65536, "every status word") {
	unsigned a = (unsigned)(s.index >> 8), b = (unsigned)(s.index & 255); Got g = full(*kind("sw1sw2"), Bytes{(uint8_t)a, (uint8_t)b}); REQUIRE(g.r == 0, "status %02X%02X: no text", a, b); auto w = sw_texts(a, b);
	REQUIRE(std::find(w.begin(), w.end(), g.t) != w.end(), "status %02X%02X: \"%s\" expected \"%s\"", a, b, g.t.c_str(), w[0].c_str()); s.nontrivial();
}
VH_ENUM(C28, life_cycle, 256, "every life cycle octet") { const char* t = iso7816_lcs_get_string((uint8_t)s.index); REQUIRE(sames(t, lcs_text((unsigned)s.index)), "life cycle %02X: \"%s\" expected \"%s\"", (unsigned)s.index, t ? t : "(null)", lcs_text((unsigned)s.index)); s.nontrivial(); }
VH_ENUM(C28, card_services, 256, "every card service data octet") { decide(*kind("card_service"), Bytes{(uint8_t)s.index}, s); }
VH_ENUM(C28, card_capabilities, 65536 + 256 + 256, "every first, second and third card capabilities octet combined") {
	unsigned i = (unsigned)s.index; const Kind& k = *kind("card_caps"); if (i < 256) { decide(k, Bytes{(uint8_t)i}, s); return; } i -= 256; if (i < 256) { decide(k, Bytes{0, 0, (uint8_t)i}, s); return; } i -= 256; decide(k, Bytes{(uint8_t)(i >> 8), (uint8_t)i}, s); decide(k, Bytes{(uint8_t)(i >> 8), (uint8_t)i, (uint8_t)(i * 7)}, s);
}

// ------------------------------------------------------------------ C28: answer to reset
enum AtrPart { P_TS, P_T0, P_TA, P_TB, P_TC, P_TD, P_T1 };
static const char* const ATR_PART[] = {"TS", "T0", "TA", "TB", "TC", "TD", "T1"};
static const char* atr_text(const struct iso7816_atr_info_t* i, AtrPart p, size_t n, char* s, size_t l) {
	switch (p) { case P_TS: return iso7816_atr_TS_get_string(i); case P_T0: return iso7816_atr_T0_get_string(i, s, l); case P_TA: return iso7816_atr_TAi_get_string(i, n, s, l); case P_TB: return iso7816_atr_TBi_get_string(i, n, s, l); case P_TC: return iso7816_atr_TCi_get_string(i, n, s, l); case P_TD: return iso7816_atr_TDi_get_string(i, n, s, l); default: return iso7816_atr_T1_get_string(i); }
}
static std::string atr_Y(const atrm::Atr& m, unsigned i) { if (i > 4) return ""; std::string t; auto one = [&](const int* v, const char* n) { if (v[i] >= 0) t += (t.empty() ? "" : ",") + (n + std::to_string(i)); }; one(m.TA, "TA"); one(m.TB, "TB"); one(m.TC, "TC"); one(m.TD, "TD"); return "Y" + std::to_string(i) + "=" + t; }
// nullptr-expected is REFUSE
static Exp atr_exp(const atrm::Atr& m, const struct iso7816_atr_info_t& inf, AtrPart p, size_t n) {
	if (p >= P_TA && p <= P_TD && (n < 1 || n > 4)) return REF;
	unsigned Tprev = n > 1 && n <= 4 && m.TD[n - 1] >= 0 ? m.TD[n - 1] & 15 : 99;
	switch (p) {
		case P_TS: return T(m.b[0] == 0x3B ? "Direct convention" : "Inverse convention");
		case P_T0: return T(atr_Y(m, 1) + fmt("; K=%u", m.K));
		case P_TA:
			if (n == 1) return T(fmt("Fi=%u; Di=%u; %u cycles/ETU @ max %.1fMHz; max %lu bit/s", m.Fi, m.Di, m.Fi / m.Di, (double)m.fmax, (unsigned long)((unsigned long long)((double)m.fmax * 10) * 100000 * m.Di / m.Fi)));
			if (n == 2) return m.TA[2] < 0 ? T("Negotiable mode") : T(fmt("Specific mode (%s); ETU%s; protocol T=%u", m.may ? "mutable" : "immutable", m.implicit ? " is implicit" : "=Fi/Di", m.spec_proto));
			if (m.TA[n] >= 0 && Tprev == 1) return T(fmt("IFSI=%u", m.IFSI));
			if (m.TA[n] >= 0 && Tprev == 15) { static const char* cs[] = {"Not supported", "State L", "State H", "No preference"}; std::string c; static const char* cl[] = {"A (5V)", "B (3V)", "C (1.8V)"}; for (int i = 0; i < 3; ++i) if (m.classes & 1u << i) c += (c.empty() ? "" : ", ") + std::string(cl[i]); return T(std::string("Clock stop: ") + cs[m.clk] + "; Class: " + c); }
			return T("Unimplemented");
		case P_TB:
			if (n == 1) return m.TB[1] >= 0 && m.vpp ? T(fmt("Vpp is connected; Vpp=%umV; Ipp=%umA", (m.TB[1] & 31) * 1000, m.Ipp)) : T("Vpp is not connected");
			if (n == 2) return m.TB[1] >= 0 && m.TB[2] >= 0 && m.vpp ? T(fmt("Vpp=%umV", m.TB[2] * 100)) : T("Vpp is not connected");
			if (m.TB[n] >= 0 && Tprev == 1) return T(fmt("CWT=%u; BWT=%u", inf.protocol_T1.CWT, inf.protocol_T1.BWT));
			if (m.TB[n] >= 0 && Tprev == 15) return T(m.spu == ISO7816_SPU_NOT_USED ? "SPU not used" : m.spu == ISO7816_SPU_STANDARD ? "Standard usage of SPU" : "Proprietary usage of SPU");
			return T("Unimplemented");
		case P_TC:
			if (n == 1) return T(fmt("N=%u; GT=%u", m.N, inf.global.GT)); if (n == 2) return T(fmt("WI=%u; WT=%u", m.WI, inf.protocol_T0.WT));
			if (m.TC[n] >= 0 && Tprev == 1) return T(m.crc ? "Cyclic Redundancy Check (CRC)" : "Longitudinal Redundancy Check (LRC)");
			return T("Unimplemented");
		case P_TD: { if (m.TD[n] < 0) return REF; unsigned t = m.TD[n] & 15; return T(atr_Y(m, (unsigned)n + 1) + (t == 15 ? "; Global (T=15)" : fmt("; Protocol T=%u", t))); }
		default:
			if (!m.K) return REF;
			return T(m.T1 == 0x00 ? "COMPACT-TLV followed by mandatory status indicator" : m.T1 == 0x10 ? "DIR data reference" : m.T1 == 0x80 ? "COMPACT-TLV including optional status indicator" : m.T1 > 0x80 && m.T1 <= 0x8F ? "RFU" : "Proprietary");
	}
}
static void check_atr_text(Src& s, const struct iso7816_atr_info_t& inf, const atrm::Atr& m, const Bytes& a, AtrPart p, size_t n, bool cuts) {
	std::string where = fmt("ATR %s %s%zu", hex(a).c_str(), ATR_PART[p], n); std::string f; Exp e = atr_exp(m, inf, p, n);
	struct iso7816_atr_info_t before = inf;
	for (int k = 0; k < 2; ++k) {
		Exact o((size_t)300, k ? 0xA5 : 0); const char* t = atr_text(&inf, p, n, o.c(), o.n);
		if (e.k == Exp::REFUSE) { REQUIRE(!t, "%s: described as \"%s\" although absent", where.c_str(), t); continue; }
		REQUIRE(t && memchr(p == P_TS || p == P_T1 ? (const void*)t : o.p, 0, 300), "%s: no text", where.c_str()); REQUIRE(e.t == t, "%s: \"%s\" expected \"%s\"", where.c_str(), t, e.t.c_str()); f = t;
	}
	if (e.k == Exp::TEXT && cuts && p != P_TS && p != P_T1) for (size_t cap : sizes(s, f)) {
		Exact o(cap, 0xA5); const char* t = atr_text(&inf, p, n, o.c(), cap); if (!t) continue;
		REQUIRE(memchr(o.p, 0, cap), "%s: text in a buffer of %zu octets is not NUL terminated", where.c_str(), cap); std::string g = o.c();
		REQUIRE(f.compare(0, g.size(), g) == 0 && (cap <= f.size() || g == f), "%s: buffer of %zu octets holds \"%s\" of \"%s\"", where.c_str(), cap, g.c_str(), f.c_str());
	}
	REQUIRE(!memcmp(&before, &inf, sizeof inf), "%s: information modified", where.c_str());
}
static void check_atr_texts(Src& s, const Bytes& a, bool cuts) {
	atrm::Atr m = atrm::atr_model(a); Exact x(a); static thread_local struct iso7816_atr_info_t inf; memset(&inf, 0xC3, sizeof inf);
	if (iso7816_atr_parse(x.p, x.n, &inf)) { s.label("refused"); return; }
	if (!m.ok || !m.judged) { s.label("unjudged"); return; }
	for (int p = P_TS; p <= P_T1; ++p) { if (p >= P_TA && p <= P_TD) for (size_t n : {0, 1, 2, 3, 4, 5}) check_atr_text(s, inf, m, a, (AtrPart)p, n, cuts); else check_atr_text(s, inf, m, a, (AtrPart)p, 0, cuts); }
	s.label("described"); s.nontrivial();
}
VH_PROP(C28, answer_to_reset, 60000, 2000000, "answers to reset of every shape; the text of every byte compared with the ISO 7816-3 meaning of the raw bytes; non-trivial: the answer was accepted") {
	Bytes a = atrm::gen_atr(s, s.chance(1, 3)); if (s.want()) s.desc(hex(a)); check_atr_texts(s, a, false);
}
VH_ENUM(C28, answer_to_reset_bytes, 256 * 12, "every value of each interface byte and of T1 in otherwise fixed answers to reset") {
	uint8_t v = (uint8_t)s.index; Bytes a{0x3B};
	switch (s.index >> 8) {
		case 0: a = {0x3B, 0x10, v}; break; case 1: a = {0x3B, 0x20, v}; break; case 2: a = {0x3F, 0x40, v}; break;
		case 3: a = {0x3B, 0x80, 0x10, v}; break; case 4: a = {0x3B, 0xA0, 0x25, 0x20, v}; break; case 5: a = {0x3B, 0x80, 0x40, v}; break;
		case 6: a = {0x3B, 0x80, 0x81, 0x11, v}; break; case 7: a = {0x3B, 0x80, 0x81, 0x21, v}; break; case 8: a = {0x3B, 0x80, 0x81, 0x41, v}; break;
		case 9: a = {0x3B, 0x80, 0x80, 0x1F, v}; break; case 10: a = {0x3B, 0x80, 0x80, 0x2F, v}; break; default: a = {0x3B, (uint8_t)(v == 0 ? 4 : 1), v}; if (!v) add(a, {3, 0x90, 0}); break;
	}
	bool tck = (s.index >> 8) >= 6 && (s.index >> 8) <= 10; if (tck) { uint8_t x = 0; for (size_t i = 1; i < a.size(); ++i) x ^= a[i]; a.push_back(x); }
	if (s.want()) s.desc(hex(a)); check_atr_texts(s, a, false);
}
VH_PROP(C24, answer_to_reset, 20000, 600000, "the text of every ATR byte rendered into buffers of every size; non-trivial: the answer was accepted") {
	Bytes a = atrm::gen_atr(s, s.chance(1, 3)); if (s.want()) s.desc(hex(a)); check_atr_texts(s, a, true);
}

// ------------------------------------------------------------------ C34
static std::string g_digits(Src& s) {
	std::string t; size_t n = s.chance(1, 10) ? s.len(0, 60) : s.range(0, 24); for (size_t i = 0; i < n; ++i) t += (char)('0' + (s.chance(1, 5) ? 0 : s.draw(10)));
	if (n && s.chance(1, 5)) t[s.draw(n)] = s.chance(1, 2) ? s.pickl<char>({'/', ':', ' ', '-', 'A', 'F', 'f', '.', '+', '\x01', '\x7f'}) : (char)s.range(1, 255);
	return t;
}
static bool all_digits(const std::string& t) { return t.find_first_not_of("0123456789") == std::string::npos; }
static void check_pack(Src& s, bool cn, const std::string& t, size_t cap) {
	const char* fn = cn ? "emv_str_to_format_cn" : "emv_str_to_format_n"; size_t d = 2 * cap, n = t.size();
	Bytes in(t.begin(), t.end()); in.push_back(0); Exact x(in), o(cap, 0xA5), o2(cap, 0x5A);
	int r = cn ? emv_str_to_format_cn(x.c(), o.p, cap) : emv_str_to_format_n(x.c(), o.p, cap), r2 = cn ? emv_str_to_format_cn(x.c(), o2.p, cap) : emv_str_to_format_n(x.c(), o2.p, cap);
	REQUIRE(x.vec() == in, "%s modified its text", fn); REQUIRE((r == 0) == (r2 == 0), "%s of \"%s\" into %zu octets: result depends on the buffer content", fn, t.c_str(), cap);
	std::string kept = cn ? t.substr(0, std::min(n, d)) : t.substr(n - std::min(n, d));
	if (!all_digits(kept)) { REQUIRE(r != 0, "%s of \"%s\" into %zu octets: accepted", fn, t.c_str(), cap); s.label("invalid"); return; }
	if (!all_digits(t)) { s.label("invalid beyond capacity"); if (r) return; } // whether the part that does not fit is looked at is not specified
	else REQUIRE(r == 0, "%s of \"%s\" into %zu octets: failed with %d", fn, t.c_str(), cap, r);
	std::string nib = cn ? kept + std::string(d - kept.size(), 'F') : std::string(d - kept.size(), '0') + kept; Bytes want;
	for (size_t i = 0; i < d; i += 2) { auto h = [](char c) { return c == 'F' ? 15 : c - '0'; }; want.push_back((uint8_t)(h(nib[i]) << 4 | h(nib[i + 1]))); }
	REQUIRE(o.vec() == want && o2.vec() == want, "%s of \"%s\": %s expected %s", fn, t.c_str(), hex(o.vec()).c_str(), hex(want).c_str());
	// formatting gives the digits back, up to padding
	Got g = full(*kind(cn ? "cn" : "n"), want); std::string back = kept;
	if (!cn) { size_t z = back.find_first_not_of('0'); back = z == std::string::npos ? "0" : back.substr(z); }
	REQUIRE(g.r == 0 && g.t == back, "%s: \"%s\" came back as %d \"%s\" from %s", fn, t.c_str(), g.r, g.t.c_str(), hex(want).c_str());
	s.label(n > d ? "cut" : n == d ? "exact" : "padded"); if (n) s.nontrivial();
}
VH_PROP(C34, packing, 200000, 6000000, "texts of 0..60 characters, mostly digits, packed into exact blocks of 1..14 octets and formatted again; non-trivial: at least one digit accepted") {
	bool cn = s.draw(2); std::string t = g_digits(s); size_t cap = s.chance(1, 3) ? std::max<size_t>(1, (t.size() + s.draw(3)) / 2) : s.range(1, 14);
	if (s.want()) s.desc(fmt("%s \"%s\" into %zu", cn ? "cn" : "n", t.c_str(), cap)); check_pack(s, cn, t, cap);
}
VH_ENUM(C34, characters, 255 * 6, "every character first, in the middle and last, in both formats") {
	std::string t = "204"; t[(s.index / 255) % 3] = (char)(s.index % 255 + 1); check_pack(s, s.index >= 255 * 3, t, 1 + s.index % 3); check_pack(s, s.index >= 255 * 3, t, 4); s.nontrivial();
}
VH_ENUM(C34, lengths, 64 * 33 * 2, "every text length up to 63 with every capacity from 1 to 33 in both formats") {
	size_t n = s.index % 64, cap = s.index / 64 % 33 + 1; std::string t; for (size_t i = 0; i < n; ++i) t += (char)('0' + (i * 7 + 3) % 10); check_pack(s, s.index >= 64 * 33, t, cap); s.nontrivial();
}
VH_PROP(C34, inverse, 100000, 3000000, "random valid cn and n values formatted as text and packed again into the same size give the same value; non-trivial: always") {
	bool cn = s.draw(2); size_t cap = s.range(1, 12); Bytes b; size_t d = cn ? s.range(0, 2 * cap) : 2 * cap; for (size_t i = 0; i < 2 * cap; ++i) { uint8_t v = i < d ? (uint8_t)s.draw(10) : 15; if (i & 1) b.back() |= v; else b.push_back((uint8_t)(v << 4)); }
	if (s.want()) s.desc((cn ? "cn " : "n ") + hex(b)); Got g = full(*kind(cn ? "cn" : "n"), b); REQUIRE(g.r == 0, "%s not formatted", hex(b).c_str());
	Exact o(cap, 0xA5); int r = cn ? emv_str_to_format_cn(g.t.c_str(), o.p, cap) : emv_str_to_format_n(g.t.c_str(), o.p, cap); REQUIRE(r == 0 && o.vec() == b, "%s became \"%s\" and then %d %s", hex(b).c_str(), g.t.c_str(), r, hex(o.vec()).c_str()); s.nontrivial();
}
VH_PROP(C34, null_arguments, 2000, 20000, "absent text, absent buffer and no capacity are refused without a write") {
	uint8_t b[2] = {1, 2}; for (auto f : {emv_str_to_format_cn, emv_str_to_format_n}) { REQUIRE(f(nullptr, b, 2) != 0 && f("12", nullptr, 2) != 0 && f("12", b, 0) != 0, "invalid arguments accepted"); REQUIRE(b[0] == 1 && b[1] == 2, "written"); } (void)s.draw(2); s.nontrivial();
}
