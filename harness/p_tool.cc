// C35: the emv-tool command against a scripted PC/SC service and a simulated card
#include "winscard_fake.h"
#include "tool_common.h"
#include "card_gen.h"
#include "print_model.h"
#include <time.h>
extern "C" {
#include "emv_strings.h"
#include "print_helpers.h"
int emv_tool_main(int, char**);
time_t vh_time(time_t*);
}
using namespace vh; using namespace model; using namespace card;

// ---------------------------------------------------------------- shared with the child
struct Shm { char err[1000]; unsigned opened, closed, handles_open, unpowered, other_disp, waited, time_read; uint32_t nlog, used; uint8_t log[1 << 20]; };
static Shm* g_shm; static time_t g_now;
time_t vh_time(time_t* p) { if (g_shm) g_shm->time_read++; if (p) *p = g_now; return g_now; }
static void at_end() { if (!g_shm || !S) return; g_shm->opened = S->ctx_open; g_shm->closed = S->ctx_close; for (auto& h : S->handles) { if (h.second.direct) continue; if (h.second.open) g_shm->handles_open++; else if (h.second.disp == SCARD_UNPOWER_CARD) g_shm->unpowered++; else g_shm->other_disp++; } }
static struct ToolInit { ToolInit() { setenv("TZ", "UTC", 1); tzset(); } } tool_init;

// ---------------------------------------------------------------- what the case consists of
struct Scene {
	fake::Service base; std::vector<fake::Reader> after; // readers when the wait starts
	std::vector<LONG> st_err, st_err_after; LONG wait_err = 0; card::Reader card; Bytes input;
	unsigned type = 0; uint32_t amount = 0, other = 0; unsigned mask = 0xFF; unsigned level = EMV_DEBUG_INFO; bool verbose = false;
};
static const std::vector<Aid> TOOL_AIDS = {{{0xA0, 0, 0, 0, 3, 0x10}, 1}, {{0xA0, 0, 0, 0, 3, 0x20, 0x10}, 0}, {{0xA0, 0, 0, 0, 3, 0x20, 0x20}, 0}, {{0xA0, 0, 0, 0, 4, 0x10}, 1}, {{0xA0, 0, 0, 0, 4, 0x30}, 1}};
static Bytes bcd(uint64_t v, size_t n) { Bytes b(n, 0); for (size_t i = n; i--;) { b[i] = (uint8_t)(v % 10 | (v / 10 % 10) << 4); v /= 100; } return b; }
static Bytes bin32(uint32_t v) { Bytes b; fake::be32(b, v); return b; }
static Bytes str(const char* t) { return Bytes(t, t + strlen(t)); }
static const char* state_text(DWORD st) {
	if (st & SCARD_STATE_UNAVAILABLE) return "Status unavailable"; if (st & SCARD_STATE_EMPTY) return "No card"; if (!(st & SCARD_STATE_PRESENT)) return nullptr;
	return st & SCARD_STATE_MUTE ? "Unresponsive card" : st & SCARD_STATE_UNPOWERED ? "Unpowered card" : "Card present";
}
// the reader list, with features and properties taken through the reader layer
static std::string readers_text(const Scene& sc) {
	fake::Service sv = sc.base; S = &sv; std::string o = "\nPC/SC readers:\n"; pcsc_ctx_t ctx = nullptr; if (pcsc_init(&ctx)) fails("reader layer does not start");
	for (size_t i = 0; i < sv.readers.size(); ++i) {
		pcsc_reader_ctx_t r = pcsc_get_reader(ctx, i); o += fmt("Reader %zu: %s\n", i, sv.readers[i].name.c_str());
		std::string f; static const std::pair<unsigned, const char*> F[] = {{6, "PIN verification"}, {7, "PIN modification"}, {8, "MCT direct"}, {9, "MCT universal"}};
		for (auto& x : F) if (pcsc_reader_has_feature(r, x.first)) { if (!f.empty()) f += ", "; f += x.second; } if (!f.empty()) o += "\tFeatures: " + f + "\n";
		auto prop = [&](unsigned id, Bytes& v) { uint8_t b[256]; size_t n = sizeof b; if (pcsc_reader_get_property(r, id, b, &n)) return false; v = Bytes(b, b + n); return true; };
		Bytes lay, ch, ln, mi, ma, ve, pr; bool h1 = prop(1, lay), h4 = prop(4, ch), h5 = prop(5, ln), h6 = prop(6, mi), h7 = prop(7, ma), hb = prop(0xB, ve), hc = prop(0xC, pr);
		if (h1 || h4 || h5 || h6 || h7 || hb || hc) {
			std::string p; auto put = [&](const std::string& t) { if (!p.empty()) p += ", "; p += t; }; auto u16 = [](const Bytes& b) { uint16_t v = 0; if (b.size() == 2) memcpy(&v, b.data(), 2); return (unsigned)v; };
			if (h1 && lay.size() == 2) put(lay[0] || lay[1] ? fmt("LCD %u x %u", lay[0], lay[1]) : "No LCD");
			auto some = [](const Bytes& b) { return b.size() == 1 || b.size() == 2; }; if ((h4 && some(ch)) || (h5 && some(ln))) { unsigned a = u16(ch), b = u16(ln); put(a && b ? fmt("LCD %u x %u", a, b) : "LCD"); }
			unsigned lo = h6 && mi.size() == 1 ? mi[0] : 0, hi = h7 && ma.size() == 1 ? ma[0] : 0; if (lo || hi) put(hi ? fmt("PIN size %u-%u", lo, hi) : fmt("PIN size %u+", lo));
			if (u16(ve) && u16(pr)) put(fmt("USB device %04x:%04x", u16(ve), u16(pr)));
			o += "\tProperties: " + p + "\n";
		}
		const char* t = sc.st_err[i] ? nullptr : state_text(sv.readers[i].state); o += fmt("\tState: %s\n", t ? t : "Unknown");
	}
	pcsc_release(&ctx); S = nullptr; return o;
}
static int ref_cb(void* c, const void* tx, size_t n, void* rx, size_t* rl) { card::Reader* r = (card::Reader*)c; r->txlog.push_back(Bytes((const uint8_t*)tx, (const uint8_t*)tx + n)); return r->trx(tx, n, rx, rl) ? -1 : 0; }
struct Lines { const Bytes& b; size_t o = 0; bool next(std::string& l) { if (o >= b.size()) return false; size_t e = o; while (e < b.size() && b[e] != '\n') ++e; l.assign(b.begin() + o, b.begin() + e); o = e + 1; return true; } };
static bool number(const std::string& l, uint64_t max, uint64_t& v) { if (l.empty() || l.size() > 18) return false; v = 0; for (char c : l) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } return v >= 1 && v <= max; }

struct Expect { std::string text; bool eof = false, gone = false, activated = false, deactivated = false, endless = false; const char* how = ""; std::vector<Bytes> cmds; };
static void put_list(const struct emv_tlv_list_t& l) { std::string o; m_list(o, l); fputs(o.c_str(), stdout); }
static void debug_simple(unsigned ts, enum emv_debug_source_t src, enum emv_debug_level_t lv, enum emv_debug_type_t ty, const char* str, const void* buf, size_t n) { fputs(m_event(false, ts, src, lv, ty, str, buf, n).c_str(), stdout); }
static void debug_verbose(unsigned ts, enum emv_debug_source_t src, enum emv_debug_level_t lv, enum emv_debug_type_t ty, const char* str, const void* buf, size_t n) { fputs(m_event(true, ts, src, lv, ty, str, buf, n).c_str(), stdout); }
// the transaction, driven through the library with a copy of the same card
static void transaction_text(const Scene& sc, Expect& x) {
	card::Reader rd = sc.card; struct emv_ttl_t ttl; memset(&ttl, 0, sizeof ttl); ttl.cardreader.mode = EMV_CARDREADER_MODE_APDU; ttl.cardreader.ctx = &rd; ttl.cardreader.trx = ref_cb; rd.logging = false;
	struct emv_ctx_t emv; struct emv_app_list_t apps = EMV_APP_LIST_INIT; if (emv_ctx_init(&emv, &ttl)) fails("context does not initialise");
	struct tm tm; time_t now = g_now; gmtime_r(&now, &tm);
	push_fields(&emv.config, {{0x9F01, {0x00, 0x01, 0x23, 0x45, 0x67, 0x89}}, {0x9F1A, {0x05, 0x28}}, {0x9F1B, {0, 0, 3, 0xE8}}, {0x9F16, str("0987654321     ")}, {0x9F1C, str("TID12345")}, {0x9F1E, str("12345678")}, {0x9F4E, str("ACME Peanuts")}, {0x9F33, {0x20, 0xF8, 0xC8}}, {0x9F35, {0x22}}, {0x9F40, {0xFA, 0x00, 0xF0, 0xA3, 0xFF}}});
	push_aids(&emv.supported_aids, TOOL_AIDS);
	push_fields(&emv.params, {{0x9F41, bcd(42, 4)}, {0x9A, bcd((uint64_t)(tm.tm_year % 100) * 10000 + (tm.tm_mon + 1) * 100 + tm.tm_mday, 3)}, {0x9F21, bcd((uint64_t)tm.tm_hour * 10000 + tm.tm_min * 100 + tm.tm_sec, 3)}, {0x5F2A, {0x09, 0x78}}, {0x5F36, {2}}, {0x9C, {(uint8_t)sc.type}}, {0x9F02, bcd(sc.amount, 6)}, {0x81, bin32(sc.amount)}, {0x9F03, bcd(sc.other, 6)}, {0x9F04, bin32(sc.other)}});
	Lines in{sc.input}; x.how = "ended";
	x.text += captured([&] {
		auto report = [](int r) { if (r < 0) printf("ERROR: %s\n", emv_error_get_string((enum emv_error_t)r)); else printf("OUTCOME: %s\n", emv_outcome_get_string((enum emv_outcome_t)r)); };
		printf("\nTerminal config:\n"); put_list(emv.config); printf("\nSupported AIDs:\n"); put_list(emv.supported_aids); printf("\nTransaction parameters:\n"); put_list(emv.params);
		printf("\nBuild candidate list\n"); int r = emv_build_candidate_list(&emv, &apps); if (r) { report(r); x.how = "no candidate"; return; }
		printf("Candidate applications:\n"); for (struct emv_app_t* a = apps.front; a; a = a->next) fputs(m_app(a).c_str(), stdout);
		bool choose = emv_app_list_selection_is_required(&apps); if (choose) printf("Cardholder selection is required\n");
		for (;;) {
			unsigned pick = 0;
			if (choose) {
				unsigned n = 0; printf("\nSelect application:\n"); for (struct emv_app_t* a = apps.front; a; a = a->next) printf("%u - %s\n", ++n, a->display_name); printf("Enter number: ");
				std::string l; uint64_t v; if (!in.next(l)) { x.eof = true; x.how = "no input"; return; } if (!number(l, n, v)) { printf("Invalid input. Try again.\n"); continue; } pick = (unsigned)v - 1;
			} else printf("\nSelect first application:\n");
			r = emv_select_application(&emv, &apps, pick); if (r) { report(r); if (r == EMV_OUTCOME_TRY_AGAIN) continue; x.how = "not selected"; return; }
			printf("\nInitiate application processing:\n"); r = emv_initiate_application_processing(&emv, 0x05);
			if (r) { report(r); if (r == EMV_OUTCOME_GPO_NOT_ACCEPTED && !emv_app_list_is_empty(&apps)) continue; x.how = "not initiated"; return; }
			break;
		}
		printf("\nRead application data\n"); r = emv_read_application_data(&emv); if (r) { report(r); x.how = "not read"; return; }
		printf("\nICC data:\n"); put_list(emv.icc); printf("\nTerminal data\n"); put_list(emv.terminal);
		if (sc.base.disc_err) { printf("PC/SC reader deactivation failed\n"); x.how = "deactivation failed"; return; }
		printf("\nCard deactivated\n"); x.deactivated = true; x.how = "complete";
	});
	emv_app_list_clear(&apps); emv_ctx_clear(&emv); x.cmds = rd.txlog; x.endless = rd.broken;
}
static Expect expect(const Scene& sc) {
	Expect x; const fake::Service& b = sc.base; auto end = [&](const char* t, const char* how) { x.text += t; x.how = how; };
	emv_debug_init(sc.mask, (enum emv_debug_level_t)sc.level, sc.verbose ? debug_verbose : debug_simple);
	if (b.est_err || b.list_err1 || b.list_err2) { end("PC/SC initialisation failed\n", "no service"); return x; }
	if (b.readers.empty()) { end("No PC/SC readers detected\n", "no readers"); return x; }
	x.text += readers_text(sc) + "\nPresent card\n";
	if (sc.wait_err && sc.wait_err != SCARD_E_TIMEOUT) { end("PC/SC error\n", "wait failed"); return x; }
	size_t k = 0; while (k < sc.after.size() && !(sc.after[k].state & SCARD_STATE_PRESENT)) ++k;
	if (sc.wait_err || k == sc.after.size()) { end("No card; exiting\n", "no card"); return x; }
	const fake::Reader& r = sc.after[k]; const char* t = sc.st_err_after[k] ? nullptr : state_text(r.state); x.text += fmt("Reader %zu: %s; %s\nCard detected\n\n", k, r.name.c_str(), t ? t : "Unknown state");
	const Bytes& a = r.card.atr; const Bytes& u = r.card.uid_answer; int type = 0; // 0 contact, 1 contactless, -1 error
	if (a.size() > 4 && a[0] == 0x3B && (a[1] & 0x80) && a[2] == 0x80 && a[3] == 1 && a.size() == 5u + (a[1] & 15)) { if (r.card.uid_err || u.size() < 2 || u.size() > 12) type = -1; else { unsigned sw = u[u.size() - 2] << 8 | u.back(); type = sw == 0x6A81 ? 0 : sw == 0x9000 ? 1 : -1; } }
	if (b.connect_err || b.status_err || !r.card.present) type = -1;
	if (type < 0) { end("PC/SC reader activation failed\n", "activation failed"); return x; }
	x.text += "Card activated\n"; x.activated = true;
	if (type) { end("Contactless not (yet) supported\n", "contactless"); return x; }
	if (a.empty()) { end("Failed to retrieve ATR\n", "no ATR"); return x; }
	int e = 0; x.text += captured([&] { e = emv_atr_parse(a.data(), a.size()); if (e < 0) printf("ERROR: %s\n", emv_error_get_string((enum emv_error_t)e)); else if (e > 0) printf("OUTCOME: %s\n", emv_outcome_get_string((enum emv_outcome_t)e)); });
	if (e) { x.how = "ATR refused"; return x; }
	transaction_text(sc, x); return x;
}
// text without the tool's own trace lines, timestamps and addresses
static std::string clean(const std::string& t) {
	std::string o; size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); else ++e; std::string l = t.substr(i, e - i); i = e;
		auto app = [](const std::string& q) { return !q.compare(0, 6, "[APP] ") || (q.size() > 16 && q[0] == '[' && isdigit((unsigned char)q[1]) && !q.compare(11, 4, ",APP")) ; };
		size_t k = 0; if (!l.compare(0, 14, "Enter number: ")) k = 14;
		if (app(l.substr(k))) { o += l.substr(0, k); continue; }
		if (l.size() > k + 12 && l[k] == '[' && l[k + 11] == ',' && isdigit((unsigned char)l[k + 1])) l = l.substr(0, k) + "[T" + l.substr(k + 11);
		for (size_t q = l.find("0x"); q != std::string::npos; q = l.find("0x", q + 2)) { size_t z = q + 2; while (z < l.size() && isxdigit((unsigned char)l[z])) ++z; if (z - q > 8) l.replace(q, z - q, "0xPTR"); }
		o += l;
	}
	return o;
}
static void run_child(const Scene& sc, const std::vector<std::string>& args, Run& r) {
	static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); g_shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } // one per worker
	static fake::Service q; static card::Reader rd; q = sc.base; rd = sc.card; memset(g_shm, 0, sizeof *g_shm - sizeof g_shm->log);
	q.on_bad = [](const std::string& m) { if (!g_shm->err[0]) snprintf(g_shm->err, sizeof g_shm->err, "%s", m.c_str()); };
	static const Scene* cur; cur = &sc;
	q.on_state = [](int i) -> LONG { if (i < 0) return 0; return g_shm->waited ? cur->st_err_after[i] : cur->st_err[i]; };
	q.on_wait = [] { if (!g_shm->waited++) S->readers = cur->after; S->change_err = cur->wait_err; };
	q.on_trx = [](const Bytes& cmd, LPBYTE rx, LPDWORD rxn) -> LONG {
		if (g_shm->used + cmd.size() + 2 <= sizeof g_shm->log && cmd != unhex("FFCA000000")) { uint8_t* p = g_shm->log + g_shm->used; p[0] = cmd.size() >> 8; p[1] = (uint8_t)cmd.size(); memcpy(p + 2, cmd.data(), cmd.size()); g_shm->used += cmd.size() + 2; g_shm->nlog++; }
		if (cmd == unhex("FFCA000000")) { fake::Card* c = nullptr; for (auto& h : S->handles) if (h.second.open) c = &S->readers[h.second.reader].card; if (!c || c->uid_err) return SCARD_E_NOT_TRANSACTED; if (*rxn < c->uid_answer.size()) return SCARD_E_INSUFFICIENT_BUFFER; memcpy(rx, c->uid_answer.data(), c->uid_answer.size()); *rxn = c->uid_answer.size(); return SCARD_S_SUCCESS; }
		size_t n = *rxn; int e = rd.trx(cmd.data(), cmd.size(), rx, &n); *rxn = n; return e ? SCARD_F_COMM_ERROR : SCARD_S_SUCCESS;
	};
	S = &q; g_at_end = at_end; emv_debug_init(0, EMV_DEBUG_NONE, nullptr); r = run_tool(emv_tool_main, args, &sc.input); S = nullptr;
}
static std::vector<Bytes> sent() { std::vector<Bytes> v; for (uint32_t o = 0, i = 0; i < g_shm->nlog; ++i) { size_t n = g_shm->log[o] << 8 | g_shm->log[o + 1]; v.push_back(Bytes(g_shm->log + o + 2, g_shm->log + o + 2 + n)); o += n + 2; } return v; }

// ---------------------------------------------------------------- generators
static Bytes tool_atr(Src& s) {
	static const char* G[] = {"3B6500002063CB6800", "3B600000", "3B6F00000031C071C66401F40C8290 00", "3B640000AABBCCDD", "3BE00000813120E5"};
	Bytes b = unhex("3B6500002063CB6800"); switch (s.weighted({6, 2, 1, 1})) {
		case 0: b = unhex(G[s.pickl<unsigned>({0, 1, 3})]); break;
		case 1: { b = {0x3B, 0xE0, 0x00, 0x00, 0x81, 0x31, (uint8_t)s.range(0x10, 0xFE), 0x45}; size_t k = s.draw(16); b[1] |= k; for (size_t i = 0; i < k; ++i) b.push_back(s.byte()); uint8_t x = 0; for (size_t i = 1; i < b.size(); ++i) x ^= b[i]; b.push_back(x); break; }
		case 2: { size_t k = s.draw(16); b = {0x3B, (uint8_t)(0x60 | k), 0, (uint8_t)s.byte()}; for (size_t i = 0; i < k; ++i) b.push_back(s.byte()); break; }
		default: b = s.bytes(s.range(1, 33)); break;
	}
	return b;
}
static void gen_props(Src& s, fake::Reader& r, bool faults) {
	size_t nf = s.draw(5); uint32_t code = 0x42330000; std::set<unsigned> have;
	for (size_t k = 0; k < nf; ++k) {
		uint8_t t = (uint8_t)s.pickl<uint64_t>({6, 7, 8, 9, 0x0A, 0x11, 0x12, 0x12, 0x20}); if (!have.insert(t).second) continue; uint32_t cc = code + (uint32_t)k * 0x101; r.features.push_back(t); r.features.push_back(4); fake::be32(r.features, cc); Bytes d;
		auto v16 = [&](Bytes& o) { uint16_t v = s.chance(1, 4) ? 0 : (uint16_t)(s.chance(1, 4) ? s.draw(65536) : s.range(1, 300)); o.push_back((uint8_t)v); o.push_back((uint8_t)(v >> 8)); };
		if (t == 0x0A) { v16(d); d.push_back(s.byte()); d.push_back(s.byte()); d.resize(sizeof(PIN_PROPERTIES_STRUCTURE), 0); }
		else if (t == 0x11) { v16(d); v16(d); }
		else if (t == 0x12) { static const std::pair<uint8_t, int> P[] = {{1, 2}, {4, 2}, {5, 2}, {6, 1}, {7, 1}, {0xB, 2}, {0xC, 2}, {2, 1}, {3, 1}, {8, 0}, {0xA, 4}}; for (auto& p : P) if (s.chance(1, 25)) { size_t n = s.draw(4); d.push_back(p.first); d.push_back((uint8_t)n); for (size_t i = 0; i < n; ++i) d.push_back(s.byte()); } else if (s.chance(2, 5)) { d.push_back(p.first); d.push_back(p.second ? p.second : 9); if (p.second == 2) v16(d); else for (int i = 0; i < (p.second ? p.second : 9); ++i) d.push_back(s.chance(1, 4) ? 0 : s.byte()); } }
		if (faults && s.chance(1, 10)) r.control_err[cc] = s.pick(fake::ERRS); r.control[cc] = d;
	}
	if (faults) { if (s.chance(1, 12)) r.feat_err = s.pick(fake::ERRS); if (s.chance(1, 12)) r.direct_err = s.pick(fake::ERRS); }
}
static std::string opt(Src& s, std::vector<std::string>& v, const char* name, const std::string& val) { if (s.chance(1, 2)) v.push_back(std::string(name) + "=" + val); else { v.push_back(name); v.push_back(val); } return val; }

VH_PROP(C35, transaction, 4000, 150000, "complete runs of emv-tool with up to four scripted readers, cards of every kind in both protocols, service errors, transaction and debugging options, dates, and prompt answers valid, invalid, over-long and missing; the text is compared with that of a reference driver over the same library and card, the commands with those of the reference; non-trivial: a card was activated") {
	tool_data(); Scene sc; bool faults = s.chance(1, 3); auto fault = [&](unsigned den) -> LONG { return faults && s.chance(1, den) ? s.pick(fake::ERRS) : 0; };
	size_t nr = s.weighted({1, 12, 5, 2, 1});
	for (size_t i = 0; i < nr; ++i) { fake::Reader r; r.name = s.chance(1, 3) ? fmt("R%zu", i) : fmt("Reader model %zu [interface] 00 %02zu", i * 7, i); gen_props(s, r, faults); r.card.present = s.chance(1, 4); r.state = fake::gen_state(s, r.card.present); sc.base.readers.push_back(r); sc.st_err.push_back(fault(10)); sc.st_err_after.push_back(fault(10)); }
	sc.after = sc.base.readers;
	for (size_t i = 0; i < nr; ++i) {
		fake::Reader& r = sc.after[i]; bool in = s.chance(3, 4) || (i + 1 == nr && s.chance(1, 2)); if (!in) { r.card.present = false; r.state = fake::gen_state(s, false); continue; }
		if (s.chance(1, 10)) fake::gen_card(s, r.card); else { r.card = fake::Card(); r.card.proto = s.chance(1, 2) ? SCARD_PROTOCOL_T0 : SCARD_PROTOCOL_T1; r.card.atr = tool_atr(s); }
		r.card.present = !faults || !s.chance(1, 10); r.state = fake::gen_state(s, true);
	}
	sc.base.est_err = fault(15); sc.base.list_err1 = fault(15); sc.base.list_err2 = fault(15); sc.base.rel_err = fault(15); sc.wait_err = fault(10); if (sc.wait_err && s.chance(1, 3)) sc.wait_err = SCARD_E_TIMEOUT; sc.base.connect_err = fault(10); sc.base.status_err = fault(15); sc.base.disc_err = fault(8);
	if (sc.base.rel_err && (sc.base.est_err)) sc.base.rel_err = 0;
	// card
	Card& c = sc.card.c; bool tr; std::string kind;
	switch (s.weighted({6, 2, 2})) { case 0: gen_good_card(s, c, TOOL_AIDS); break; case 1: gen_good_card(s, c, TOOL_AIDS); for (auto& a : c.apps) if (s.chance(1, 3)) a.ans.sw = odd_sw(s); if (s.chance(1, 2)) c.gpo = s.chance(1, 2) ? Ans{0x6985, {}, false} : gen_gpo(s, tr); break; default: gen_card(s, c, TOOL_AIDS); if (s.chance(1, 2)) { Card g; gen_good_card(s, g, TOOL_AIDS); c.gpo = g.gpo; for (auto& r : g.recs) c.recs.insert(r); } else c.gpo = gen_gpo(s, tr); break; }
	sc.card.fault_kind = (int)s.draw(5); sc.card.rng = (uint32_t)s.draw(1000); sc.card.left = 3000;
	// answers at the prompt
	unsigned lines = (unsigned)s.weighted({1, 3, 3, 2, 1, 1}); 
	for (unsigned i = 0; i < lines; ++i) {
		std::string l; switch (s.weighted({10, 3, 2, 2, 2, 1})) { case 0: l = fmt("%u", (unsigned)s.range(1, 4)); break; case 1: l = s.pickl<std::string>({"", "0", "9", "99", "x", "a1", "-1", "?", " ", "."}); break; case 2: l = fmt("%u", (unsigned)s.range(100, 4000)); break; case 3: l = s.pickl<std::string>({"100", "200000001", "1000000000000", "4294967297", "4294967298", "18446744073709551617"}); break; case 4: { l = s.pickl<std::string>({"abc", "zz", "not a number "}); size_t n = s.draw(40); for (size_t k = 0; k < n; ++k) l += (char)('a' + s.draw(26)); l += fmt("%u", (unsigned)s.range(1, 3)); break; } default: l = std::string(s.range(1, 300), s.pickl<char>({'y', '?', '-'})) + "1"; break; }
		if (i + 1 < lines || s.chance(4, 5)) l += "\n"; sc.input.insert(sc.input.end(), l.begin(), l.end());
	}
	// options
	std::vector<std::string> o; sc.type = s.chance(1, 2) ? s.pickl<unsigned>({0x00, 0x01, 0x09, 0x20, 0x30, 0x40}) : (unsigned)(s.draw(10) << 4 | s.draw(10));
	sc.amount = s.chance(1, 3) ? (uint32_t)s.pickl<uint64_t>({1, 9, 10, 99, 100, 4294967295u, 4294967294u, 1000000000, 999999999, 2147483648u, 65536}) : (uint32_t)s.range(1, s.chance(1, 2) ? 100000 : 4294967295u); if (sc.type == 0x30 && s.chance(1, 2)) sc.amount = 0;
	sc.other = sc.type == 0x09 || s.chance(1, 5) ? (s.chance(1, 3) ? (uint32_t)s.pickl<uint64_t>({1, 10, 4294967295u, 2147483648u}) : (uint32_t)s.range(1, 100000)) : 0;
	std::vector<std::vector<std::string>> groups; auto group = [&](const char* n, const std::string& v) { std::vector<std::string> g; opt(s, g, n, v); groups.push_back(g); };
	if (sc.type || s.chance(1, 2)) group("--txn-type", fmt("%02X", sc.type));
	if (sc.amount || s.chance(1, 2)) group("--txn-amount", fmt(s.chance(1, 6) ? "%012u" : s.chance(1, 6) ? "0%u" : "%u", sc.amount));
	if (sc.other || s.chance(1, 4)) group("--txn-amount-other", fmt(s.chance(1, 6) ? "%012u" : s.chance(1, 6) ? "0%u" : "%u", sc.other));
	if (s.chance(1, 2)) { static const char* LV[] = {"NONE", "ERROR", "INFO", "CARD", "TRACE", "ALL"}; sc.level = (unsigned)s.draw(6); std::string t = LV[sc.level]; if (s.chance(1, 3)) for (auto& ch : t) ch = (char)tolower(ch); group("--debug-level", t); }
	if (s.chance(1, 2)) { static const char* SR[] = {"TTL", "TAL", "EMV", "APP", "ALL"}; sc.mask = 0; std::string t; unsigned n = (unsigned)s.range(1, 3); for (unsigned i = 0; i < n; ++i) { unsigned k = (unsigned)s.draw(5); sc.mask |= k == 4 ? 0xFF : 1u << k; std::string w = SR[k]; if (s.chance(1, 3)) for (auto& ch : w) ch = (char)tolower(ch); if (!t.empty()) t += ","; t += w; } group("--debug-source", t); }
	if (s.chance(1, 6)) { sc.verbose = true; groups.push_back({"--debug-verbose"}); }
	for (size_t i = groups.size(); i > 1; --i) std::swap(groups[i - 1], groups[s.draw(i)]);
	g_now = (time_t)(s.chance(1, 3) ? s.pickl<uint64_t>({0, 951782399, 951782400, 946684799, 1709164800, 1735689599, 1735689600, 2147483647, 2147483648, 4102444799, 1262304000, 1577836799}) : s.draw(4102444800u));
	std::vector<std::string> args{"emv-tool"}; for (auto& g : groups) for (auto& a : g) o.push_back(a); args.insert(args.end(), o.begin(), o.end()); args.push_back("--isocodes-path=" + g_data + "/"); args.push_back("--mcc-json=" + g_data + "/mcc.json");
	std::string cmd; for (auto& a : o) cmd += " '" + a + "'";
	if (s.want()) { std::string d = "emv-tool" + cmd + fmt(" at %lld input \"", (long long)g_now) + around(std::string(sc.input.begin(), sc.input.end()), 0) + "\""; for (size_t i = 0; i < nr; ++i) d += fmt(" reader %zu state %lX then %lX atr %s", i, (unsigned long)sc.base.readers[i].state, (unsigned long)sc.after[i].state, hex(sc.after[i].card.atr).c_str()); s.desc(d + " " + card::show(c)); }
	time_t r0 = ::time(nullptr); Run r; run_child(sc, args, r); time_t r1 = ::time(nullptr);
	REQUIRE(!(WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGALRM || WTERMSIG(r.status) == SIGXFSZ)), "emv-tool%s does not end (signal %d after printing %zu octets)", cmd.c_str(), WTERMSIG(r.status), r.out.size());
	REQUIRE(WIFEXITED(r.status) && WEXITSTATUS(r.status) != 99 && WEXITSTATUS(r.status) != 98, "emv-tool%s failed (status %X): %s", cmd.c_str(), r.status, r.err.substr(0, 1500).c_str());
	REQUIRE(r.marked, "emv-tool%s did not end in an orderly way: %s", cmd.c_str(), r.err.substr(0, 500).c_str());
	if (g_shm->err[0]) fails("emv-tool" + cmd + ": " + g_shm->err);
	REQUIRE(g_shm->opened == g_shm->closed, "PC/SC context opened %u times and released %u times", g_shm->opened, g_shm->closed);
	Expect x = expect(sc); std::string got = clean(normal(r.out)), want = clean(normal(x.text));
	if (got != want && !g_shm->time_read && !x.eof) for (time_t t = r0; t <= r1 && got != want; ++t) { g_now = t; Expect y = expect(sc); if (clean(normal(y.text)) == got) { x = y; want = got; } } // another clock was used
	emv_debug_init(0, EMV_DEBUG_NONE, nullptr); s.label(x.how); REQUIRE(!x.endless, "the transaction does not end");
	size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
	if (x.eof) REQUIRE(k == want.size() && got.size() - k < 200 && got.find("Initiate", k) == std::string::npos && got.find("Select", k) == std::string::npos, "emv-tool%s without further input prints \"%s\" after \"%s\"", cmd.c_str(), around(got, k + 60).c_str(), around(want, k).c_str());
	else REQUIRE(got == want, "emv-tool%s prints \"%s\" where \"%s\" is expected", cmd.c_str(), around(got, k).c_str(), around(want, k).c_str());
	auto tx = sent(); for (size_t i = 0; i < tx.size() || i < x.cmds.size(); ++i) REQUIRE(i < tx.size() && i < x.cmds.size() && tx[i] == x.cmds[i], "exchange %zu is %s expected %s", i, i < tx.size() ? hex(tx[i]).c_str() : "missing", i < x.cmds.size() ? hex(x.cmds[i]).c_str() : "none");
	if (x.deactivated) REQUIRE(!g_shm->handles_open && g_shm->unpowered == 1 && !g_shm->other_disp, "the card is reported as deactivated but it was not powered off");
	if (x.activated) s.nontrivial();
}
VH_PROP(C35, command_line, 6000, 150000, "command lines with invalid, missing, over-long and repeated option values and surplus arguments; non-trivial: always") {
	tool_data(); Scene sc; fake::Reader r; r.name = "R"; r.state = SCARD_STATE_EMPTY; if (s.chance(1, 2)) { sc.base.readers.push_back(r); sc.st_err = {0}; sc.st_err_after = {0}; } sc.after = sc.base.readers; s.nontrivial();
	std::vector<std::string> args{"emv-tool"}; std::vector<std::string> g; bool valid = false, zero = false; const char* how = "invalid value"; unsigned k = (unsigned)s.draw(11);
	auto digits = [&](size_t n) { std::string t; for (size_t i = 0; i < n; ++i) t += (char)('0' + s.draw(10)); return t; };
	std::string type = "00", amt = fmt("%u", (unsigned)s.range(1, 5000)), other; std::string extra, bad;
	auto badnum = [&](bool two) { std::string t = digits(two ? 2 : s.range(1, 8)); switch (s.draw(8)) { case 0: t.clear(); break; case 1: t[s.draw(t.size())] = s.pickl<char>({'x', ' ', '.', ',', '-', '+', 'g', 'e', '\t', '/', ':'}); break; case 2: t = s.pickl<std::string>({"-1", "+5", " 5", "5 ", "\t7", "0x", "-0", "+0"}); break; case 3: if (two) t = digits(s.pickl<size_t>({1, 3, 4, 30})); else t = s.pickl<std::string>({"4294967296", "99999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "100000000000000000000000000", "-18446744073709551615", "-18446744069414584321"}); break; case 4: if (two) t = s.pickl<std::string>({"0A", "a0", "FF", "1b"}); else t = s.pickl<std::string>({"12.50", "12,50", "1e3", "0x10", "1 000", "ten"}); break; case 5: t += s.pickl<std::string>({"x", ".", "-", " ", "\n"}); break; case 6: t = s.pickl<std::string>({" ", "+", "-", "x", "."}) + t.substr(0, two ? 1 : t.size()); break; default: t += two ? digits(1) : std::string("99999999999"); break; } return t; };
	switch (k) {
		case 0: case 1: bad = badnum(true); opt(s, g, "--txn-type", bad); type.clear(); break;
		case 2: case 3: bad = badnum(false); opt(s, g, "--txn-amount", bad); amt.clear(); break;
		case 4: bad = badnum(false); opt(s, g, "--txn-amount-other", bad); break;
		case 5: { static const std::vector<std::string> B = {"", "FOO", "TT", "ALLE", "INF", "INFO ", "0", "TRACE,ALL"}; bad = s.pick(B); opt(s, g, "--debug-level", bad); break; }
		case 6: { static const std::vector<std::string> B = {"FOO", "TTL,FOO", "TT", "TTL TAL", "TTL;TAL", "0xFF", "EMV,ALLX", "NONE,X"}; bad = s.pick(B); opt(s, g, "--debug-source", bad); break; }
		case 7: how = "unknown option"; g = {s.pickl<std::string>({"--no-such-option", "-x", "surplus", "--txn-amountx=5", "--debug-verbose=1", "00"})}; break;
		case 8: how = "zero amount"; zero = true; type = s.pickl<std::string>({"00", "01", "09", "20", "31"}); amt = s.chance(1, 2) ? "0" : s.chance(1, 2) ? "000" : ""; break;
		case 9: how = "zero cashback"; zero = true; type = "09"; other = s.chance(1, 2) ? "0" : ""; break;
		default: valid = true; break;
	}
	if (valid) {
		unsigned w = (unsigned)s.draw(4); std::vector<std::string> a{"emv-tool"}; if (w == 0) a.push_back("--version"); else if (w == 1) a.push_back("--help"); else if (w == 2) a.push_back("--usage"); Run r; if (w != 3 && s.chance(1, 2)) a.push_back("--txn-amount=5");
		if (s.want()) s.desc(a.size() > 1 ? a[1] : "no argument"); run_child(sc, a, r); REQUIRE(WIFEXITED(r.status) && WEXITSTATUS(r.status) == (w == 3 ? 1 : 0), "%s ends with %X", a.size() > 1 ? a[1].c_str() : "no argument", r.status); REQUIRE(g_shm->opened == 0, "%s opens a PC/SC context", a.size() > 1 ? a[1].c_str() : "no argument");
		if (w == 0) REQUIRE(r.out == "harness\n", "version printed as \"%s\"", r.out.substr(0, 100).c_str()); else REQUIRE(r.out.find("--txn-amount") != std::string::npos || w == 2, "no help printed"); s.label("information"); return;
	}
	if (!type.empty()) { std::vector<std::string> t; opt(s, t, "--txn-type", type); args.insert(args.end(), t.begin(), t.end()); }
	if (!amt.empty()) { std::vector<std::string> t; opt(s, t, "--txn-amount", amt); args.insert(args.end(), t.begin(), t.end()); }
	if (!other.empty()) { std::vector<std::string> t; opt(s, t, "--txn-amount-other", other); args.insert(args.end(), t.begin(), t.end()); }
	args.push_back("--isocodes-path=" + g_data + "/"); args.push_back("--mcc-json=" + g_data + "/mcc.json");
	size_t at = 1; if (!g.empty()) { if (s.chance(1, 2)) at = args.size(); args.insert(args.begin() + at, g.begin(), g.end()); }
	std::string cmd; for (size_t i = 1; i < args.size(); ++i) if (args[i].find("-path=") == std::string::npos && args[i].find("json=") == std::string::npos) cmd += " '" + args[i] + "'"; if (s.want()) s.desc("emv-tool" + cmd); s.label(how);
	Run q; run_child(sc, args, q);
	REQUIRE(WIFEXITED(q.status) && WEXITSTATUS(q.status) != 99 && WEXITSTATUS(q.status) != 98, "emv-tool%s failed (status %X): %s", cmd.c_str(), q.status, q.err.substr(0, 1500).c_str());
	REQUIRE(g_shm->opened == 0, "emv-tool%s starts a transaction although %s", cmd.c_str(), zero ? "its amount is zero" : "its command line is invalid");
	REQUIRE(WEXITSTATUS(q.status) != 0 && !q.err.empty(), "emv-tool%s ends with %d and the message \"%s\" although its command line is invalid", cmd.c_str(), WEXITSTATUS(q.status), q.err.substr(0, 200).c_str());
}
