// C16..C23, C32: applications, card sessions, memory faults, tracing
#include "card_gen.h"
using namespace vh; using namespace model; using namespace card;

static void quiet_debug() { emv_debug_init(0, EMV_DEBUG_NONE, nullptr); }
static struct InitReset { InitReset() { case_reset = quiet_debug; } } init_reset;
struct Ctx { struct emv_ttl_t ttl; struct emv_ctx_t c; Reader rd; Ctx() { memset(&ttl, 0, sizeof ttl); emv_ctx_init(&c, &ttl); } void attach() { rd.attach(&ttl); } ~Ctx() {} };
static void check_list(const struct emv_app_list_t& l, const std::vector<MApp>& m, const char* what) {
	size_t i = 0; const struct emv_app_t* last = nullptr;
	for (const struct emv_app_t* a = l.front; a; a = a->next, ++i) { if (i >= m.size()) fail("%s: surplus application %s", what, hex(a->aid->value, a->aid->length).c_str()); check_app(a, m[i], fmt("%s: application %zu", what, i).c_str()); last = a; }
	REQUIRE(i == m.size(), "%s: %zu applications, expected %zu (first missing %s)", what, i, m.size(), i < m.size() ? hex(m[i].aid).c_str() : "");
	REQUIRE(l.back == last, "%s: list end is wrong", what);
}

// ------------------------------------------------------------------ C16
VH_PROP(C16, candidates, 60000, 3000000, "cards with directories, directory records, applications, faults and blocked states against one to five supported identifiers, in both reader modes; non-trivial: at least one candidate results") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); gen_card(s, x.rd.c, sup); gen_reader(s, x.rd); x.attach();
	push_aids(&x.c.supported_aids, sup);
	std::vector<MApp> want; std::string how; int w = ref_candidates(x.rd.c, sup, want, &how);
	if (s.want()) { std::string d; for (auto& a : sup) d += hex(a.v) + (a.flags ? "* " : " "); s.desc("supported " + d + (x.rd.tpdu ? "TPDU " : "APDU ") + card::show(x.rd.c)); }
	struct emv_app_list_t l = EMV_APP_LIST_INIT; int r = emv_build_candidate_list(&x.c, &l);
	if (w != -100) REQUIRE(r == w, "candidate list result %d expected %d (%s)", r, w, how.c_str());
	if (!r && w != -100) { check_list(l, want, how.c_str()); s.nontrivial(); s.label(how.c_str()); if (want.size() > 1) s.label("several"); }
	else s.label(r == EMV_OUTCOME_CARD_ERROR ? "card error" : r == EMV_OUTCOME_CARD_BLOCKED ? "blocked" : "none");
	emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C16, directory, 40000, 2000000, "usable directories of 1..8 records mixing usable, unusable and unsupported entries, no faults; non-trivial: two or more candidates") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); Card& c = x.rd.c; unsigned sfi = (unsigned)s.range(1, 30); bool ct = s.chance(1, 2);
	c.pse.data = tlv(0x6F, tlv(0xA5, tlv(0x88, {(uint8_t)sfi}) + (ct ? tlv(0x9F11, {(uint8_t)s.range(1, 15)}) : Bytes{})));
	unsigned n = (unsigned)(s.chance(1, 10) ? (s.chance(1, 3) ? s.range(253, 255) : s.range(9, 255)) : s.range(1, 8));
	for (unsigned i = 1; i <= n; ++i) { Ans a; Bytes t; unsigned k = n > 20 ? (i % 16 == 0 || i + 1 >= n) : (unsigned)s.range(1, 3); for (unsigned j = 0; j < k; ++j) { add(t, tlv(0x61, gen_pse_entry(s, n > 20 && !sup.empty() ? sup[0].v : card_aid(s, sup)))); } if (t.size() > 240) t.clear(); a.data = tlv(0x70, t); if (n <= 20) { if (s.chance(1, 8)) corrupt(s, a.data); if (a.data.size() > 254) a.data.resize(254); if (s.chance(1, 10)) a.sw = s.pickl<uint16_t>({0x6A82, 0x6985, 0x6A81, 0x6400, 0x6281}); } c.recs[{sfi, i}] = a; }
	gen_reader(s, x.rd); x.attach(); push_aids(&x.c.supported_aids, sup);
	if (n == 255 && s.chance(1, 2)) c.norec = {0x9000, {0x70, 0x00}, false};
	std::vector<MApp> want; std::string how; int w = ref_candidates(c, sup, want, &how);
	if (s.want()) { std::string d; for (auto& a : sup) d += hex(a.v) + (a.flags ? "* " : " "); s.desc("supported " + d + card::show(c)); }
	x.rd.left = 3000;
	struct emv_app_list_t l = EMV_APP_LIST_INIT; int r = emv_build_candidate_list(&x.c, &l);
	REQUIRE(!x.rd.broken, "reading the directory does not end after %u exchanges", x.rd.exchanges);
	if (w != -100) REQUIRE(r == w, "candidate list result %d expected %d (%s)", r, w, how.c_str());
	if (!r && w != -100) { check_list(l, want, how.c_str()); s.label(how.c_str()); if (want.size() > 1) s.nontrivial(); }
	emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C16, endless_directory, 60, 1000, "cards that never end their directory (every record number answers); non-trivial: always") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); Card& c = x.rd.c; unsigned sfi = (unsigned)s.range(1, 30); c.pse.data = tlv(0x6F, tlv(0xA5, tlv(0x88, {(uint8_t)sfi})));
	c.norec = {s.pickl<uint16_t>({0x9000, 0x6A82, 0x6985}), {0x70, 0x00}, false}; if (c.norec.sw != 0x9000) c.norec.data.clear();
	Card::App a; a.name = sup.empty() ? gen_aid(s) : sup[0].v; a.ans.data = gen_fci(s, a.name); if (a.ans.data.size() > 250) a.ans.data = tlv(0x6F, tlv(0x84, a.name)); c.apps.push_back(a);
	gen_reader(s, x.rd); x.attach(); push_aids(&x.c.supported_aids, sup); x.rd.left = 3000; s.nontrivial();
	if (s.want()) s.desc(card::show(c) + fmt(" every record %04X", c.norec.sw));
	std::vector<MApp> want; int w = ref_candidates(c, sup, want);
	struct emv_app_list_t l = EMV_APP_LIST_INIT; int r = emv_build_candidate_list(&x.c, &l);
	REQUIRE(!x.rd.broken, "reading the directory does not end after %u exchanges", x.rd.exchanges);
	if (w != -100) REQUIRE(r == w, "candidate list result %d expected %d", r, w); if (!r && w != -100) check_list(l, want, "list");
	emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak");
}

// ------------------------------------------------------------------ C17
VH_PROP(C17, from_pse, 250000, 6000000, "directory entries with all name, priority and code table variants, some damaged, with and without directory data; non-trivial: an application results") {
	Bytes b = gen_pse_entry(s, s.chance(1, 8) ? s.bbytes(s.draw(20)) : gen_aid(s)); if (s.chance(1, 6)) corrupt(s, b); if (s.chance(1, 20)) { b.clear(); name_fields(s, b, true); }
	if (s.chance(1, 20)) b = tlv(0x73, b); // nested
	std::vector<Field> pse; bool have = s.chance(2, 3); if (have) { if (s.chance(3, 4)) pse.push_back({0x9F11, s.chance(1, 10) ? s.bbytes(s.draw(3)) : Bytes{(uint8_t)s.range(s.chance(1, 8) ? 0 : 1, s.chance(1, 8) ? 17 : 15)}}); if (s.chance(1, 4)) pse.push_back({0x9F11, {1}}); }
	if (s.want()) s.desc("entry " + hex(b) + (have ? " directory data " + card::show(pse) : " no directory data"));
	struct emv_tlv_list_t pl = EMV_TLV_LIST_INIT; push_fields(&pl, pse); Exact e(b);
	MApp m; bool ok = app_from_pse(have ? &pse : nullptr, b.data(), b.size(), m);
	struct emv_app_t* a = emv_app_create_from_pse(have ? &pl : nullptr, e.p, e.n);
	if (b.empty()) { REQUIRE(!a, "application from no data"); }
	else if (!ok) REQUIRE(!a, "application created from unusable entry %s", hex(b).c_str());
	else if (!m.unsure) { check_app(a, m, "directory entry"); memset(e.p, 0xEE, e.n); check_app(a, m, "directory entry after its source was overwritten"); s.nontrivial(); s.label(m.any_name ? "unassigned character" : "named"); }
	if (a) emv_app_free(a); emv_tlv_list_clear(&pl); REQUIRE(alloc_live() == 0, "leak");
}
VH_PROP(C17, from_fci, 250000, 6000000, "selection responses with all name, priority and code table variants, some damaged or with data around them; non-trivial: an application results") {
	Bytes b = gen_fci(s, s.chance(1, 8) ? s.bbytes(s.draw(20)) : gen_aid(s)); if (s.chance(1, 6)) corrupt(s, b); if (s.chance(1, 20)) b.push_back(s.bbyte()); if (s.chance(1, 25)) b[0] = s.pickl<uint8_t>({0x70, 0x61, 0x77, 0x62});
	if (s.want()) s.desc("fci " + hex(b));
	Exact e(b); MApp m; bool ok = app_from_fci(b, m); struct emv_app_t* a = emv_app_create_from_fci(e.p, e.n);
	if (!ok) REQUIRE(!a, "application created from unusable selection data %s", hex(b).c_str());
	else if (!m.unsure) { check_app(a, m, "selection data"); memset(e.p, 0xEE, e.n); check_app(a, m, "selection data after its source was overwritten"); s.nontrivial(); }
	if (a) emv_app_free(a); REQUIRE(alloc_live() == 0, "leak");
}
VH_PROP(C17, supported, 250000, 6000000, "identifiers against lists of supported identifiers with shared prefixes; non-trivial: some supported identifier is a prefix") {
	std::vector<Aid> sup = gen_supported(s); Bytes aid = card_aid(s, sup); if (s.chance(1, 10) && aid.size() > 3) aid.resize(3); if (aid.empty()) aid = {0xA0};
	for (auto& a : sup) if (s.chance(1, 12)) a.v.resize(s.draw(a.v.size() + 1)); // unusually short configuration
	if (s.want()) { std::string d; for (auto& a : sup) d += hex(a.v) + (a.flags ? "* " : " "); s.desc("identifier " + hex(aid) + " supported " + d); }
	struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; push_aids(&l, sup); Bytes b = tlv(0x4F, aid); struct emv_app_t* a = emv_app_create_from_pse(nullptr, b.data(), b.size()); REQUIRE(a, "no application");
	bool w = card::supported(aid, sup), r = emv_app_is_supported(a, &l); REQUIRE(r == w, "identifier %s supported: %d expected %d", hex(aid).c_str(), r, w);
	for (auto& q : sup) if (q.v.size() <= aid.size() && std::equal(q.v.begin(), q.v.end(), aid.begin())) s.nontrivial(); s.label(w ? "supported" : "unsupported");
	emv_app_free(a); emv_tlv_list_clear(&l); REQUIRE(alloc_live() == 0, "leak");
}
VH_ENUM(C17, priority_all, 256, "every priority indicator value") {
	Bytes b = tlv(0x4F, {0xA0, 0, 0, 0, 3}) + tlv(0x87, {(uint8_t)s.index}); MApp m; app_from_pse(nullptr, b.data(), b.size(), m); s.nontrivial();
	struct emv_app_t* a = emv_app_create_from_pse(nullptr, b.data(), b.size()); check_app(a, m, "entry"); emv_app_free(a);
}
VH_ENUM(C17, name_characters, 16 * 256, "every character of every code table as preferred name") {
	unsigned part = (unsigned)(s.index >> 8); uint8_t c = (uint8_t)s.index; Bytes b = tlv(0x84, {0xA0, 0, 0, 0, 3}) + tlv(0x9F11, {(uint8_t)part}) + tlv(0x9F12, {'x', c}) + tlv(0x50, {'L'}); b = tlv(0x6F, b);
	MApp m; REQUIRE(app_from_fci(b, m), "model"); s.nontrivial(); struct emv_app_t* a = emv_app_create_from_fci(b.data(), b.size()); check_app(a, m, fmt("part %u character %02X", part, c).c_str()); emv_app_free(a);
}

// ------------------------------------------------------------------ C18
VH_PROP(C18, history, 100000, 3000000, "histories of up to 30 operations over two lists; non-trivial: a sort or removal on a list of two or more") {
	struct emv_app_list_t L[2] = {EMV_APP_LIST_INIT, EMV_APP_LIST_INIT}; std::vector<std::pair<struct emv_app_t*, MApp>> M[2]; unsigned ops = (unsigned)s.len(1, 30), id = 0; std::string log;
	auto check = [&]() { for (int k = 0; k < 2; ++k) {
		size_t i = 0; const struct emv_app_t* last = nullptr; for (const struct emv_app_t* a = L[k].front; a; a = a->next, ++i) { REQUIRE(i < M[k].size() && a == M[k][i].first, "list %d position %zu holds the wrong application after%s", k, i, log.c_str()); check_app(a, M[k][i].second, "list"); last = a; }
		REQUIRE(i == M[k].size(), "list %d has %zu applications expected %zu after%s", k, i, M[k].size(), log.c_str()); REQUIRE(L[k].back == last && emv_app_list_is_empty(&L[k]) == M[k].empty(), "list %d ends are wrong after%s", k, log.c_str());
		bool req = M[k].size() > 1; for (auto& e : M[k]) req |= e.second.conf; REQUIRE(emv_app_list_selection_is_required(&L[k]) == req, "selection required is not %d after%s", req, log.c_str());
	} };
	for (unsigned o = 0; o < ops; ++o) {
		int k = (int)s.draw(2); auto& m = M[k];
		switch (s.weighted({8, 2, 4, 3, 1})) {
			case 0: { Bytes b = tlv(0x4F, {0xA0, 0, 0, 0, (uint8_t)++id}); unsigned p = (unsigned)s.draw(s.chance(1, 3) ? 17 : 5); if (p < 16) add(b, tlv(0x87, {(uint8_t)(p | (s.chance(1, 8) ? 0x80 : 0))})); MApp a; app_from_pse(nullptr, b.data(), b.size(), a); struct emv_app_t* r = emv_app_create_from_pse(nullptr, b.data(), b.size()); REQUIRE(r && emv_app_list_push(&L[k], r) == 0, "push failed"); m.push_back({r, a}); log += fmt(" push%d(%u)", k, a.prio); break; }
			case 1: { struct emv_app_t* r = emv_app_list_pop(&L[k]); log += fmt(" pop%d", k); if (m.empty()) REQUIRE(!r, "pop from an empty list"); else { REQUIRE(r == m[0].first && !r->next, "pop gives the wrong application after%s", log.c_str()); check_app(r, m[0].second, "popped"); m.erase(m.begin()); if (s.chance(1, 3)) { MApp q; app_from_pse(nullptr, nullptr, 0, q); emv_app_free(r); } else emv_app_free(r); } break; }
			case 2: { unsigned i = (unsigned)(s.chance(1, 8) ? s.u32() : s.draw(m.size() + 2)); log += fmt(" remove%d[%u]", k, i); struct emv_app_t* r = emv_app_list_remove_index(&L[k], i); if (i >= m.size()) REQUIRE(!r, "removal of absent index %u gives an application", i); else { if (m.size() > 1) s.nontrivial(); REQUIRE(r == m[i].first && !r->next, "removal of index %u gives the wrong application after%s", i, log.c_str()); check_app(r, m[i].second, "removed"); MApp a = m[i].second; m.erase(m.begin() + i); if (s.chance(1, 3)) { emv_app_list_push(&L[1 - k], r); M[1 - k].push_back({r, a}); log += "->other"; } else emv_app_free(r); } break; }
			case 3: { log += fmt(" sort%d", k); if (m.size() > 1) s.nontrivial(); REQUIRE(emv_app_list_sort_priority(&L[k]) == 0, "sort failed"); std::stable_sort(m.begin(), m.end(), [](const std::pair<struct emv_app_t*, MApp>& x, const std::pair<struct emv_app_t*, MApp>& y) { return (x.second.prio ? x.second.prio : 99) < (y.second.prio ? y.second.prio : 99); }); break; }
			default: if (!s.chance(1, 3)) break; log += fmt(" clear%d", k); emv_app_list_clear(&L[k]); m.clear(); break;
		}
		check();
	}
	if (s.want()) s.desc("history" + log);
	for (auto& l : L) emv_app_list_clear(&l); REQUIRE(alloc_live() == 0, "leak after%s", log.c_str());
}
VH_ENUM(C18, sort_small, 5 * 5 * 5 * 5 * 5, "every sequence of five priorities drawn from none, 1, 2, 14, 15 sorted") {
	static const uint8_t P[] = {0, 1, 2, 14, 15}; struct emv_app_list_t l = EMV_APP_LIST_INIT; std::vector<std::pair<unsigned, struct emv_app_t*>> m; uint64_t x = s.index; s.nontrivial();
	for (int i = 0; i < 5; ++i, x /= 5) { Bytes b = tlv(0x4F, {1, 2, 3, 4, (uint8_t)i}) + (P[x % 5] ? tlv(0x87, {P[x % 5]}) : Bytes{}); struct emv_app_t* a = emv_app_create_from_pse(nullptr, b.data(), b.size()); emv_app_list_push(&l, a); m.push_back({P[x % 5] ? P[x % 5] : 99u, a}); }
	std::stable_sort(m.begin(), m.end(), [](auto& p, auto& q) { return p.first < q.first; }); REQUIRE(emv_app_list_sort_priority(&l) == 0, "sort failed");
	size_t i = 0; for (struct emv_app_t* a = l.front; a; a = a->next, ++i) REQUIRE(i < 5 && a == m[i].second, "sorted position %zu is wrong", i); REQUIRE(i == 5, "sort keeps %zu of 5", i); emv_app_list_clear(&l);
}

// ------------------------------------------------------------------ C19
VH_PROP(C19, select, 100000, 3000000, "candidate lists of 0..6 and sequences of selections by index against cards whose applications answer, are blocked, missing, renamed, malformed or faulty; non-trivial: at least one selection reached the card") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); Card& c = x.rd.c; std::vector<MApp> list; struct emv_app_list_t l = EMV_APP_LIST_INIT; unsigned n = (unsigned)s.range(0, 6);
	for (unsigned i = 0; i < n; ++i) {
		Bytes aid = card_aid(s, sup); if (s.chance(1, 15)) aid.resize(s.range(17, 20), 0x55); if (aid.empty()) aid = {1, 2, 3, 4, 5};
		Bytes b = tlv(0x4F, aid) + tlv(0x87, {(uint8_t)s.draw(16)}); MApp m; app_from_pse(nullptr, b.data(), b.size(), m); struct emv_app_t* a = emv_app_create_from_pse(nullptr, b.data(), b.size()); REQUIRE(a, "setup"); emv_app_list_push(&l, a); list.push_back(m);
		if (s.chance(3, 4)) { Card::App p; p.name = aid; Bytes nm = aid; if (s.chance(1, 8)) { if (s.chance(1, 2)) nm.push_back(1); else if (nm.size() > 5 && s.chance(1, 2)) nm.pop_back(); else nm[nm.size() - 1] ^= 1; p.name = s.chance(1, 2) ? nm : aid; } p.ans.data = gen_fci(s, nm); if (s.chance(1, 8)) corrupt(s, p.ans.data); if (p.ans.data.size() > 250) p.ans.data = tlv(0x6F, tlv(0x84, nm)); if (s.chance(1, 4)) p.ans.sw = odd_sw(s); if (s.chance(1, 25)) p.ans.fault = true; c.apps.push_back(p); }
	}
	gen_reader(s, x.rd); x.attach(); unsigned sel = (unsigned)s.range(1, 6); std::string log;
	struct emv_tlv_list_t& icc = x.c.icc; push_fields(&icc, {{0x9F01, {1}}}); 
	for (unsigned k = 0; k < sel; ++k) {
		unsigned idx = (unsigned)(s.chance(1, 10) ? list.size() + s.draw(3) : s.chance(1, 30) ? 0xFFFFFFFFu : s.draw(list.size() + 1)); log += fmt(" select[%u]", idx); size_t before = x.rd.cmds.size();
		int r = emv_select_application(&x.c, &l, idx);
		if (s.want()) log += fmt("=%d", r);
		if (idx >= list.size()) { REQUIRE(r == EMV_ERROR_INVALID_PARAMETER, "index %u of %zu: result %d", idx, list.size(), r); REQUIRE(x.rd.cmds.size() == before, "an invalid index reaches the card"); check_list(l, list, "after an invalid index"); continue; }
		Bytes aid = list[idx].aid; list.erase(list.begin() + idx);
		check_list(l, list, fmt("candidates after selecting %s (%s)", hex(aid).c_str(), log.c_str()).c_str());
		if (aid.size() < 5) { REQUIRE(r > 0 && !x.c.selected_app, "identifier of %zu octets: result %d", aid.size(), r); continue; }
		int w; MApp m; bool got = false;
		if (aid.size() > 16) w = list.empty() ? EMV_OUTCOME_NOT_ACCEPTED : EMV_OUTCOME_TRY_AGAIN;
		else {
			Card cc = c; Ans a = cc.select(aid, false); s.nontrivial();
			REQUIRE(x.rd.cmds.size() == before + 1, "selection sends %zu commands", x.rd.cmds.size() - before);
			Bytes cmd = Bytes{0x00, 0xA4, 0x04, 0x00, (uint8_t)aid.size()} + aid + Bytes{0}; REQUIRE(x.rd.cmds.back() == cmd, "selection sends %s", hex(x.rd.cmds.back()).c_str());
			int again = list.empty() ? EMV_OUTCOME_NOT_ACCEPTED : EMV_OUTCOME_TRY_AGAIN;
			if (a.fault) w = EMV_OUTCOME_CARD_ERROR; else if (a.sw == 0x6A81) w = EMV_OUTCOME_CARD_BLOCKED; else if (a.sw != 0x9000) w = again; else if (!app_from_fci(a.data, m) || m.aid != aid) w = again; else { w = 0; got = true; }
			s.label(got ? "selected" : a.fault ? "fault" : a.sw == 0x6A81 ? "blocked" : a.sw != 0x9000 ? "status" : "mismatch");
		}
		REQUIRE(r == w, "selecting %s gives %d expected %d (%s)", hex(aid).c_str(), r, w, log.c_str());
		if (got) check_app(x.c.selected_app, m, "selected application"); else REQUIRE(!x.c.selected_app, "an application is selected although selection failed with %d", r);
	}
	if (s.want()) s.desc(log + " " + card::show(c));
	REQUIRE(list_fields(icc).size() == 1, "selection changed the card data");
	emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}

// ------------------------------------------------------------------ C20
// result fields of a GPO answer: 0 ok, 1 card error, 2 not judged
static int ref_gpo(const Bytes& d, std::vector<Field>& out) {
	out.clear(); El e; int r = element(d.data(), d.size(), &e); if (r <= 0) return 1; bool trailing = (size_t)r != d.size();
	Bytes v(d.begin() + e.hdr, d.begin() + e.hdr + e.len);
	if (e.tag == 0x80) { if (v.size() < 6 || (v.size() - 2) % 4) return 1; out = {{0x82, Bytes(v.begin(), v.begin() + 2)}, {0x94, Bytes(v.begin() + 2, v.end())}}; }
	else if (e.tag == 0x77) { if (!flatten(v, out)) return 1; }
	else return 1;
	if (!find(out, 0x82) || !find(out, 0x94)) return 1;
	return trailing ? 2 : 0;
}
static void expect_fields(const struct emv_tlv_list_t& l, const std::vector<Field>& w, const char* what) { auto f = list_fields(l); if (!(f == w)) fails(fmt("%s is ", what) + card::show(f) + "expected " + card::show(w)); }
VH_PROP(C20, initiate, 100000, 3000000, "selected applications with and without PDOL (lengths around 127/128 and the command limit), three data sources with overlapping fields, all response formats and faults, initiated up to three times; non-trivial: GET PROCESSING OPTIONS succeeded") {
	Ctx x; Card& c = x.rd.c; Bytes aid = gen_aid(s); Bytes pdol; bool has = s.chance(3, 4); if (has) { pdol = gen_pdol(s); if (s.chance(1, 10)) corrupt(s, pdol); if (pdol.size() > 110) pdol.resize(110); }
	Bytes a5; name_fields(s, a5, true); if (a5.size() > 80) a5.clear(); if (has && !pdol.empty()) { add(a5, tlv(0x9F38, pdol)); if (s.chance(1, 10)) add(a5, tlv(0x9F38, {0x9A, 3})); } else has = false;
	Card::App ap; ap.name = aid; ap.ans.data = tlv(0x6F, tlv(0x84, aid) + tlv(0xA5, a5)); c.apps.push_back(ap);
	std::vector<Field> params = gen_source(s), config = gen_source(s); push_fields(&x.c.params, params); push_fields(&x.c.config, config);
	gen_reader(s, x.rd); x.attach();
	// reach the selected state through the interface
	struct emv_app_list_t l = EMV_APP_LIST_INIT; Bytes b = tlv(0x4F, aid); emv_app_list_push(&l, emv_app_create_from_pse(nullptr, b.data(), b.size()));
	MApp m; REQUIRE(app_from_fci(ap.ans.data, m), "model"); REQUIRE(emv_select_application(&x.c, &l, 0) == 0, "setup selection failed");
	if (s.chance(1, 3)) push_fields(&x.c.icc, {{0x5A, {1, 2}}}); if (s.chance(1, 3)) push_fields(&x.c.terminal, {{0x9F37, {9, 9, 9, 9}}, {0x95, {1, 2, 3, 4, 5}}});
	unsigned times = (unsigned)s.range(1, 3); bool done = false;
	for (unsigned k = 0; k < times; ++k) {
		uint8_t mode = s.bbyte(); bool tr; c.gpo = gen_gpo(s, tr); x.rd.cmds.clear(); x.rd.c.gpo = c.gpo;
		if (s.want()) s.desc(fmt("aid %s pdol %s params ", hex(aid).c_str(), hex(pdol).c_str()) + card::show(params) + "config " + card::show(config) + fmt("gpo %04X%s %s", c.gpo.sw, c.gpo.fault ? "!" : "", hex(c.gpo.data).c_str()));
		std::vector<Field> oldicc = list_fields(x.c.icc);
		int r = emv_initiate_application_processing(&x.c, mode);
		if (done) { REQUIRE(r == EMV_ERROR_INVALID_PARAMETER, "initiating again without a new selection gives %d", r); REQUIRE(x.rd.cmds.empty(), "initiating again reaches the card"); s.label("repeated"); continue; }
		std::vector<Field> term = {{0x9F39, {mode}}, {0x9F06, aid}, {0x9B, {0, 0}}, {0x95, {0, 0, 0, 0, 0}}};
		Bytes data; bool ok = !has || dol_fill(find(m.f, 0x9F38)->value, {&params, &config, &term}, data); int w = 0; bool judged = true; std::vector<Field> resp;
		if (!ok || data.size() > 252) { w = EMV_OUTCOME_CARD_ERROR; REQUIRE(x.rd.cmds.empty(), "an unusable PDOL still reaches the card: %s", hex(x.rd.cmds.back()).c_str()); s.label("pdol refused"); }
		else {
			Bytes t = tlv(0x83, data); Bytes cmd = Bytes{0x80, 0xA8, 0, 0, (uint8_t)t.size()} + t + Bytes{0};
			REQUIRE(x.rd.cmds.size() == 1, "%zu commands sent", x.rd.cmds.size()); REQUIRE(x.rd.cmds[0] == cmd, "sent %s expected %s", hex(x.rd.cmds[0]).c_str(), hex(cmd).c_str());
			if (c.gpo.fault) w = EMV_OUTCOME_CARD_ERROR; else if (c.gpo.sw == 0x6985) w = EMV_OUTCOME_GPO_NOT_ACCEPTED; else if (c.gpo.sw != 0x9000) w = EMV_OUTCOME_CARD_ERROR; else { int g = ref_gpo(c.gpo.data, resp); w = g == 1 ? EMV_OUTCOME_CARD_ERROR : 0; if (g == 2) judged = false; }
			if (data.size() >= 128) s.label("long template");
		}
		if (!judged) { s.label("trailing data"); if (!r) done = true; continue; }
		REQUIRE(r == w, "initiation gives %d expected %d", r, w);
		if (!r) { s.nontrivial(); done = true; std::vector<Field> icc = m.f; icc.insert(icc.end(), resp.begin(), resp.end()); expect_fields(x.c.icc, icc, "card data"); expect_fields(x.c.terminal, term, "terminal data"); REQUIRE(x.c.selected_app && x.c.selected_app->aid && Bytes(x.c.selected_app->aid->value, x.c.selected_app->aid->value + x.c.selected_app->aid->length) == aid, "the selected application lost its identifier"); s.label("initiated"); }
		else expect_fields(x.c.icc, {}, "card data after a failed initiation");
		expect_fields(x.c.params, params, "transaction parameters"); expect_fields(x.c.config, config, "configuration");
	}
	emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C20, gpo_outputs, 60000, 2000000, "GET PROCESSING OPTIONS responses through the lower-level call with AIP and AFL outputs; non-trivial: fields returned") {
	Ctx x; bool tr; x.rd.c.gpo = gen_gpo(s, tr); gen_reader(s, x.rd); x.attach(); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; bool pre = s.chance(1, 2); if (pre) push_fields(&l, {{0x82, {7, 7}}, {0x94, {1}}});
	if (s.want()) s.desc(fmt("gpo %04X%s %s", x.rd.c.gpo.sw, x.rd.c.gpo.fault ? "!" : "", hex(x.rd.c.gpo.data).c_str()));
	const struct emv_tlv_t *aip = (const struct emv_tlv_t*)1, *afl = (const struct emv_tlv_t*)1; Bytes data = tlv(0x83, s.bytes(s.draw(10))); Exact e(data);
	int r = emv_tal_get_processing_options(&x.ttl, e.p, e.n, &l, &aip, &afl);
	std::vector<Field> resp, base; if (pre) base = {{0x82, {7, 7}}, {0x94, {1}}}; int g = x.rd.c.gpo.fault || x.rd.c.gpo.sw != 0x9000 ? 1 : ref_gpo(x.rd.c.gpo.data, resp);
	if (g == 1) { REQUIRE(r != 0, "a failed response is reported as success"); expect_fields(l, base, "list after failure"); REQUIRE(!aip && !afl, "AIP or AFL given although the response failed"); }
	else if (g == 0) {
		REQUIRE(r == 0, "result %d", r); std::vector<Field> w = base; w.insert(w.end(), resp.begin(), resp.end()); expect_fields(l, w, "list"); s.nontrivial();
		size_t i = 0; const struct emv_tlv_t *wa = nullptr, *wf = nullptr; for (const struct emv_tlv_t* t = l.front; t; t = t->next, ++i) if (i >= base.size()) { if (t->tag == 0x82 && !wa) wa = t; if (t->tag == 0x94 && !wf) wf = t; } REQUIRE(aip == wa && afl == wf, "AIP or AFL output does not point to the field in the list");
	}
	emv_tlv_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak");
}

// ------------------------------------------------------------------ C21
struct AflE { unsigned sfi, first, last, oda; };
// 0 fields taken, 1 card error, 2 skipped, 3 not judged
static int ref_record(unsigned sfi, const Bytes& r, std::vector<Field>& out) {
	if (r.empty()) return sfi <= 10 ? 1 : 2;
	if (r[0] != 0x70) return sfi <= 10 ? 1 : 2;
	if (sfi <= 10) { El e; int n = element(r.data(), r.size(), &e); if (n <= 0) return 1; if (e.tag != 0x70) return 1; Bytes canon; put_len(canon, e.len); if (e.indefinite || e.hdr != 1 + canon.size()) return 3; if ((size_t)n != r.size()) return 1; }
	std::vector<Field> f; if (!flatten(r, f)) return 1; out.insert(out.end(), f.begin(), f.end()); return 0;
}
VH_PROP(C21, read, 80000, 2500000, "AFLs of 0..6 entries over cards with valid, damaged, missing, foreign and repeated records in both file groups; non-trivial: at least one record was read") {
	Ctx x; Card& c = x.rd.c; std::vector<unsigned> pool = {0x5A, 0x5F24, 0x8C, 0x8D, 0x5A, 0x5F24, 0x8C, 0x8D, 0x57, 0x5F20, 0x8E, 0x9F07, 0x5F34, 0x5F28, 0x9F0D, 0x9F0E, 0x9F0F, 0x8F, 0x90, 0x92, 0x9F32, 0x9F46, 0x9F47, 0x9F48, 0x9F4A, 0x5F25, 0x5F30, 0x9F08, 0xDF01, 0xDF8101};
	pool.erase(pool.begin(), pool.begin() + 4); bool good = s.chance(2, 3); bool uj = false;
	unsigned n = (unsigned)s.range(good ? 1 : 0, s.chance(1, 8) ? 6 : 3); Bytes afl; std::vector<AflE> es; bool aflok = true; size_t bad_at = 999;
	for (unsigned i = 0; i < n; ++i) {
		AflE e; e.sfi = (unsigned)(s.chance(1, 3) ? s.range(11, 30) : s.range(1, 10)); e.first = (unsigned)(s.chance(1, 12) ? s.range(1, 255) : s.range(1, 5)); e.last = e.first + (unsigned)s.draw(s.chance(1, 20) ? 20 : 3); if (s.chance(1, 25)) { e.last = 255; e.first = 255 - (unsigned)s.draw(4); } if (e.last > 255) e.last = 255; e.oda = (unsigned)s.draw(e.last - e.first + 2);
		uint8_t b0 = e.sfi << 3, f = e.first, l = e.last, o = e.oda; bool ok = true; if (!good && s.chance(1, 10)) { switch (s.draw(5)) { case 0: b0 |= 1 + s.draw(7); break; case 1: b0 = s.chance(1, 2) ? 0 : 31 << 3; break; case 2: f = 0; break; case 3: if (f > 1) l = f - 1; else { f = 2; l = 1; } break; default: if (l - f + 2 > 255) { o = 255; if (l - f + 1 >= 255) { b0 = 0; } } else o = l - f + 2; break; } ok = false; }
		if (!ok && aflok) { aflok = false; bad_at = i; } es.push_back(e); add(afl, {b0, f, l, o});
	}
	bool sizebad = !good && s.chance(1, 12); if (sizebad) afl.resize(afl.size() + s.range(1, 3), 1);
	// mandatory fields first so that most cards can succeed
	std::vector<Bytes> mand = {tlv(0x5A, {1, 2, 3}), tlv(0x5F24, {0x29, 0x12, 0x31}), tlv(0x8C, {0x9A, 3}), tlv(0x8D, {0x8A, 2})}; if (!good && s.chance(1, 4)) mand.erase(mand.begin() + s.draw(4));
	for (size_t i = 0; i < es.size(); ++i) for (unsigned r = es[i].first; r <= es[i].last; ++r) {
		Ans a; a.data = gen_record(s, es[i].sfi, pool, uj);
		if (good && (a.data.empty() || a.data[0] != 0x70 || !([&] { std::vector<Field> q; return ref_record(es[i].sfi, a.data, q) == 0; }()))) if (!(es[i].sfi > 10 && !a.data.empty() && a.data[0] != 0x70)) a.data = {0x70, 0};
		El el; if (!mand.empty() && a.data.size() >= 2 && a.data[0] == 0x70 && element(a.data.data(), a.data.size(), &el) == (int)a.data.size() && a.data.size() < 200 && s.chance(3, 4)) { Bytes v(a.data.begin() + el.hdr, a.data.begin() + el.hdr + el.len); unsigned k = (unsigned)s.range(1, mand.size()); for (unsigned j = 0; j < k; ++j) { add(v, mand.back()); mand.pop_back(); } a.data = tlv(0x70, v); }
		if (!good) { if (s.chance(1, 20)) a.sw = odd_sw(s); if (s.chance(1, 60)) a.fault = true; }
		if (!c.recs.count({es[i].sfi, r})) c.recs[{es[i].sfi, r}] = a;
	}
	if (good && !mand.empty() && !es.empty()) { auto& a = c.recs[{es.back().sfi, es.back().last}]; El el; if (a.data.size() >= 2 && a.data[0] == 0x70 && element(a.data.data(), a.data.size(), &el) > 0 && a.data.size() < 200) { Bytes v(a.data.begin() + el.hdr, a.data.begin() + el.hdr + el.len); for (auto& f : mand) add(v, f); a.data = tlv(0x70, v); } }
	std::vector<Field> icc = {{0x84, {1, 2, 3, 4, 5}}, {0x82, {0, 0}}}; bool noafl = s.chance(1, 40); if (!noafl) icc.push_back({0x94, afl}); if (s.chance(1, 20)) icc.push_back({0x94, {8, 9, 9, 0}}); else if (s.chance(1, 4)) icc.push_back({0x9F36, {0, 1}}); if (s.chance(1, 6)) icc.push_back({s.pickl<unsigned>({0x5A, 0x5F24, 0x8C, 0x8D, 0x5F34}), s.bytes(s.draw(8))}); // what was read before does not count
	push_fields(&x.c.icc, icc); gen_reader(s, x.rd); x.attach(); x.rd.left = 20000;
	if (s.want()) s.desc("AFL " + hex(afl) + " " + card::show(c));
	// expectation
	std::vector<Bytes> cmds; std::vector<Field> got; int w = 0; bool judged = true; const Field* af = find(icc, 0x94); bool skipped = false;
	if (!af) w = 1;
	else if (af->value.empty()) w = 1;
	else if (af->value.size() % 4 || af->value.size() > 252) w = 1;
	else for (size_t i = 0; i + 3 < af->value.size() && !w && judged; i += 4) {
		const uint8_t* q = &af->value[i]; unsigned sfi = q[0] >> 3; if ((q[0] & 7) || sfi < 1 || sfi > 30 || !q[1] || q[2] < q[1] || q[3] > q[2] - q[1] + 1) { w = 1; break; }
		for (unsigned r = q[1]; r <= q[2] && !w && judged; ++r) {
			cmds.push_back({0, 0xB2, (uint8_t)r, (uint8_t)(sfi << 3 | 4), 0}); Ans a = c.record(sfi, r); if (a.fault || a.sw != 0x9000) { w = 1; break; }
			int k = ref_record(sfi, a.data, got); if (k == 1) w = 1; else if (k == 3) judged = false; else if (k == 2) skipped = true;
		}
	}
	if (!w && judged) { std::set<unsigned> seen; for (auto& f : got) if (!seen.insert(f.tag).second) w = 1; for (unsigned t : {0x5A, 0x5F24, 0x8C, 0x8D}) if (!seen.count(t)) w = 1; }
	int r = emv_read_application_data(&x.c);
	REQUIRE(!x.rd.broken, "reading does not end after %u exchanges", x.rd.exchanges);
	if (judged) {
		REQUIRE(r == (w ? EMV_OUTCOME_CARD_ERROR : 0), "reading application data gives %d expected %d", r, w ? EMV_OUTCOME_CARD_ERROR : 0);
		if (!r) REQUIRE(x.rd.cmds == cmds, "%zu records read, %zu expected", x.rd.cmds.size(), cmds.size());
		if (!x.rd.cmds.empty()) s.nontrivial(); s.label(w ? "card error" : skipped ? "read with skipped record" : "read");
	}
	for (size_t i = 0; i < x.rd.cmds.size() && (judged || i < cmds.size()); ++i) REQUIRE(i < cmds.size() && x.rd.cmds[i] == cmds[i], "command %zu is %s expected %s", i, hex(x.rd.cmds[i]).c_str(), i < cmds.size() ? hex(cmds[i]).c_str() : "none");
	if (r) expect_fields(x.c.icc, icc, "card data after a failed read"); else if (judged) { std::vector<Field> a = icc; a.insert(a.end(), got.begin(), got.end()); expect_fields(x.c.icc, a, "card data"); }
	emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}

// ------------------------------------------------------------------ C36
// the directory: result code, and the supported entries in order
static int ref_directory(Card c, const std::vector<Aid>& sup, std::vector<MApp>& out, bool& either) {
	out.clear(); either = false; static const Bytes PSE = {'1', 'P', 'A', 'Y', '.', 'S', 'Y', 'S', '.', 'D', 'D', 'F', '0', '1'};
	Ans p = c.select(PSE, false); if (p.fault) return EMV_TAL_ERROR_TTL_FAILURE;
	switch (p.sw) { case 0x6A81: return EMV_TAL_ERROR_CARD_BLOCKED; case 0x6A82: return EMV_TAL_RESULT_PSE_NOT_FOUND; case 0x6283: return EMV_TAL_RESULT_PSE_BLOCKED; case 0x9000: break; default: return EMV_TAL_RESULT_PSE_SELECT_FAILED; }
	std::vector<Field> pf; either = !flatten(p.data, pf); const Field* sfi = find(pf, 0x88); if (!sfi) return EMV_TAL_RESULT_PSE_SFI_NOT_FOUND; either = false;
	if (sfi->value.size() != 1 || sfi->value[0] < 1 || sfi->value[0] > 30) return EMV_TAL_RESULT_PSE_SFI_INVALID;
	for (unsigned rec = 1; rec <= 255; ++rec) {
		Ans a = c.record(sfi->value[0], rec); if (a.fault) { out.clear(); return EMV_TAL_ERROR_TTL_FAILURE; } if (a.sw == 0x6A83) break; if (a.sw != 0x9000) continue;
		El t; if (element(a.data.data(), a.data.size(), &t) <= 0 || t.tag != 0x70) continue;
		size_t o = 0; const uint8_t* q = a.data.data() + t.hdr; while (o < t.len) { El e; int r = element(q + o, t.len - o, &e); if (r <= 0) break; MApp m; if (e.tag == 0x61 && app_from_pse(&pf, q + o + e.hdr, e.len, m) && supported(m.aid, sup)) out.push_back(m); o += r; }
	}
	return 0;
}
static bool unsure(const std::vector<MApp>& v) { for (auto& m : v) if (m.unsure) return true; return false; }
VH_PROP(C36, directory, 50000, 2000000, "reading the payment system directory of any card with an empty list or one that holds an application; non-trivial: the directory was read") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); gen_card(s, x.rd.c, sup); if (s.chance(1, 4)) gen_good_card(s, x.rd.c, sup); gen_reader(s, x.rd); x.attach(); push_aids(&x.c.supported_aids, sup); x.rd.left = 5000;
	if (s.want()) { std::string d; for (auto& a : sup) d += hex(a.v) + (a.flags ? "* " : " "); s.desc("supported " + d + card::show(x.rd.c)); }
	std::vector<MApp> want; bool either; int w = ref_directory(x.rd.c, sup, want, either); bool odd = unsure(want);
	struct emv_app_list_t l = EMV_APP_LIST_INIT; bool pre = s.chance(1, 4); MApp old; if (pre) { Bytes b = tlv(0x4F, {1, 2, 3, 4, 5}) + tlv(0x50, {'O'}); app_from_pse(nullptr, b.data(), b.size(), old); emv_app_list_push(&l, emv_app_create_from_pse(nullptr, b.data(), b.size())); }
	int r = emv_tal_read_pse(&x.ttl, &x.c.supported_aids, &l); REQUIRE(!x.rd.broken, "reading the directory does not end");
	REQUIRE(r == w || (either && r == EMV_TAL_RESULT_PSE_FCI_PARSE_FAILED), "reading the directory gives %d expected %d", r, w);
	if (!r && !odd) { if (pre) want.insert(want.begin(), old); check_list(l, want, "directory"); s.nontrivial(); } else if (r && !pre) check_list(l, {}, "after a failure");
	s.label(fmt("result %d", r).c_str()); emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C36, discovery, 50000, 2000000, "discovering applications by selection, with an empty list or one that holds an application; non-trivial: one was found") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); gen_card(s, x.rd.c, sup); if (s.chance(1, 4)) gen_good_card(s, x.rd.c, sup); gen_reader(s, x.rd); x.attach(); push_aids(&x.c.supported_aids, sup); x.rd.left = 5000;
	if (s.want()) { std::string d; for (auto& a : sup) d += hex(a.v) + (a.flags ? "* " : " "); s.desc("supported " + d + card::show(x.rd.c)); }
	std::vector<MApp> want; int w = 0; Card c = x.rd.c;
	for (auto& a : sup) { for (bool next = false; !w; next = true) {
		Ans r = c.select(a.v, next); if (r.fault) { w = EMV_TAL_ERROR_TTL_FAILURE; break; } if (!next && r.sw == 0x6A81) { w = EMV_TAL_ERROR_CARD_BLOCKED; break; } if (r.sw != 0x9000 && r.sw != 0x6283) break;
		MApp m; if (!app_from_fci(r.data, m)) break; bool exact = m.aid.size() == a.v.size(); if (r.sw == 0x9000 && (exact || a.flags == 1)) want.push_back(m); if (exact || a.flags != 1) break;
	} if (w) break; }
	struct emv_app_list_t l = EMV_APP_LIST_INIT; bool pre = s.chance(1, 4); MApp old; if (pre) { Bytes b = tlv(0x4F, {1, 2, 3, 4, 5}) + tlv(0x50, {'O'}); app_from_pse(nullptr, b.data(), b.size(), old); emv_app_list_push(&l, emv_app_create_from_pse(nullptr, b.data(), b.size())); }
	bool odd = unsure(want); int r = emv_tal_find_supported_apps(&x.ttl, &x.c.supported_aids, &l); REQUIRE(!x.rd.broken, "discovery does not end");
	if (!odd) { REQUIRE(r == w, "discovery gives %d expected %d", r, w); if (!r) { if (pre) want.insert(want.begin(), old); check_list(l, want, "discovery"); if (want.size() > pre) s.nontrivial(); } }
	s.label(fmt("result %d", r).c_str()); emv_app_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C36, select, 50000, 2000000, "selecting any identifier of 0 to 20 octets on any card; non-trivial: the card answered") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); gen_card(s, x.rd.c, sup); if (s.chance(1, 3)) gen_good_card(s, x.rd.c, sup); for (auto& a : x.rd.c.apps) if (s.chance(1, 4)) a.ans.sw = odd_sw(s); gen_reader(s, x.rd); x.attach();
	Bytes aid = s.chance(1, 10) ? s.bbytes(s.draw(21)) : !x.rd.c.apps.empty() && s.chance(3, 4) ? s.pick(x.rd.c.apps).name : card_aid(s, sup);
	if (s.want()) s.desc("select " + hex(aid) + " " + card::show(x.rd.c));
	int w; MApp m; bool sent = aid.size() >= 5 && aid.size() <= 16;
	if (!sent) w = EMV_TAL_ERROR_INVALID_PARAMETER; else { Card c = x.rd.c; Ans a = c.select(aid, false); w = a.fault ? EMV_TAL_ERROR_TTL_FAILURE : a.sw == 0x6A81 ? EMV_TAL_ERROR_CARD_BLOCKED : a.sw == 0x6A82 ? EMV_TAL_RESULT_APP_NOT_FOUND : a.sw == 0x6283 ? EMV_TAL_RESULT_APP_BLOCKED : a.sw != 0x9000 ? EMV_TAL_RESULT_APP_SELECTION_FAILED : !app_from_fci(a.data, m) ? EMV_TAL_RESULT_APP_FCI_PARSE_FAILED : m.aid != aid ? EMV_TAL_RESULT_APP_SELECTION_FAILED : 0; }
	Exact e(aid); struct emv_app_t* app = nullptr; int r = emv_tal_select_app(&x.ttl, e.p, e.n, &app);
	if (!sent && r == EMV_TAL_ERROR_TTL_FAILURE) fail("identifier of %zu octets is not refused as a parameter", aid.size());
	REQUIRE(r == w, "selecting %s gives %d expected %d", hex(aid).c_str(), r, w); REQUIRE(!sent ? x.rd.cmds.empty() : x.rd.cmds.size() == 1, "%zu commands", x.rd.cmds.size());
	if (!r) check_app(app, m, "selected application"); else REQUIRE(!app, "an application is returned although the result is %d", r);
	if (sent) s.nontrivial(); s.label(fmt("result %d", r).c_str()); if (app) emv_app_free(app); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C36, processing_options, 40000, 2000000, "GET PROCESSING OPTIONS with data of 0 to 258 octets, with and without outputs, and every kind of response; non-trivial: the card answered") {
	Ctx x; bool tr; x.rd.c.gpo = gen_gpo(s, tr); gen_reader(s, x.rd); x.attach(); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; std::vector<Field> base; if (s.chance(1, 2)) base = {{0x82, {7, 7}}, {0x94, {1}}}; push_fields(&l, base);
	bool none = s.chance(1, 5); Bytes data; if (!none) { size_t n = s.chance(1, 3) ? s.pickl<size_t>({0, 125, 126, 127, 128, 129, 249, 250, 251, 252, 253, 254, 255}) : s.draw(20); data = tlv(0x83, s.bytes(n)); if (s.chance(1, 12)) data.resize(s.draw(3)); if (s.chance(1, 12) && !data.empty()) data[0] = s.bbyte(); }
	if (s.want()) s.desc((none ? "no data" : "data " + hex(data)) + fmt(" gpo %04X%s %s", x.rd.c.gpo.sw, x.rd.c.gpo.fault ? "!" : "", hex(x.rd.c.gpo.data).c_str()));
	const struct emv_tlv_t *aip = (const struct emv_tlv_t*)1, *afl = (const struct emv_tlv_t*)1; bool wa = s.chance(3, 4), wf = s.chance(3, 4); Exact e(data);
	int r = emv_tal_get_processing_options(&x.ttl, none ? nullptr : e.p, none ? 0 : e.n, &l, wa ? &aip : nullptr, wf ? &afl : nullptr);
	std::vector<Field> resp; bool ok = none || (data.size() >= 2 && data.size() <= 255 && data[0] == 0x83);
	if (!ok) { REQUIRE(r == EMV_TAL_ERROR_INVALID_PARAMETER || (r == EMV_TAL_ERROR_TTL_FAILURE && data.size() >= 2 && data.size() <= 255), "unusable command data gives %d", r); REQUIRE(x.rd.cmds.empty(), "unusable command data is sent"); s.label("refused"); }
	else {
		s.nontrivial(); const Ans& a = x.rd.c.gpo; int w = 0, w2 = 0; int g = 0;
		if (a.fault) w = EMV_TAL_ERROR_TTL_FAILURE; else if (a.sw == 0x6985) w = EMV_TAL_RESULT_GPO_CONDITIONS_NOT_SATISFIED; else if (a.sw != 0x9000) w = EMV_TAL_ERROR_GPO_FAILED;
		else { g = ref_gpo(a.data, resp); if (g == 1) { El q; int n = element(a.data.data(), a.data.size(), &q); Bytes v; if (n > 0) v = Bytes(a.data.begin() + q.hdr, a.data.begin() + q.hdr + q.len); std::vector<Field> f; bool well = n > 0 && (q.tag == 0x80 ? v.size() >= 6 && (v.size() - 2) % 4 == 0 : q.tag == 0x77 ? flatten(v, f) : false); w = well ? EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND : EMV_TAL_ERROR_GPO_PARSE_FAILED; w2 = n > 0 && q.tag != 0x80 && q.tag != 0x77 ? EMV_TAL_ERROR_GPO_FIELD_NOT_FOUND : w; } }
		if (g != 2) REQUIRE(r == w || (w && r == w2), "result %d expected %d", r, w);
		s.label(fmt("result %d", r).c_str());
	}
	std::vector<Field> want = base; if (!r) { if (resp.empty()) ref_gpo(x.rd.c.gpo.data, resp); want.insert(want.end(), resp.begin(), resp.end()); } expect_fields(l, want, "list");
	if (r) { if (ok || r != EMV_TAL_ERROR_INVALID_PARAMETER) REQUIRE((!wa || !aip) && (!wf || !afl), "AIP or AFL given although the result is %d", r); }
	else { const struct emv_tlv_t *pa = nullptr, *pf = nullptr; size_t i = 0; for (const struct emv_tlv_t* t = l.front; t; t = t->next, ++i) if (i >= base.size()) { if (t->tag == 0x82 && !pa) pa = t; if (t->tag == 0x94 && !pf) pf = t; } REQUIRE((!wa || aip == pa) && (!wf || afl == pf), "AIP or AFL output does not point to its field in the list"); }
	emv_tlv_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}
VH_PROP(C36, records, 50000, 2000000, "AFLs of 0..6 entries, valid and damaged, over any records, with an empty list or one that holds fields; non-trivial: a record was read") {
	Ctx x; Card& c = x.rd.c; std::vector<unsigned> pool; for (unsigned i = 0; i < 40; ++i) pool.push_back(0x9F50 + i % 30); bool uj = false, good = s.chance(1, 2); Bytes afl; unsigned n = (unsigned)s.range(good ? 1 : 0, s.chance(1, 8) ? 6 : 3);
	for (unsigned i = 0; i < n; ++i) {
		unsigned sfi = (unsigned)(s.chance(1, 3) ? s.range(11, 30) : s.range(1, 10)), f = (unsigned)(s.chance(1, 15) ? s.range(252, 255) : s.range(1, 5)), l = std::min(255u, f + (unsigned)s.draw(4)), o = (unsigned)s.draw(l - f + 2); uint8_t b0 = (uint8_t)(sfi << 3);
		if (!good && s.chance(1, 8)) switch (s.draw(5)) { case 0: b0 |= 1 + s.draw(7); break; case 1: b0 = s.chance(1, 2) ? 0 : 31 << 3; break; case 2: f = 0; break; case 3: l = f - 1; break; default: o = std::min(255u, l - f + 2); break; }
		add(afl, {b0, (uint8_t)f, (uint8_t)l, (uint8_t)o});
		for (unsigned r = f; r <= l; ++r) { Ans a; a.data = gen_record(s, sfi, pool, uj); std::vector<Field> q; if (s.chance(1, 30)) a.data.clear(); if (good && ref_record(sfi, a.data, q) == 1) a.data = {0x70, 0}; if (!good) { if (s.chance(1, 20)) a.sw = odd_sw(s); if (s.chance(1, 40)) a.fault = true; } if (!c.recs.count({sfi, r})) c.recs[{sfi, r}] = a; }
	}
	if (!good && s.chance(1, 10)) afl.resize(afl.size() + s.range(1, 3), 1); if (s.chance(1, 60)) { afl = {}; for (int i = 0; i < 64; ++i) add(afl, {8, 1, 1, 0}); }
	std::vector<Field> base; if (s.chance(1, 3)) base = {{0x9F50, {1}}, {0x5A, {}}}; struct emv_tlv_list_t l = EMV_TLV_LIST_INIT; push_fields(&l, base); gen_reader(s, x.rd); x.attach(); x.rd.left = 20000;
	if (s.want()) s.desc("AFL " + hex(afl) + " " + card::show(c));
	int w = 0, w2 = 0; bool judged = true, oda = false, foreign = false; std::vector<Field> got;
	if (afl.empty()) w = EMV_TAL_ERROR_INVALID_PARAMETER; else if (afl.size() % 4 || afl.size() > 252) w = EMV_TAL_ERROR_AFL_INVALID;
	else for (size_t i = 0; i + 3 < afl.size() && !w && judged; i += 4) {
		const uint8_t* q = &afl[i]; unsigned sfi = q[0] >> 3; if ((q[0] & 7) || sfi < 1 || sfi > 30 || !q[1] || q[2] < q[1] || q[3] > q[2] - q[1] + 1) { w = EMV_TAL_ERROR_AFL_INVALID; break; }
		for (unsigned r = q[1]; r <= q[2] && !w && judged; ++r) {
			Ans a = c.record(sfi, r); if (a.fault) { w = EMV_TAL_ERROR_TTL_FAILURE; break; } if (a.sw != 0x9000) { w = EMV_TAL_ERROR_READ_RECORD_FAILED; break; }
			std::vector<Field> f; int k = a.data.empty() ? (sfi <= 10 ? 1 : 2) : ref_record(sfi, a.data, f);
			if (k == 1) { El e; bool whole = !a.data.empty() && a.data[0] == 0x70 && (sfi > 10 || element(a.data.data(), a.data.size(), &e) == (int)a.data.size()); w = whole ? EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED : EMV_TAL_ERROR_READ_RECORD_INVALID; w2 = w; if (!whole && !a.data.empty() && a.data[0] == 0x70) w2 = EMV_TAL_ERROR_READ_RECORD_PARSE_FAILED; }
			else if (k == 3) judged = false; else if (k == 2) { if (r - q[1] < q[3]) oda = true; else foreign = true; } else got.insert(got.end(), f.begin(), f.end());
		}
	}
	Exact e(afl); int r = emv_tal_read_afl_records(&x.ttl, e.p, e.n, &l); REQUIRE(!x.rd.broken, "reading does not end");
	if (judged) {
		if (w) REQUIRE(r == w || (w2 && r == w2), "reading records gives %d expected %d", r, w);
		else if (oda) REQUIRE(r == EMV_TAL_RESULT_ODA_RECORD_INVALID, "a record for offline data authentication that is not a record template gives %d", r);
		else REQUIRE(r == 0 || (foreign && r == EMV_TAL_RESULT_ODA_RECORD_INVALID), "reading records gives %d", r);
		auto have = list_fields(l); std::vector<Field> want = base; want.insert(want.end(), got.begin(), got.end());
		if (!w) { if (!(have == want)) fails("list is " + card::show(have) + "expected " + card::show(want)); } else REQUIRE(have.size() >= base.size() && std::equal(base.begin(), base.end(), have.begin()), "the fields already in the list changed");
		if (!x.rd.cmds.empty()) s.nontrivial(); s.label(fmt("result %d", r).c_str());
	}
	emv_tlv_list_clear(&l); emv_ctx_clear(&x.c); REQUIRE(alloc_live() == 0, "leak of %zu blocks", alloc_live());
}

// ------------------------------------------------------------------ sessions
static std::string show_app(const struct emv_app_t* a) { return a ? fmt("{%s '%s' %u%s ", a->aid ? hex(a->aid->value, a->aid->length).c_str() : "-", a->display_name, a->priority, a->confirmation_required ? "!" : "") + card::show(list_fields(a->tlv_list)) + "}" : "{none}"; }
static std::string show_list(const struct emv_app_list_t& l) { std::string o; for (const struct emv_app_t* a = l.front; a; a = a->next) o += show_app(a); return o; }
static std::string show_ctx(const struct emv_ctx_t& c) { return "params " + card::show(list_fields(c.params)) + "icc " + card::show(list_fields(c.icc)) + "terminal " + card::show(list_fields(c.terminal)) + "config " + card::show(list_fields(c.config)) + "aids " + card::show(list_fields(c.supported_aids)) + "selected " + show_app(c.selected_app); }
static std::string show_cmds(const std::vector<Bytes>& v) { std::string o; for (auto& c : v) o += hex(c) + " "; return o; }
// one transaction from a clean context state; returns everything observable
static std::string transaction(Ctx& x, const std::vector<Field>& params, uint8_t mode) {
	std::string o; struct emv_app_list_t l = EMV_APP_LIST_INIT; push_fields(&x.c.params, params); x.rd.cmds.clear();
	int r = emv_build_candidate_list(&x.c, &l); o += fmt("build %d ", r); if (r == 0) o += show_list(l) + fmt(" required %d", emv_app_list_selection_is_required(&l));
	if (r == 0) for (;;) {
		r = emv_select_application(&x.c, &l, 0); o += fmt(" select %d ", r) + show_ctx(x.c); if (r == EMV_OUTCOME_TRY_AGAIN) continue; if (r) break;
		r = emv_initiate_application_processing(&x.c, mode); o += fmt(" initiate %d ", r) + show_ctx(x.c); if (r == EMV_OUTCOME_GPO_NOT_ACCEPTED && !emv_app_list_is_empty(&l)) continue; if (r) break;
		r = emv_read_application_data(&x.c); o += fmt(" read %d ", r) + show_ctx(x.c); break;
	}
	emv_app_list_clear(&l); o += " commands " + show_cmds(x.rd.cmds); return o;
}

// ------------------------------------------------------------------ C22
VH_PROP(C22, session, 60000, 3000000, "histories of up to 25 operations over one context (build, select, initiate, read, reset, configure, change card) with well-behaved, damaged and hostile cards, then a reset and a reference transaction compared with a fresh context; non-trivial: at least one application was selected or data read before the reset") {
	Ctx x; std::vector<Aid> sup = gen_supported(s); push_aids(&x.c.supported_aids, sup); std::vector<Field> config = gen_source(s); push_fields(&x.c.config, config);
	struct emv_app_list_t l = EMV_APP_LIST_INIT; unsigned ops = (unsigned)s.len(1, 25); std::string log; gen_card(s, x.rd.c, sup); gen_reader(s, x.rd); x.attach();
	auto newcard = [&]() {
		Card c; x.rd.noise = 0; bool tr; switch (s.draw(4)) { case 0: gen_good_card(s, c, sup); break; case 1: gen_good_card(s, c, sup); for (auto& a : c.apps) if (s.chance(1, 3)) corrupt(s, a.ans.data); for (auto& r : c.recs) if (s.chance(1, 3)) corrupt(s, r.second.data); if (s.chance(1, 2)) corrupt(s, c.gpo.data); if (s.chance(1, 3)) c.gpo = gen_gpo(s, tr); break; case 2: gen_good_card(s, c, sup); x.rd.noise = (unsigned)s.range(1, 12); break; default: gen_card(s, c, sup); c.gpo = gen_gpo(s, tr); break; }
		gen_reader(s, x.rd); x.rd.c = c; x.rd.have = false; x.rd.pend.clear(); x.rd.got = 0; x.attach(); log += " card";
	};
	newcard();
	for (unsigned o = 0; o < ops; ++o) {
		x.rd.left = 1500; x.rd.cmds.clear(); int r = 0; auto bad = [&](const char* what) { fails(fmt("%s returned the undocumented result %d after", what, r) + log); };
		switch (s.weighted({5, 6, 6, 6, 2, 2, 3, 1, 1})) {
			case 0: if (s.chance(3, 4)) emv_app_list_clear(&l); r = emv_build_candidate_list(&x.c, &l); log += fmt(" build=%d", r); if (r < 0 || r > 3) bad("candidate building"); if (!r && emv_app_list_is_empty(&l)) fail("an empty candidate list is reported as success"); break;
			case 1: { unsigned i = (unsigned)s.draw(4); size_t n = 0; for (auto* a = l.front; a; a = a->next) ++n; r = emv_select_application(&x.c, &l, i); log += fmt(" select[%u]=%d", i, r); if (i >= n ? r != EMV_ERROR_INVALID_PARAMETER : r < 0 || r > 4) bad("selection"); if ((r == 0) != (x.c.selected_app != nullptr)) fail("selection result %d but selected application %p", r, (void*)x.c.selected_app); if (!r) s.nontrivial(); break; }
			case 2: { bool can = x.c.selected_app && !emv_tlv_list_is_empty(&x.c.selected_app->tlv_list); r = emv_initiate_application_processing(&x.c, s.byte()); log += fmt(" initiate=%d", r); if (!can ? r != EMV_ERROR_INVALID_PARAMETER : r != 0 && r != 1 && r != 5) bad("initiation"); break; }
			case 3: r = emv_read_application_data(&x.c); log += fmt(" read=%d", r); if (r != 0 && r != 1) bad("reading"); if (!r) s.label("read"); break;
			case 4: { std::string cfg = card::show(list_fields(x.c.config)), aids = card::show(list_fields(x.c.supported_aids)); REQUIRE(emv_ctx_reset(&x.c) == 0, "reset failed"); log += " reset"; REQUIRE(x.c.ttl == &x.ttl && !x.c.selected_app && emv_tlv_list_is_empty(&x.c.params) && emv_tlv_list_is_empty(&x.c.icc) && emv_tlv_list_is_empty(&x.c.terminal), "reset leaves transaction data or loses the reader"); REQUIRE(cfg == card::show(list_fields(x.c.config)) && aids == card::show(list_fields(x.c.supported_aids)), "reset changed the configuration"); break; }
			case 5: { std::vector<Field> p = gen_source(s); push_fields(&x.c.params, p); log += " params"; break; }
			case 6: newcard(); break;
			case 7: emv_app_list_clear(&l); log += " clear-list"; break;
			default: { Bytes a = s.bbytes(s.len(1, 33)); if (s.chance(1, 2)) a[0] = 0x3B; r = emv_atr_parse(a.data(), a.size()); log += fmt(" atr=%d", r); if (r != 0 && r != 1) bad("ATR check"); break; }
		}
		if (s.want()) { s.description.clear(); s.desc("history" + log + " last card " + card::show(x.rd.c)); }
		for (auto& f : list_fields(x.c.icc)) (void)f; (void)show_ctx(x.c); (void)show_list(l);
	}
	emv_app_list_clear(&l); emv_ctx_reset(&x.c);
	// a transaction after the reset equals one on a fresh context
	Card good; gen_good_card(s, good, sup); std::vector<Field> params = gen_source(s); uint8_t mode = s.byte(); uint32_t seed = (uint32_t)s.draw(1000); bool tp = s.chance(1, 2);
	auto prep = [&](Ctx& y) { y.rd = Reader(); y.rd.c = good; y.rd.tpdu = tp; y.rd.rng = seed; y.attach(); };
	prep(x); std::string a = transaction(x, params, mode); Ctx y; push_aids(&y.c.supported_aids, sup); push_fields(&y.c.config, config); prep(y); std::string b = transaction(y, params, mode);
	if (a != b) fails("after" + log + " and a reset the transaction differs: " + a + " fresh: " + b);
	REQUIRE(emv_ctx_clear(&x.c) == 0 && emv_ctx_clear(&y.c) == 0, "clear failed"); REQUIRE(!x.c.ttl && !x.c.selected_app && emv_tlv_list_is_empty(&x.c.config) && emv_tlv_list_is_empty(&x.c.supported_aids) && emv_tlv_list_is_empty(&x.c.icc), "clear leaves data in the context");
	REQUIRE(alloc_live() == 0, "%zu blocks remain allocated after%s", alloc_live(), log.c_str());
}
VH_PROP(C22, parameters, 2000, 20000, "missing parameters of the session functions; non-trivial: always") {
	Ctx x; gen_good_card(s, x.rd.c, {}); x.attach(); struct emv_app_list_t l = EMV_APP_LIST_INIT; s.nontrivial(); struct emv_ctx_t t; unsigned k = (unsigned)s.draw(10); int r = 0;
	switch (k) { case 0: r = emv_ctx_init(nullptr, &x.ttl); break; case 1: r = emv_ctx_init(&t, nullptr); break; case 2: r = emv_ctx_reset(nullptr); break; case 3: r = emv_ctx_clear(nullptr); break; case 4: r = emv_build_candidate_list(nullptr, &l); break; case 5: r = emv_build_candidate_list(&x.c, nullptr); break; case 6: r = emv_select_application(nullptr, &l, 0); break; case 7: r = emv_select_application(&x.c, nullptr, 0); break; case 8: r = emv_initiate_application_processing(s.chance(1, 2) ? nullptr : &x.c, 0); break; default: r = emv_read_application_data(nullptr); break; }
	if (s.want()) s.desc(fmt("call %u", k)); REQUIRE(r == EMV_ERROR_INVALID_PARAMETER, "call %u with a missing parameter gives %d", k, r); REQUIRE(x.rd.cmds.empty(), "call %u reaches the card", k); emv_ctx_clear(&x.c);
}

// ------------------------------------------------------------------ C23
// runs op for every allocation index it uses, once each, single or sticky
VH_PROP(C23, parse, 60000, 1500000, "TLV data parsed with the n-th allocation failing (one or all later ones); non-trivial: an allocation failed") {
	Bytes b; gen_data(s, b, 0, 300); if (s.chance(1, 5)) corrupt(s, b); if (b.empty()) b = tlv(0x5A, {1}); std::vector<Field> w; bool ok = flatten(b, w); Exact e(b); struct emv_tlv_list_t l = EMV_TLV_LIST_INIT;
	uint64_t c0 = alloc_count(); int base = emv_tlv_parse(e.p, e.n, &l); uint64_t n = alloc_count() - c0; emv_tlv_list_clear(&l); REQUIRE((base == 0) == ok, "baseline"); if (!n) return;
	uint64_t k = s.range(1, n); bool sticky = s.chance(1, 2); if (s.want()) s.desc(fmt("data %s allocation %llu of %llu%s", hex(b).c_str(), (unsigned long long)k, (unsigned long long)n, sticky ? " and later" : ""));
	std::vector<Field> pre; if (s.chance(1, 3)) { pre = {{0x9A, {1, 2, 3}}}; push_fields(&l, pre); }
	alloc_fail_at(k, sticky); int r = emv_tlv_parse(e.p, e.n, &l); bool hit = alloc_failed(); alloc_fail_at(0, false); if (hit) s.nontrivial();
	auto f = list_fields(l); if (r == 0) { std::vector<Field> all = pre; all.insert(all.end(), w.begin(), w.end()); if (!ok || !(f == all)) fails(fmt("allocation %llu failed but parsing reports success with ", (unsigned long long)k) + card::show(f)); }
	else { REQUIRE(f.size() >= pre.size() && f.size() <= pre.size() + w.size(), "list has %zu fields", f.size()); for (size_t i = 0; i < f.size(); ++i) REQUIRE(f[i] == (i < pre.size() ? pre[i] : w[i - pre.size()]), "field %zu is wrong after a failed parse", i); }
	emv_tlv_list_clear(&l); REQUIRE(alloc_live() == 0, "allocation %llu failed: %zu blocks leak", (unsigned long long)k, alloc_live());
}
VH_PROP(C23, lists, 60000, 1500000, "list operations with one allocation failing somewhere; non-trivial: an allocation failed") {
	struct emv_tlv_list_t l[2] = {EMV_TLV_LIST_INIT, EMV_TLV_LIST_INIT}; std::vector<Field> m[2]; unsigned ops = (unsigned)s.range(1, 12); alloc_fail_at(s.range(1, 14), s.chance(1, 3)); std::string log;
	for (unsigned o = 0; o < ops; ++o) { int k = (int)s.draw(2); switch (s.weighted({6, 1, 1})) {
		case 0: { Field f{s.pickl<unsigned>({0x5A, 0x9F02, 0xDF8101}), s.bytes(s.draw(8))}; Exact e(f.value); int r = emv_tlv_list_push(&l[k], f.tag, (unsigned)f.value.size(), e.p, 0); log += fmt(" push=%d", r); if (r == 0) m[k].push_back(f); else REQUIRE(alloc_failed(), "push failed without reason"); break; }
		case 1: { log += " append"; if (emv_tlv_list_append(&l[k], &l[1 - k]) == 0) { m[k].insert(m[k].end(), m[1 - k].begin(), m[1 - k].end()); m[1 - k].clear(); } break; }
		default: { log += " pop"; struct emv_tlv_t* t = emv_tlv_list_pop(&l[k]); if (t) { REQUIRE(!m[k].empty(), "pop"); m[k].erase(m[k].begin()); emv_tlv_free(t); } break; } }
		for (int q = 0; q < 2; ++q) expect_fields(l[q], m[q], ("list after" + log).c_str()); }
	if (alloc_failed()) s.nontrivial(); alloc_fail_at(0, false); if (s.want()) s.desc("history" + log); for (auto& q : l) emv_tlv_list_clear(&q); REQUIRE(alloc_live() == 0, "leak after%s", log.c_str());
}
VH_PROP(C23, application, 60000, 1500000, "applications created with the n-th allocation failing; non-trivial: an allocation failed") {
	bool fci = s.chance(1, 2); Bytes b = fci ? gen_fci(s, gen_aid(s)) : gen_pse_entry(s, gen_aid(s)); Exact e(b); MApp m; bool ok = fci ? app_from_fci(b, m) : app_from_pse(nullptr, b.data(), b.size(), m);
	uint64_t k = s.range(1, 16); alloc_fail_at(k, s.chance(1, 2)); struct emv_app_t* a = fci ? emv_app_create_from_fci(e.p, e.n) : emv_app_create_from_pse(nullptr, e.p, e.n); bool hit = alloc_failed(); alloc_fail_at(0, false); if (hit) s.nontrivial();
	if (s.want()) s.desc(fmt("%s allocation %llu", hex(b).c_str(), (unsigned long long)k)); if (!hit && ok && !m.unsure) REQUIRE(a, "no application"); if (a) { check_app(a, m, "application after a failed allocation"); emv_app_free(a); } REQUIRE(alloc_live() == 0, "allocation %llu failed: leak", (unsigned long long)k);
}
VH_PROP(C23, session, 60000, 2000000, "one step of a transaction with the n-th of its allocations failing, the result compared with the undisturbed step; non-trivial: an allocation failed") {
	std::vector<Aid> sup = gen_supported(s); Card c; bool tr; if (s.chance(2, 3)) gen_good_card(s, c, sup); else { gen_card(s, c, sup); c.gpo = gen_gpo(s, tr); } std::vector<Field> params = gen_source(s); uint32_t seed = (uint32_t)s.draw(1000); bool tp = s.chance(1, 2); unsigned step = (unsigned)s.draw(4); uint64_t kk = s.draw(64); bool sticky = s.chance(1, 2); const char* SN[] = {"candidate building", "selection", "initiation", "reading"};
	if (s.want()) s.desc(fmt("%s, allocation choice %llu%s ", SN[step], (unsigned long long)kk, sticky ? " sticky " : "") + card::show(c));
	std::string base, icc0; uint64_t n = 0; int rb = 0; std::vector<std::string> baseapps;
	for (int pass = 0; pass < 2; ++pass) {
		Ctx x; push_aids(&x.c.supported_aids, sup); push_fields(&x.c.params, params); x.rd.c = c; x.rd.tpdu = tp; x.rd.rng = seed; x.attach(); struct emv_app_list_t l = EMV_APP_LIST_INIT; int r = 0; std::string before;
		for (unsigned i = 0; i <= step; ++i) {
			if (i == step) { before = show_ctx(x.c); if (pass) alloc_fail_at(kk % n + 1, sticky); } uint64_t c0 = alloc_count();
			switch (i) { case 0: r = emv_build_candidate_list(&x.c, &l); break; case 1: r = emv_select_application(&x.c, &l, 0); break; case 2: r = emv_initiate_application_processing(&x.c, 5); break; default: r = emv_read_application_data(&x.c); break; }
			if (i == step) n = alloc_count() - c0; else if (r) { emv_app_list_clear(&l); emv_ctx_clear(&x.c); return; }
		}
		bool hit = pass && alloc_failed(); alloc_fail_at(0, false); std::string now = show_ctx(x.c) + show_list(l);
		if (!pass) { base = now; rb = r; if (!n) { emv_app_list_clear(&l); emv_ctx_clear(&x.c); return; }
			if (step == 0) { // every application the card can give, from the directory or by selection
				std::vector<MApp> all; ref_candidates(c, sup, all); Card d = c; d.pse.sw = 0x6A82; d.pse.fault = false; std::vector<MApp> disc; ref_candidates(d, sup, disc); (void)disc; }
		} else {
			if (hit) s.nontrivial();
			if (r == 0) {
				REQUIRE(rb == 0 || step == 0, "%s reports success although it fails with enough memory (%d)", SN[step], rb);
				if (step == 0) { // an application that could not be created may be skipped, but none may be incomplete
					std::vector<MApp> all; Card d = c; { std::vector<MApp> t; ref_candidates(d, sup, t); all = t; } d.pse.sw = 0x6A82; d.pse.fault = false; { std::vector<MApp> t; for (auto& a : d.apps) { MApp m; if (app_from_fci(a.ans.data, m)) t.push_back(m); } all.insert(all.end(), t.begin(), t.end()); }
					for (auto* a = l.front; a; a = a->next) { bool f = false; for (auto& m : all) if (list_fields(a->tlv_list) == m.f) { check_app(a, m, "candidate after a failed allocation"); f = true; break; } if (!f) fails("candidate with incomplete data after a failed allocation: " + show_app(a)); }
					REQUIRE(l.front, "an empty candidate list is reported as success");
				} else if (now != base) fails(fmt("%s reports success with different data after a failed allocation: ", SN[step]) + now + " instead of " + base);
			} else { if (step == 1) REQUIRE(!x.c.selected_app, "failed selection leaves an application"); if (step == 2) expect_fields(x.c.icc, {}, "card data after a failed initiation"); if (step == 3 && show_ctx(x.c) != before) fails("failed reading changed the context: " + show_ctx(x.c) + " before: " + before); }
			s.label(r ? "reported" : "correct");
		}
		emv_app_list_clear(&l); REQUIRE(emv_ctx_clear(&x.c) == 0, "clear failed"); REQUIRE(alloc_live() == 0, "%s with allocation %llu failing leaks %zu blocks", SN[step], (unsigned long long)(n ? kk % n + 1 : 0), alloc_live());
	}
}

// ------------------------------------------------------------------ C32
struct Ev { unsigned src, lvl, type; std::string str; Bytes data; bool null; bool operator==(const Ev& o) const { return src == o.src && lvl == o.lvl && type == o.type && str == o.str && data == o.data && null == o.null; } };
static std::vector<Ev>* g_ev; static bool g_badstr;
static std::string norm(const char* p) { std::string o; while (*p) { if (p[0] == '0' && p[1] == 'x' && isxdigit((unsigned char)p[2])) { const char* q = p + 2; bool upper = false; for (; isxdigit((unsigned char)*q); ++q) upper = upper || isupper((unsigned char)*q); if (q - p > 8 && !upper) { o += "PTR"; p = q; continue; } } if (!strncmp(p, "(nil)", 5)) { o += "PTR"; p += 5; continue; } o += *p++; } return o; }
static void ev_cb(unsigned int, enum emv_debug_source_t src, enum emv_debug_level_t lvl, enum emv_debug_type_t type, const char* str, const void* buf, size_t n) {
	if (strlen(str) > 1023) g_badstr = true; Ev e{(unsigned)src, (unsigned)lvl, (unsigned)type, norm(str), {}, buf == nullptr}; if (buf && type != EMV_DEBUG_TYPE_ATR) e.data.assign((const uint8_t*)buf, (const uint8_t*)buf + n); g_ev->push_back(e);
}
VH_PROP(C32, direct, 150000, 3000000, "messages of all sources, levels, types and lengths against random masks and levels; non-trivial: the message passes the filter") {
	std::vector<Ev> got; g_ev = &got; g_badstr = false; unsigned mask = (unsigned)(s.chance(1, 3) ? s.draw(16) : s.chance(1, 2) ? 0xFF : s.u32()); unsigned lvl = (unsigned)s.draw(6); bool cb = !s.chance(1, 12);
	emv_debug_init(mask, (enum emv_debug_level_t)lvl, cb ? ev_cb : nullptr); unsigned n = (unsigned)s.range(1, 4); std::vector<Ev> want; std::string log = fmt("mask %X level %u%s:", mask, lvl, cb ? "" : " no callback");
	for (unsigned i = 0; i < n; ++i) {
		unsigned src = 1u << s.draw(4), l = (unsigned)s.range(1, 4), type = (unsigned)s.pickl<unsigned>({1, 2, 3, 5, 6, 7, 8}); std::string text; size_t tl = s.chance(1, 4) ? s.range(1015, 1040) : s.chance(1, 10) ? s.len(0, s.chance(1, 4) ? 70000 : 5000) : s.draw(30); for (size_t k = 0; k < tl; ++k) text += (char)('a' + k % 26); Bytes d = s.bytes(s.draw(12)); Exact e(d); bool nul = s.chance(1, 3); unsigned fm = (unsigned)s.draw(3);
		log += fmt(" src %X level %u type %u text %zu data %s", src, l, type, tl, nul ? "none" : hex(d).c_str()); std::string w; const void* p = nul ? nullptr : e.p; size_t pl = nul ? 0 : e.n;
		if (fm == 0) { emv_debug_internal((enum emv_debug_source_t)src, (enum emv_debug_level_t)l, (enum emv_debug_type_t)type, "%s", p, pl, text.c_str()); w = text; } else if (fm == 1) { emv_debug_internal((enum emv_debug_source_t)src, (enum emv_debug_level_t)l, (enum emv_debug_type_t)type, "%d %s;%02X", p, pl, (int)i - 1, text.c_str(), 171u); w = fmt("%d ", (int)i - 1) + text + ";AB"; } else { emv_debug_internal((enum emv_debug_source_t)src, (enum emv_debug_level_t)l, (enum emv_debug_type_t)type, "plain", p, pl); w = "plain"; }
		if (cb && (mask & src) && l <= lvl) want.push_back({src, l, type, w.substr(0, 1023), nul ? Bytes{} : d, nul});
	}
	emv_debug_init(0, EMV_DEBUG_NONE, nullptr); if (s.want()) s.desc(log); if (!want.empty()) s.nontrivial();
	REQUIRE(!g_badstr, "message longer than the internal buffer"); REQUIRE(got.size() == want.size(), "%zu messages delivered, %zu expected: %s", got.size(), want.size(), log.c_str()); for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) fails(fmt("message %zu differs (source %X level %u type %u, %zu characters, data %s): ", i, got[i].src, got[i].lvl, got[i].type, got[i].str.size(), hex(got[i].data).c_str()) + log);
}
VH_PROP(C32, session, 15000, 500000, "the same transaction without tracing, with everything traced and with a random mask and level; non-trivial: messages were delivered") {
	std::vector<Aid> sup = gen_supported(s); Card c; bool tr, good = s.chance(1, 2); if (good) gen_good_card(s, c, sup); else { gen_card(s, c, sup); c.gpo = gen_gpo(s, tr); } std::vector<Field> params = gen_source(s), config = gen_source(s); uint32_t seed = (uint32_t)s.draw(1000); bool tp = s.chance(1, 2); unsigned mask = (unsigned)s.draw(16), lvl = (unsigned)s.draw(6); Bytes atr = s.chance(1, 2) ? Bytes{0x3B, 0x00} : s.bbytes(s.range(2, 12)); if (s.chance(1, 2)) atr[0] = 0x3B; uint8_t mode = s.byte(); unsigned noise = s.chance(1, 4) ? (unsigned)s.range(1, 8) : 0;
	if (s.want()) s.desc(fmt("mask %X level %u ", mask, lvl) + card::show(c)); std::vector<Ev> ev[3]; std::string out[3]; std::vector<Bytes> tx, rx, etx, erx, cmds, whole; g_badstr = false;
	for (int k = 0; k < 3; ++k) {
		g_ev = &ev[k]; int di = k == 0 ? emv_debug_init(0xFF, EMV_DEBUG_ALL, nullptr) : k == 1 ? emv_debug_init(EMV_DEBUG_SOURCE_ALL, EMV_DEBUG_ALL, ev_cb) : emv_debug_init(mask, (enum emv_debug_level_t)lvl, ev_cb); REQUIRE(di == 0, "tracing cannot be set up: %d", di);
		Ctx x; push_aids(&x.c.supported_aids, sup); push_fields(&x.c.config, config); x.rd.c = c; x.rd.tpdu = tp; x.rd.rng = seed; x.rd.noise = noise; x.rd.left = 2000; x.rd.logging = k == 1; x.attach(); Exact a(atr); out[k] = fmt("atr %d ", emv_atr_parse(a.p, a.n)) + transaction(x, params, mode) + fmt(" exchanges %u", x.rd.exchanges); emv_debug_init(0, EMV_DEBUG_NONE, nullptr); emv_ctx_clear(&x.c); if (k == 1) { tx = x.rd.txlog; rx = x.rd.rxlog; cmds = x.rd.cmds; whole = x.rd.answers; }
	}
	if (out[0] != out[1]) fails("tracing everything changes the result: " + out[1] + " without: " + out[0]); if (out[0] != out[2]) fails(fmt("tracing with mask %X level %u changes the result: ", mask, lvl) + out[2] + " without: " + out[0]);
	REQUIRE(!g_badstr && ev[0].empty(), "unexpected message"); std::vector<Ev> want; for (auto& e : ev[1]) { REQUIRE(e.src && (e.src & (e.src - 1)) == 0 && e.lvl >= 1 && e.lvl <= 4, "message with source %X level %u", e.src, e.lvl); if ((e.src & mask) && e.lvl <= lvl) want.push_back(e); }
	REQUIRE(ev[2].size() == want.size(), "mask %X level %u delivers %zu messages, expected %zu of %zu", mask, lvl, ev[2].size(), want.size(), ev[1].size()); for (size_t i = 0; i < want.size(); ++i) REQUIRE(ev[2][i] == want[i], "message %zu is \"%s\" expected \"%s\"", i, ev[2][i].str.c_str(), want[i].str.c_str());
	// the traced frames are the frames exchanged with the reader
	for (auto& e : ev[1]) { if (e.type == EMV_DEBUG_TYPE_CTPDU) etx.push_back(e.data); if (e.type == EMV_DEBUG_TYPE_RTPDU) erx.push_back(e.data); }
	REQUIRE(etx == tx, "%zu transmitted frames traced, %zu transmitted, or their content differs", etx.size(), tx.size()); while (!rx.empty() && rx.back().empty()) rx.pop_back(); while (!erx.empty() && erx.back().empty()) erx.pop_back(); if (!noise) REQUIRE(erx == rx, "%zu received frames traced, %zu received, or their content differs", erx.size(), rx.size());
	// a number that a message shows in hexadecimal (a tag or a status word) is one the card sent
	if (!noise) for (auto& e : ev[1]) for (size_t at = 0; (at = e.str.find("0x", at)) != std::string::npos;) {
		Bytes v; at += 2; while (at + 1 < e.str.size() && isxdigit((unsigned char)e.str[at]) && isxdigit((unsigned char)e.str[at + 1])) { v.push_back((uint8_t)strtoul(e.str.substr(at, 2).c_str(), nullptr, 16)); at += 2; }
		bool sent = v.empty(); for (auto* l : {&whole, &rx}) for (auto& w : *l) sent = sent || std::search(w.begin(), w.end(), v.begin(), v.end()) != w.end(); if (!sent) fails("message \"" + e.str + "\" shows a number that the card did not send");
	}
	// commands and responses are traced as they are, and data given with a message is data exchanged with the card
	if (!noise) {
		std::vector<Bytes> ecmd; for (auto& e : ev[1]) if (e.type == EMV_DEBUG_TYPE_CAPDU) ecmd.push_back(e.data); std::vector<Bytes> units; for (auto& a : sup) units.push_back(a.v);
		REQUIRE(ecmd == cmds, "%zu commands traced, %zu sent, or their content differs", ecmd.size(), cmds.size());
		for (auto& m : cmds) if (m.size() > 5) units.push_back(Bytes(m.begin() + 5, m.begin() + std::min(m.size(), (size_t)5 + m[4])));
		for (auto& w : whole) { std::vector<Field> f; flatten(w, f); for (auto& e : f) { units.push_back(e.value); if (e.tag == 0x80 && e.value.size() >= 2) { units.push_back(Bytes(e.value.begin(), e.value.begin() + 2)); units.push_back(Bytes(e.value.begin() + 2, e.value.end())); } } }
		for (auto& e : ev[1]) if (e.type == EMV_DEBUG_TYPE_DATA && !e.data.empty() && e.data.size() < 256 && std::find(units.begin(), units.end(), e.data) == units.end()) {
			bool part = false; if (!good) for (auto& w : whole) part = part || std::search(w.begin(), w.end(), e.data.begin(), e.data.end()) != w.end(); if (!part) fails(fmt("message \"%s\" is given with %zu octets that are no data element of the session: ", e.str.c_str(), e.data.size()) + hex(e.data)); }
	}
	if (!want.empty()) s.nontrivial();
}
