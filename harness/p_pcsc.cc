// C33: PC/SC layer against a scripted PC/SC service
#include "winscard_fake.h"
using namespace vh; using namespace fake;

struct RModel { bool any_failed = false; Bytes props; bool has_props = false, has_pin = false, has_disp = false; Bytes pin, disp; std::set<unsigned> tags; bool judged = true; };

VH_PROP(C33, history, 60000, 3000000, "scripted service with up to four readers, feature and property data well-formed and malformed, errors at any call; sequences of up to 12 calls of the reader layer; non-trivial: a reader was connected, a property read or memory ran out in initialisation") {
	Service sv; S = &sv; sv.s = &s; std::string log; auto L = [&](const std::string& m) { if (s.want()) log += m + "; "; };
	size_t nr = s.weighted({1, 5, 3, 1, 1}); std::vector<RModel> md(nr); bool faults = s.chance(1, 2);
	auto fault = [&](unsigned den) -> LONG { return faults && s.chance(1, den) ? s.pick(ERRS) : 0; };
	for (size_t i = 0; i < nr; ++i) {
		Reader r; RModel& m = md[i]; r.name = s.chance(1, 3) ? fmt("R%zu", i) : fmt("Reader model %zu [interface] 00 %02zu", i * 7, i); gen_card(s, r.card); r.state = gen_state(s, r.card.present);
		size_t nf = s.draw(6); uint32_t code = 0x42330000 + (uint32_t)s.draw(256); bool damaged = s.chance(1, 6); size_t at = nf ? s.draw(nf) : 0; bool seq_failed = false;
		std::map<unsigned, uint32_t> codes;
		for (size_t k = 0; k < nf; ++k) { uint8_t t = (uint8_t)s.pickl<uint64_t>({6, 7, 8, 9, 0x0A, 0x11, 0x12, 0x12, 0x0A, 0x11, s.byte()}); if (codes.count(t)) continue; uint32_t cc = code + (uint32_t)k * 0x101; codes[t] = cc; r.features.push_back(t); r.features.push_back(damaged && k == at ? (uint8_t)s.pickl<uint64_t>({0, 3, 5, 255}) : 4); be32(r.features, cc); m.tags.insert(t); }
		if (damaged && r.features.empty()) damaged = false;
		if (damaged && s.chance(1, 2)) { for (size_t k = 1; k < r.features.size(); k += 6) r.features[k] = 4; r.features.resize(r.features.size() - s.range(1, 5)); if (r.features.size() % 6 == 0) damaged = !r.features.empty(); }
		if (s.chance(1, 40)) { damaged = true; r.features = s.bytes(s.range(240, 264)); }
		if (damaged) m.judged = false;
		r.feat_err = fault(8); r.direct_err = fault(8); if (r.feat_err || r.direct_err) { seq_failed = true; m.tags.clear(); codes.clear(); }
		for (auto& c : codes) {
			LONG e = fault(6); Bytes d; bool ok = !e;
			if (c.first == 0x0A) { d = s.bytes(sizeof(PIN_PROPERTIES_STRUCTURE)); if (s.chance(1, 8)) { d.resize(s.draw(d.size())); ok = false; } m.pin = d; m.has_pin = ok; }
			else if (c.first == 0x11) { d = s.bytes(4); if (s.chance(1, 8)) { d.resize(s.draw(4)); ok = false; } m.disp = d; m.has_disp = ok; }
			else if (c.first == 0x12) {
				size_t np = s.draw(10); for (size_t k = 0; k < np; ++k) { size_t ln = s.chance(1, 8) ? s.draw(60) : (size_t)s.pickl<uint64_t>({1, 2, 4, 0}); d.push_back((uint8_t)s.pickl<uint64_t>({1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0A, 0x0B, 0x0C, s.byte()})); d.push_back((uint8_t)ln); Bytes v = s.bytes(ln); d.insert(d.end(), v.begin(), v.end()); }
				if (s.chance(1, 4) && !d.empty()) { if (s.chance(1, 2)) d.resize(s.draw(d.size())); else d[s.draw(d.size())] = 0xFF; }
				if (d.size() > 264) d.resize(264);
				m.props = d; m.has_props = ok;
			} else ok = true;
			if (!ok) seq_failed = true;
			if (e) r.control_err[c.second] = e; r.control[c.second] = d;
		}
		m.any_failed = seq_failed || !m.judged;
		sv.readers.push_back(r);
		L(fmt("reader %s state %lX features %s (err %lX/%lX) props %s pin %s disp %s present %d atr %s uid %s", r.name.c_str(), (unsigned long)r.state, hex(r.features).c_str(), (long)r.direct_err, (long)r.feat_err, hex(m.props).c_str(), hex(m.pin).c_str(), hex(m.disp).c_str(), r.card.present, hex(r.card.atr).c_str(), hex(r.card.uid_answer).c_str()));
	}
	sv.est_err = fault(20); sv.list_err1 = fault(20); sv.list_err2 = fault(20); sv.rel_err = fault(20); sv.shrink = s.chance(1, 15);
	if (s.want()) s.desc(log);
	if (s.chance(1, 10)) { uint64_t k = s.range(1, 5); bool sticky = s.chance(1, 3); L(fmt("allocation %llu%s fails", (unsigned long long)k, sticky ? " and every later one" : "")); alloc_fail_at(k, sticky); }
	if (s.want()) { s.description.clear(); s.desc(log); }
	pcsc_ctx_t ctx = (pcsc_ctx_t)0x1; int r = pcsc_init(&ctx); bool nomem = alloc_failed(); alloc_fail_at(0, false);
	if (!sv.err.empty()) fails("initialisation: " + sv.err);
	if (nomem && r) {
		REQUIRE(r < 0, "initialisation returned %d when memory ran out", r); REQUIRE(ctx == nullptr, "context left after memory ran out in initialisation");
		REQUIRE(sv.ctx_open == sv.ctx_close, "memory ran out in initialisation: context opened %u times and released %u times", sv.ctx_open, sv.ctx_close);
		for (auto& h : sv.handles) REQUIRE(!h.second.open && h.second.closes == 1, "memory ran out in initialisation: connection closed %u times", h.second.closes);
		REQUIRE(alloc_live() == 0, "memory ran out in initialisation: %zu blocks left", alloc_live()); s.label("out of memory"); s.nontrivial(); return;
	}
	if (sv.est_err || sv.list_err1 || sv.list_err2) {
		REQUIRE(r < 0, "initialisation returned %d although the service failed", r); REQUIRE(ctx == nullptr, "context left after failed initialisation");
		REQUIRE(sv.ctx_open == sv.ctx_close, "context opened %u times and released %u times", sv.ctx_open, sv.ctx_close); REQUIRE(alloc_live() == 0, "memory left after failed initialisation"); s.label("init error"); return;
	}
	REQUIRE(r == 0, "initialisation failed with %d", r);
	for (auto& h : sv.handles) { REQUIRE(h.second.closes == 1, "connection for reader features closed %u times", h.second.closes); REQUIRE(h.second.disp == SCARD_LEAVE_CARD, "reading features changed the card's power state"); }
	nr = sv.readers.size();
	REQUIRE(pcsc_get_reader_count(ctx) == nr, "%zu readers counted, service reports %zu", pcsc_get_reader_count(ctx), nr);
	std::vector<pcsc_reader_ctx_t> rc(nr); std::vector<bool> conn(nr, false);
	for (size_t i = 0; i < nr; ++i) { rc[i] = pcsc_get_reader(ctx, i); REQUIRE(rc[i], "no reader %zu", i); REQUIRE(sv.readers[i].name == pcsc_reader_get_name(rc[i]), "reader %zu is called %s", i, pcsc_reader_get_name(rc[i])); }
	REQUIRE(!pcsc_get_reader(ctx, nr) && !pcsc_get_reader(ctx, nr + 1 + s.draw(1000)) && !pcsc_get_reader(ctx, (size_t)-1), "reader beyond the list returned");
	unsigned steps = nr ? (unsigned)s.range(1, 12) : 0;
	for (unsigned st = 0; st < steps; ++st) {
		size_t i = s.draw(nr); Reader& rd = sv.readers[i]; RModel& m = md[i]; unsigned op = (unsigned)s.weighted({2, 4, 2, 3, 4, 3, 3, 2, 1});
		if (op == 0) { // features
			for (unsigned t = 0; t < 260; ++t) {
				bool got = pcsc_reader_has_feature(rc[i], t);
				if (m.judged) REQUIRE(got == (m.tags.count(t) > 0), "feature %02X %s", t, got ? "reported although the reader does not have it" : "not reported");
				else if (got) REQUIRE(t < 256 && std::find(rd.features.begin(), rd.features.end(), (uint8_t)t) != rd.features.end() && !rd.feat_err && !rd.direct_err, "feature %02X reported out of nothing", t);
			}
		} else if (op == 1) { // property
			unsigned p = s.chance(1, 10) ? (unsigned)s.pickl<uint64_t>({0x101, 0x104, 0xFFFFFFFF, 0x10B}) : s.chance(1, 6) ? s.byte() : (unsigned)s.range(1, 12); size_t cap = s.chance(1, 3) ? s.draw(6) : s.range(4, 300);
			Exact v(cap); size_t n = cap; int g = pcsc_reader_get_property(rc[i], p, v.p, &n);
			const Bytes* val = nullptr; Bytes fb; bool malformed = false, hit_bad = false;
			if (m.has_props) { size_t o = 0; while (m.props.size() - o >= 2) { size_t ln = m.props[o + 1]; if (m.props[o] == p) { if (ln > m.props.size() - o - 2) { hit_bad = true; break; } fb = Bytes(m.props.begin() + o + 2, m.props.begin() + o + 2 + ln); val = &fb; break; } if (ln > m.props.size() - o - 2) { malformed = true; break; } o += 2 + ln; } }
			if (!val && !hit_bad) { if (p == PCSC_PROPERTY_wLcdLayout && m.has_pin) { fb = Bytes(m.pin.begin(), m.pin.begin() + 2); val = &fb; } else if (p == PCSC_PROPERTY_wLcdMaxCharacters && m.has_disp) { fb = Bytes(m.disp.begin(), m.disp.begin() + 2); val = &fb; } else if (p == PCSC_PROPERTY_wLcdMaxLines && m.has_disp) { fb = Bytes(m.disp.begin() + 2, m.disp.begin() + 4); val = &fb; } }
			L(fmt("property %X of %zu into %zu: %d", p, i, cap, g));
			if (g == 0) {
				if (!val && m.any_failed && hit_bad) val = &(fb = Bytes(v.p, v.p + std::min(n, cap))); // from data read before the error
				REQUIRE(val, "property %X found although the reader does not give it", p); REQUIRE(n <= cap && (val->size() <= cap || m.any_failed), "property %X of %zu octets given in %zu", p, val->size(), cap);
				bool alt = m.any_failed && m.has_pin && p == PCSC_PROPERTY_wLcdLayout && Bytes(v.p, v.p + std::min(n, cap)) == Bytes(m.pin.begin(), m.pin.begin() + 2); // later data may not have been fetched after an error
				if (m.any_failed && m.has_disp && (p == PCSC_PROPERTY_wLcdMaxCharacters || p == PCSC_PROPERTY_wLcdMaxLines)) { size_t o = p == PCSC_PROPERTY_wLcdMaxLines ? 2 : 0; alt = Bytes(v.p, v.p + std::min(n, cap)) == Bytes(m.disp.begin() + o, m.disp.begin() + o + 2); }
				REQUIRE(alt || (n == val->size() && Bytes(v.p, v.p + n) == *val), "property %X is %s expected %s", p, hex(v.p, std::min(n, cap)).c_str(), hex(*val).c_str()); s.nontrivial(); s.label("property");
			} else if (val && val->size() <= cap) REQUIRE(m.any_failed || malformed, "property %X not given (%d) although the reader has it", p, g);
			if (!val && !hit_bad && !m.any_failed && !malformed) REQUIRE(g > 0, "absent property %X reported as %d", p, g);
		} else if (op == 2) { // state
			if (s.chance(1, 2)) rd.state = gen_state(s, rd.card.present);
			sv.change_err = fault(6); unsigned x = 0xDEAD; int g = pcsc_reader_get_state(rc[i], &x); L(fmt("state of %zu: %d %X", i, g, x));
			if (sv.change_err) REQUIRE(g < 0, "service error while reading the state returned %d", g); else { REQUIRE(g == 0, "state failed with %d", g); REQUIRE((x & ~(unsigned)SCARD_STATE_CHANGED) == (rd.state & ~(DWORD)SCARD_STATE_CHANGED), "state %X expected %lX", x, (unsigned long)rd.state); }
			sv.change_err = 0;
		} else if (op == 3) { // wait
			if (s.chance(1, 2)) for (size_t k = 0; k < nr; ++k) if (!conn[k] && s.chance(1, 2)) { gen_card(s, sv.readers[k].card); sv.readers[k].state = gen_state(s, sv.readers[k].card.present); }
			bool any = s.chance(1, 2); size_t idx = any ? (size_t)PCSC_READER_ANY : i; sv.want_timeout = (DWORD)s.pickl<uint64_t>({0, 1, 5000, 0xFFFFFFFF}); sv.in_wait = true; sv.change_err = fault(6);
			int g = pcsc_wait_for_card(ctx, sv.want_timeout, &idx); sv.in_wait = false; L(fmt("wait for %s: %d idx %zu", any ? "any" : fmt("%zu", i).c_str(), g, idx));
			bool have = false; for (size_t k = 0; k < nr; ++k) if ((any || k == i) && (sv.readers[k].state & SCARD_STATE_PRESENT)) have = true;
			if (sv.change_err) REQUIRE(g != 0 && (g < 0 || sv.change_err == SCARD_E_TIMEOUT), "service error while waiting returned %d", g);
			else if (have) { REQUIRE(g == 0, "waiting returned %d although a card is present", g); REQUIRE(idx < nr && (any || idx == i) && (sv.readers[idx].state & SCARD_STATE_PRESENT), "card reported in reader %zu, which has none or was not asked for", idx); }
			else REQUIRE(g > 0, "waiting returned %d although no card is present", g);
			sv.change_err = 0;
		} else if (op == 4 && !conn[i]) { // connect
			if (s.chance(1, 2)) { gen_card(s, rd.card); rd.state = gen_state(s, rd.card.present); }
			sv.connect_err = fault(6); sv.status_err = fault(6); sv.disc_err = 0; size_t before = sv.handles.size();
			int g = pcsc_reader_connect(rc[i]); L(fmt("connect %zu (atr %s uid %s): %d", i, hex(rd.card.atr).c_str(), hex(rd.card.uid_answer).c_str(), g));
			if (!sv.err.empty()) fails("connect: " + sv.err);
			const Bytes& a = rd.card.atr; const Bytes& u = rd.card.uid_answer; int want = PCSC_CARD_TYPE_CONTACT;
			if (a.size() > 4 && a[0] == 0x3B && (a[1] & 0x80) && a[2] == 0x80 && a[3] == 1 && a.size() == 5u + (a[1] & 15)) {
				if (rd.card.uid_err || u.size() < 2 || u.size() > 12) want = -1; else { unsigned sw = u[u.size() - 2] << 8 | u[u.size() - 1]; want = sw == 0x6A81 ? PCSC_CARD_TYPE_CONTACT : sw == 0x9000 ? PCSC_CARD_TYPE_CONTACTLESS : -1; }
			}
			if (sv.connect_err || sv.status_err || !rd.card.present) want = -1;
			if (want < 0) { REQUIRE(g < 0, "connecting returned %d although it cannot succeed", g); s.label("connect failed"); }
			else { REQUIRE(g == want, "card type %d expected %d (ATR %s, UID answer %s)", g, want, hex(a).c_str(), hex(u).c_str()); conn[i] = true; s.nontrivial(); s.label("connected"); }
			unsigned open = 0; for (auto& h : sv.handles) open += h.second.open; unsigned exp = 0; for (size_t k = 0; k < nr; ++k) exp += conn[k];
			REQUIRE(open == exp, "%u connections open after connect, expected %u", open, exp); (void)before;
			Exact at(33); size_t an = 33; int q = pcsc_reader_get_atr(rc[i], at.p, &an);
			if (g == PCSC_CARD_TYPE_CONTACT) REQUIRE(q == 0 && an == a.size() && Bytes(at.p, at.p + an) == a, "ATR %s expected %s (%d)", hex(at.p, std::min<size_t>(an, 33)).c_str(), hex(a).c_str(), q); else REQUIRE(q != 0, "ATR available for a card that is not a contact card (%d)", q);
			sv.connect_err = sv.status_err = 0;
		} else if (op == 5) { // exchange
			Bytes tx = s.bytes(s.len(1, 261)); sv.rx = s.bytes(s.len(0, 300)); size_t cap = s.chance(1, 4) ? s.len(1, 300) : 300; sv.tx_expect = tx; sv.user_trx = true; sv.got_trx = false; sv.trans_err = fault(6);
			if (conn[i]) {
				Exact t(tx), rx(cap); size_t n = cap; int g = pcsc_reader_trx(rc[i], t.p, t.n, rx.p, &n); L(fmt("exchange %zu %s -> %s: %d", i, hex(tx).c_str(), hex(sv.rx).c_str(), g));
				if (!sv.err.empty()) fails("exchange: " + sv.err);
				if (sv.trans_err || sv.rx.size() > cap) REQUIRE(g < 0, "exchange returned %d although the service failed", g);
				else { REQUIRE(g == 0 && sv.got_trx, "exchange failed with %d", g); REQUIRE(n == sv.rx.size() && Bytes(rx.p, rx.p + n) == sv.rx, "answer %s expected %s", hex(rx.p, std::min(n, cap)).c_str(), hex(sv.rx).c_str()); s.label("exchange"); }
			} else { Exact t(tx), rx(cap); size_t n = cap; int g = pcsc_reader_trx(rc[i], t.p, t.n, rx.p, &n); REQUIRE(g < 0, "exchange without a connection returned %d", g); REQUIRE(!sv.got_trx, "exchange without a connection reached the service"); sv.err.clear(); }
			sv.user_trx = false; sv.trans_err = 0;
		} else if (op == 6 && conn[i]) { // disconnect
			sv.disc_err = fault(8); int g = pcsc_reader_disconnect(rc[i]); L(fmt("disconnect %zu: %d", i, g)); if (!sv.err.empty()) fails("disconnect: " + sv.err);
			if (sv.disc_err) { REQUIRE(g < 0, "service error while disconnecting returned %d", g); sv.disc_err = 0; REQUIRE(pcsc_reader_disconnect(rc[i]) == 0, "disconnecting after a failed attempt failed"); for (auto& h : sv.handles) if (h.second.reader == (int)i) h.second.closes = 1; }
			else REQUIRE(g == 0, "disconnect failed with %d", g);
			conn[i] = false; Exact at(33); size_t an = 33; REQUIRE(pcsc_reader_get_atr(rc[i], at.p, &an) != 0, "ATR still available after disconnecting");
		} else if (op == 7) { Exact at(33); size_t an = 33; int q = pcsc_reader_get_atr(rc[i], at.p, &an); if (!conn[i]) REQUIRE(q != 0, "ATR available without a card"); }
		else if (op == 8) { // missing arguments
			size_t n = 4; uint8_t b[4]; unsigned x; REQUIRE(pcsc_reader_get_property(nullptr, 1, b, &n) < 0 && pcsc_reader_get_property(rc[i], 1, nullptr, &n) < 0 && pcsc_reader_get_property(rc[i], 1, b, nullptr) < 0 && pcsc_reader_get_state(nullptr, &x) < 0 && pcsc_reader_get_state(rc[i], nullptr) < 0 && pcsc_wait_for_card(nullptr, 0, &n) < 0 && pcsc_wait_for_card(ctx, 0, nullptr) < 0 && pcsc_reader_connect(nullptr) < 0 && pcsc_reader_disconnect(nullptr) < 0 && !pcsc_reader_has_feature(nullptr, 6) && !pcsc_reader_get_name(nullptr) && pcsc_get_reader_count(nullptr) == 0 && !pcsc_get_reader(nullptr, 0), "missing argument accepted"); pcsc_release(nullptr); pcsc_ctx_t z = nullptr; pcsc_release(&z); }
		if (!sv.err.empty()) fails(sv.err);
	}
	sv.disc_err = 0; for (size_t i = 0; i < nr; ++i) if (conn[i]) REQUIRE(pcsc_reader_disconnect(rc[i]) == 0, "final disconnect failed");
	pcsc_release(&ctx); if (!sv.err.empty()) fails("release: " + sv.err);
	REQUIRE(ctx == nullptr, "context pointer kept after release"); REQUIRE(sv.ctx_close == 1 && sv.ctx_open == 1, "context opened %u times and released %u times", sv.ctx_open, sv.ctx_close);
	for (auto& h : sv.handles) { REQUIRE(!h.second.open && h.second.closes == 1, "a connection was closed %u times", h.second.closes); if (!h.second.direct) REQUIRE(h.second.disp == SCARD_UNPOWER_CARD, "card not powered down by disconnecting"); }
	REQUIRE(alloc_live() == 0, "%zu blocks left after release", alloc_live());
	pcsc_release(&ctx);
	if (s.want()) { s.description.clear(); s.desc(log); }
}
