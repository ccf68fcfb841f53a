// A scripted PC/SC service that stands in for pcsc-lite. Include in exactly one source of a binary.
#ifndef WINSCARD_FAKE_H
#define WINSCARD_FAKE_H
#include "vh.h"
#include <PCSC/winscard.h>
#include <PCSC/reader.h>
extern "C" {
#include "pcsc.h"
}
namespace fake {
using namespace vh;
struct Card { bool present = false; Bytes atr; DWORD proto = SCARD_PROTOCOL_T0; Bytes uid_answer; bool uid_err = false; };
struct Reader {
	std::string name; DWORD state = 0; Card card;
	Bytes features; bool features_ok = true; // well formed
	std::map<DWORD, Bytes> control; std::map<DWORD, LONG> control_err; LONG feat_err = 0;
	LONG direct_err = 0;
};
struct Handle { int reader; bool direct; bool open; unsigned closes; DWORD disp; };
struct Service {
	Src* s = nullptr; std::vector<Reader> readers; std::string err;
	SCARDCONTEXT ctx = 0; unsigned ctx_open = 0, ctx_close = 0; LONG est_err = 0, rel_err = 0, list_err1 = 0, list_err2 = 0; bool shrink = false; unsigned lists = 0;
	std::map<SCARDHANDLE, Handle> handles; SCARDHANDLE next = 0x1000;
	LONG connect_err = 0, status_err = 0, disc_err = 0, trans_err = 0, change_err = 0;
	Bytes tx_expect, rx; bool user_trx = false, got_trx = false; DWORD want_timeout = 0; bool in_wait = false; std::set<size_t> asked; unsigned changes = 0; std::function<void()> on_wait; std::function<LONG(const Bytes&, LPBYTE, LPDWORD)> on_trx; std::function<void(const std::string&)> on_bad; std::function<LONG(int reader)> on_state; // errors of a state query of one reader
	void bad(const std::string& m) { if (err.empty()) { err = m; if (on_bad) on_bad(m); } }
	int find(const char* n) { for (size_t i = 0; i < readers.size(); ++i) if (readers[i].name == n) return (int)i; return -1; }
	Handle* handle(SCARDHANDLE h, const char* what) { auto i = handles.find(h); if (i == handles.end() || !i->second.open) { bad(fmt("%s used with a handle that is not open", what)); return nullptr; } return &i->second; }
};
Service* S;
const LONG ERRS[] = {SCARD_E_NO_SERVICE, SCARD_E_READER_UNAVAILABLE, SCARD_W_UNRESPONSIVE_CARD, SCARD_E_NO_SMARTCARD, SCARD_F_COMM_ERROR, SCARD_E_SHARING_VIOLATION, SCARD_E_UNSUPPORTED_FEATURE, SCARD_W_REMOVED_CARD, SCARD_E_INVALID_PARAMETER, SCARD_E_NOT_TRANSACTED};
}
using fake::S; using fake::Handle; using vh::Bytes; using vh::fmt; using vh::hex; using vh::unhex;
extern "C" {
const SCARD_IO_REQUEST g_rgSCardT0Pci = {SCARD_PROTOCOL_T0, sizeof(SCARD_IO_REQUEST)};
const SCARD_IO_REQUEST g_rgSCardT1Pci = {SCARD_PROTOCOL_T1, sizeof(SCARD_IO_REQUEST)};
const SCARD_IO_REQUEST g_rgSCardRawPci = {SCARD_PROTOCOL_RAW, sizeof(SCARD_IO_REQUEST)};
const char* pcsc_stringify_error(const LONG) { return "scripted"; }
LONG SCardEstablishContext(DWORD, LPCVOID, LPCVOID, LPSCARDCONTEXT c) { if (S->est_err) return S->est_err; S->ctx = 0x77; S->ctx_open++; *c = S->ctx; return SCARD_S_SUCCESS; }
LONG SCardReleaseContext(SCARDCONTEXT c) {
	if (!S->ctx_open && c == 0) return SCARD_E_INVALID_HANDLE; // releasing nothing is harmless
	if (c != S->ctx || !S->ctx_open) { S->bad("a context that is not open is released"); return SCARD_E_INVALID_HANDLE; }
	S->ctx_close++; return S->rel_err;
}
LONG SCardIsValidContext(SCARDCONTEXT c) { return c == S->ctx && S->ctx_open > S->ctx_close ? SCARD_S_SUCCESS : SCARD_E_INVALID_HANDLE; }
LONG SCardListReaders(SCARDCONTEXT c, LPCSTR, LPSTR buf, LPDWORD len) {
	if (c != S->ctx || !S->ctx_open) { S->bad("readers listed without a context"); return SCARD_E_INVALID_HANDLE; }
	S->lists++;
	if (!buf && S->list_err1) return S->list_err1;
	if (buf && S->list_err2) return S->list_err2;
	if (buf && S->shrink && !S->readers.empty()) { S->readers.pop_back(); S->shrink = false; }
	std::string m; for (auto& r : S->readers) { m += r.name; m += '\0'; } m += '\0';
	if (buf) { if (*len < m.size()) { *len = m.size(); return SCARD_E_INSUFFICIENT_BUFFER; } memcpy(buf, m.data(), m.size()); }
	*len = m.size(); return SCARD_S_SUCCESS;
}
LONG SCardConnect(SCARDCONTEXT c, LPCSTR name, DWORD share, DWORD protos, LPSCARDHANDLE h, LPDWORD proto) {
	if (c != S->ctx || S->ctx_close) { S->bad("connect without a context"); return SCARD_E_INVALID_HANDLE; }
	int i = S->find(name); if (i < 0) { S->bad(fmt("connect to unknown reader %s", name)); return SCARD_E_UNKNOWN_READER; }
	fake::Reader& r = S->readers[i]; bool direct = share == SCARD_SHARE_DIRECT;
	if (direct) { if (r.direct_err) return r.direct_err; }
	else { if (S->connect_err) return S->connect_err; if (!r.card.present) return SCARD_E_NO_SMARTCARD; if (!(protos & r.card.proto)) return SCARD_E_PROTO_MISMATCH; }
	*h = S->next++; S->handles[*h] = Handle{i, direct, true, 0, 0}; *proto = direct ? 0 : r.card.proto; return SCARD_S_SUCCESS;
}
LONG SCardDisconnect(SCARDHANDLE h, DWORD disp) {
	auto i = S->handles.find(h);
	if (i == S->handles.end() && h == 0) return SCARD_E_INVALID_HANDLE;
	if (i == S->handles.end() || !i->second.open) { S->bad(fmt("a connection that is not open (handle %lX) is closed", (unsigned long)h)); return SCARD_E_INVALID_HANDLE; }
	i->second.closes++; i->second.disp = disp; if (!S->disc_err || i->second.direct) i->second.open = false; return i->second.direct ? SCARD_S_SUCCESS : S->disc_err;
}
LONG SCardControl(SCARDHANDLE h, DWORD code, LPCVOID, DWORD, LPVOID out, DWORD cap, LPDWORD n) {
	Handle* hd = S->handle(h, "control"); if (!hd) return SCARD_E_INVALID_HANDLE; fake::Reader& r = S->readers[hd->reader]; const Bytes* d;
	if (code == CM_IOCTL_GET_FEATURE_REQUEST) { if (r.feat_err) return r.feat_err; d = &r.features; }
	else { auto e = r.control_err.find(code); if (e != r.control_err.end()) return e->second; auto i = r.control.find(code); if (i == r.control.end()) { S->bad(fmt("control code %08lX was not offered by the reader", (unsigned long)code)); return SCARD_E_UNSUPPORTED_FEATURE; } d = &i->second; }
	if (d->size() > cap) return SCARD_E_INSUFFICIENT_BUFFER;
	if (!d->empty()) memcpy(out, d->data(), d->size()); *n = d->size(); return SCARD_S_SUCCESS;
}
LONG SCardStatus(SCARDHANDLE h, LPSTR, LPDWORD, LPDWORD state, LPDWORD proto, LPBYTE atr, LPDWORD n) {
	Handle* hd = S->handle(h, "status"); if (!hd) return SCARD_E_INVALID_HANDLE; if (S->status_err) return S->status_err; fake::Reader& r = S->readers[hd->reader];
	if (state) *state = SCARD_PRESENT | SCARD_POWERED; if (proto) *proto = r.card.proto;
	if (atr && n) { if (*n < r.card.atr.size()) { *n = r.card.atr.size(); return SCARD_E_INSUFFICIENT_BUFFER; } if (!r.card.atr.empty()) memcpy(atr, r.card.atr.data(), r.card.atr.size()); }
	if (n) *n = r.card.atr.size(); return SCARD_S_SUCCESS;
}
LONG SCardTransmit(SCARDHANDLE h, const SCARD_IO_REQUEST* pci, LPCBYTE tx, DWORD txn, SCARD_IO_REQUEST*, LPBYTE rx, LPDWORD rxn) {
	Handle* hd = S->handle(h, "transmit"); if (!hd) return SCARD_E_INVALID_HANDLE; fake::Card& c = S->readers[hd->reader].card;
	if (hd->direct) { S->bad("exchange over the direct connection"); return SCARD_E_NOT_TRANSACTED; }
	if (pci->dwProtocol != c.proto) { S->bad(fmt("exchange with protocol %lu on a card that uses %lu", (unsigned long)pci->dwProtocol, (unsigned long)c.proto)); return SCARD_E_PROTO_MISMATCH; }
	Bytes cmd(tx, tx + txn); const Bytes* a; if (S->on_trx) return S->on_trx(cmd, rx, rxn);
	if (S->user_trx) { S->got_trx = true; if (cmd != S->tx_expect) S->bad("exchanged command " + hex(cmd) + " expected " + hex(S->tx_expect)); if (S->trans_err) return S->trans_err; a = &S->rx; }
	else { if (cmd != unhex("FFCA000000")) { S->bad("unexpected command " + hex(cmd) + " while connecting"); return SCARD_E_NOT_TRANSACTED; } if (c.uid_err) return SCARD_E_NOT_TRANSACTED; a = &c.uid_answer; }
	if (*rxn < a->size()) { *rxn = a->size(); return SCARD_E_INSUFFICIENT_BUFFER; }
	if (!a->empty()) memcpy(rx, a->data(), a->size()); *rxn = a->size(); return SCARD_S_SUCCESS;
}
LONG SCardGetStatusChange(SCARDCONTEXT c, DWORD timeout, SCARD_READERSTATE* st, DWORD n) {
	if (c != S->ctx || S->ctx_close) { S->bad("status without a context"); return SCARD_E_INVALID_HANDLE; }
	if (S->on_state && n == 1 && st[0].dwCurrentState == SCARD_STATE_UNAWARE) { LONG e = S->on_state(S->find(st[0].szReader)); if (e) return e; }
	if (S->on_wait && n && st[0].dwCurrentState != SCARD_STATE_UNAWARE) S->on_wait();
	if (S->change_err) return S->change_err;
	if (S->in_wait && timeout > S->want_timeout) S->bad(fmt("waiting %lu ms although the caller asked for %lu", (unsigned long)timeout, (unsigned long)S->want_timeout));
	bool changed = false;
	for (DWORD i = 0; i < n; ++i) st[i].dwEventState = 0;
	for (DWORD i = 0; i < n; ++i) {
		int k = S->find(st[i].szReader); if (k < 0) { S->bad(fmt("status of unknown reader %s", st[i].szReader)); return SCARD_E_UNKNOWN_READER; }
		DWORD cur = st[i].dwCurrentState;
		if (cur & SCARD_STATE_IGNORE) { st[i].dwEventState = SCARD_STATE_IGNORE; continue; }
		DWORD now = S->readers[k].state;
		if (cur == SCARD_STATE_UNAWARE || ((cur ^ now) & (SCARD_STATE_EMPTY | SCARD_STATE_PRESENT | SCARD_STATE_UNAVAILABLE))) { changed = true; now |= SCARD_STATE_CHANGED; }
		st[i].dwEventState = now;
	}
	if (!changed) return SCARD_E_TIMEOUT;
	return SCARD_S_SUCCESS;
}
LONG SCardReconnect(SCARDHANDLE, DWORD, DWORD, DWORD, LPDWORD) { return SCARD_E_UNSUPPORTED_FEATURE; }
LONG SCardBeginTransaction(SCARDHANDLE) { return SCARD_S_SUCCESS; }
LONG SCardEndTransaction(SCARDHANDLE, DWORD) { return SCARD_S_SUCCESS; }
LONG SCardCancel(SCARDCONTEXT) { return SCARD_S_SUCCESS; }
LONG SCardFreeMemory(SCARDCONTEXT, LPCVOID) { return SCARD_S_SUCCESS; }
LONG SCardGetAttrib(SCARDHANDLE, DWORD, LPBYTE, LPDWORD) { return SCARD_E_UNSUPPORTED_FEATURE; }
}

namespace fake {
inline void be32(Bytes& o, uint32_t v) { for (int i = 24; i >= 0; i -= 8) o.push_back((uint8_t)(v >> i)); }
inline DWORD gen_state(Src& s, bool present) { DWORD st = present ? SCARD_STATE_PRESENT : s.chance(1, 8) ? SCARD_STATE_UNAVAILABLE : SCARD_STATE_EMPTY; if (present && s.chance(1, 3)) st |= (DWORD)s.pickl<uint64_t>({SCARD_STATE_INUSE, SCARD_STATE_EXCLUSIVE, SCARD_STATE_MUTE, SCARD_STATE_UNPOWERED, SCARD_STATE_ATRMATCH}); if ((st & ~(DWORD)SCARD_STATE_PRESENT) && present && s.chance(1, 3)) st |= (DWORD)s.pickl<uint64_t>({SCARD_STATE_INUSE, SCARD_STATE_MUTE, SCARD_STATE_UNPOWERED}); if (s.chance(1, 4)) st |= (DWORD)s.range(1, 0xFFFF) << 16; return st; }
inline void gen_card(Src& s, Card& c) {
	c = Card(); c.present = s.chance(3, 4); c.proto = s.chance(1, 2) ? SCARD_PROTOCOL_T0 : SCARD_PROTOCOL_T1;
	if (s.chance(1, 2)) { // artificial contactless ATR, perhaps slightly damaged
		size_t k = s.draw(16); c.atr = {0x3B, (uint8_t)(0x80 | (s.chance(1, 5) ? s.draw(8) << 4 : 0) | k), 0x80, 0x01}; for (size_t i = 0; i <= k; ++i) c.atr.push_back(s.byte());
		if (s.chance(1, 3)) { if (s.chance(1, 2)) { c.atr[s.draw(4)] ^= 1 << s.draw(8); } else if (s.chance(1, 2)) c.atr.pop_back(); else c.atr.push_back(0); }
		if (s.chance(1, 12)) c.atr.resize(s.range(1, 4));
	} else c.atr = s.bytes(s.len(1, 33));
	if (c.atr.size() > 33) c.atr.resize(33);
	unsigned w = (unsigned)s.weighted({4, 3, 1, 1, 1, 1});
	if (w == 0) { c.uid_answer = s.bytes((size_t)s.pickl<uint64_t>({4, 7, 10, 0, 1, 8, 9})); c.uid_answer.push_back(0x90); c.uid_answer.push_back(0); }
	else if (w == 1) c.uid_answer = {0x6A, 0x81};
	else if (w == 2) { c.uid_answer = s.bytes(s.draw(5)); c.uid_answer.push_back((uint8_t)s.pickl<uint64_t>({0x63, 0x6A, 0x6B, 0x90, 0x00})); c.uid_answer.push_back((uint8_t)s.pickl<uint64_t>({0x82, 0x80, 0x01, 0xFF})); }
	else if (w == 3) c.uid_answer = s.bytes(s.draw(2));
	else if (w == 4) { c.uid_answer = s.bytes(s.range(11, 20)); c.uid_answer.push_back(0x90); c.uid_answer.push_back(0); }
	else c.uid_err = true;
}
}
#endif
