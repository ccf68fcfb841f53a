// C39 C40 C41: the Qt viewer, driven through its widgets on the offscreen platform
#include "vh.h"
#include <memory>
#include "model.h"
#include "tlv_gen.h"
#include "tool_common.h"
#include <QtCore/QSettings>
#include <QtCore/QTimer>
#include <QtCore/QElapsedTimer>
#include <QtCore/QUrl>
#include <QtGui/QDesktopServices>
#include <QtGui/QMouseEvent>
#include <QtGui/QTextBlock>
#include <QtGui/QTextLayout>
#include <QtGui/QTextDocument>
#include <QtWidgets/QApplication>
#include <QtWidgets/QCheckBox>
#include <QtWidgets/QPlainTextEdit>
#include <QtWidgets/QTreeWidget>
#include "emv-viewer-mainwindow.h"
int emv_viewer_main(int argc, char** argv);

// ---------------------------------------------------------------- model
enum { DEPTH = 256 }; // fields nested deeper than this are reported as invalid data
static bool is_ws(QChar c) { return c.isSpace(); }
static bool is_hex(QChar c) { ushort u = c.unicode(); return (u >= '0' && u <= '9') || (u >= 'a' && u <= 'f') || (u >= 'A' && u <= 'F'); }
static int hexval(QChar c) { ushort u = c.unicode(); return u <= '9' ? u - '0' : (u | 0x20) - 'a' + 10; }
static QString q(const std::string& t) { return QString::fromUtf8(t.data(), (int)t.size()); }
static std::string u8(const QString& t) { QByteArray b = t.toUtf8(); return std::string(b.constData(), b.size()); }
static std::string spaced(const uint8_t* p, size_t n) { std::string o; for (size_t i = 0; i < n; ++i) o += fmt(i ? " %02X" : "%02X", p[i]); return o; }

struct Node { QString simple, decoded; bool field = false, padding = false, rest = false; bool value = false; size_t off = 0, len = 0; unsigned tag = 0; Bytes bytes; std::vector<Node> kids; };
struct Range { size_t off, len; };
struct Doc { // what a text means
	QString s; size_t hexlen = 0; Bytes data; size_t valid = 0; std::vector<Node> top; std::vector<Range> tags, pads; unsigned fields = 0, depth = 0; bool indef = false, deep = false;
};
static Node leaf(const QString& t) { Node n; n.simple = n.decoded = t; return n; }
static bool m_parse(Doc& d, std::vector<Node>& out, size_t base, size_t n, bool pad, unsigned depth) {
	const uint8_t* p = d.data.data() + base; size_t i = 0; d.depth = std::max(d.depth, depth);
	if (n && depth > DEPTH) { d.deep = true; return false; }
	while (i < n) {
		El e; int r = element(p + i, n - i, &e);
		if (r <= 0) {
			size_t rest = n - i;
			if (!pad || !((n % 8 == 0 && rest < 8) || (n % 16 == 0 && rest < 16))) return false;
			Node k; k.field = k.padding = true; k.off = base + i; k.len = rest; k.simple = k.decoded = q(fmt("Padding : [%zu] ", rest) + spaced(p + i, rest));
			out.push_back(k); d.pads.push_back({base + i, rest}); d.valid = base + n; return true;
		}
		const uint8_t* v = p + i + e.hdr; Node k; k.field = true; k.tag = e.tag; k.bytes.assign(v, v + e.len); k.off = base + i; k.len = e.total; ++d.fields; d.indef |= e.indefinite;
		d.tags.push_back({base + i, e.tag > 0xFFFFFF ? 4u : e.tag > 0xFFFF ? 3u : e.tag > 0xFF ? 2u : 1u});
		Info in = info_of(e.tag, v, e.len, true); bool list = !in.text.empty() && in.text.back() == '\n';
		std::string dec = fmt("%02X", e.tag);
		if (in.name) {
			dec += std::string(" | ") + in.name;
			if (!in.text.empty() && !list) { bool quote = in.format == EMV_FORMAT_A || in.format == EMV_FORMAT_AN || in.format == EMV_FORMAT_ANS; dec += quote ? " : \"" + in.text + "\"" : " : " + in.text; }
		}
		k.decoded = q(dec);
		if (e.constructed) {
			k.simple = q(fmt("%02X : [%zu]", e.tag, e.len)); d.valid = base + i + e.hdr;
			out.push_back(k); if (!m_parse(d, out.back().kids, base + i + e.hdr, e.len, pad, depth + 1)) return false;
		} else {
			k.simple = q(fmt("%02X : [%zu] ", e.tag, e.len) + spaced(v, e.len));
			auto value = [&](Node x) { x.value = true; k.kids.push_back(x); };
			value(leaf(q(fmt("[%zu] ", e.len) + spaced(v, e.len))));
			if (list) value(leaf(q(in.text).trimmed()));
			else if (in.format == EMV_FORMAT_DOL) {
				Node l = leaf("Data Object List:"); size_t j = 0;
				while (j < e.len) { unsigned t; int m = model::tag(v + j, e.len - j, &t); if (m <= 0 || j + m >= e.len) break; unsigned n2 = v[j + m]; j += m + 1; Info x = info_of(t, nullptr, n2, false); l.kids.push_back(leaf(q(x.name ? fmt("%02X | %s [%u]", t, x.name, n2) : fmt("%02X [%u]", t, n2)))); }
				value(l);
			} else if (in.format == EMV_FORMAT_TAG_LIST) {
				Node l = leaf("Tag List:"); size_t j = 0;
				while (j < e.len) { unsigned t; int m = model::tag(v + j, e.len - j, &t); if (m <= 0) break; j += m; Info x = info_of(t, nullptr, 0, false); l.kids.push_back(leaf(q(x.name ? fmt("%02X | %s", t, x.name) : fmt("%02X", t)))); }
				value(l);
			}
			out.push_back(k);
		}
		i += e.total; d.valid = base + i;
	}
	return true;
}
static Doc analyse(const QString& text, bool pad) {
	Doc d; for (QChar c : text) if (!is_ws(c)) d.s += c;
	while ((int)d.hexlen < d.s.size() && is_hex(d.s[(int)d.hexlen])) ++d.hexlen;
	for (size_t i = 0; i + 1 < d.hexlen; i += 2) d.data.push_back((uint8_t)(hexval(d.s[(int)i]) << 4 | hexval(d.s[(int)i + 1])));
	m_parse(d, d.top, 0, d.data.size(), pad, 0);
	if ((int)d.valid * 2 < d.s.size()) { Node n = leaf("Remaining invalid data: " + d.s.mid((int)d.valid * 2)); n.rest = true; d.top.push_back(n); }
	return d;
}
// the visible tree
static void m_dump(const std::vector<Node>& v, bool decode, int depth, std::string& o) {
	for (auto& n : v) { if (n.value && !decode) continue; o += std::string(depth * 2, ' ') + (n.rest ? "!" : n.padding ? "~" : "") + u8(decode ? n.decoded : n.simple) + "\n"; m_dump(n.kids, decode, depth + 1, o); }
}
static const Node* m_visible(const std::vector<Node>& v, bool decode, size_t& k) {
	for (auto& n : v) { if (n.value && !decode) continue; if (!k--) return &n; const Node* r = m_visible(n.kids, decode, k); if (r) return r; }
	return nullptr;
}
static size_t m_count(const std::vector<Node>& v, bool decode) { size_t k = 0; for (auto& n : v) if (!n.value || decode) k += 1 + m_count(n.kids, decode); return k; }

// ---------------------------------------------------------------- the window
static void quiet(QtMsgType t, const QMessageLogContext&, const QString& m) { if (t == QtFatalMsg) { fprintf(stderr, "qFatal: %s\n", qPrintable(m)); abort(); } }
static void environment(const std::string& dir) {
	setenv("QT_QPA_PLATFORM", "offscreen", 1); setenv("HOME", dir.c_str(), 1); setenv("XDG_CONFIG_HOME", (dir + "/config").c_str(), 1); setenv("XDG_CONFIG_DIRS", (dir + "/none").c_str(), 1);
	setenv("XDG_CACHE_HOME", (dir + "/cache").c_str(), 1); setenv("XDG_DATA_HOME", (dir + "/data").c_str(), 1); setenv("XDG_RUNTIME_DIR", dir.c_str(), 1); setenv("QT_LOGGING_RULES", "*.debug=false", 1); unsetenv("QT_PLUGIN_PATH"); unsetenv("DBUS_SESSION_BUS_ADDRESS");
}
static void application() {
	static bool done; if (done) return; done = true;
	tool_data(); environment(g_data);
	static int argc = 1; static char name[] = "emv-viewer"; static char* argv[] = {name, nullptr};
	qInstallMessageHandler(quiet); new QApplication(argc, argv);
	qApp->setOrganizationName("OpenEMV"); qApp->setOrganizationDomain("openemv.org"); qApp->setApplicationName("emv-viewer"); qApp->setApplicationVersion("0");
}
struct Win {
	EmvViewerMainWindow w; QPlainTextEdit *edit, *desc; QTreeWidget* tree; QCheckBox *tags, *pad, *dec;
	template <class T> T* get(const char* n) { T* t = w.findChild<T*>(n); if (!t) fail("the window has no %s", n); return t; }
	explicit Win(const QString& data = QString(), int state = -1) : w(nullptr, data, state) {
		edit = get<QPlainTextEdit>("dataEdit"); desc = get<QPlainTextEdit>("descriptionText"); tree = get<QTreeWidget>("treeView"); tags = get<QCheckBox>("tagsCheckBox"); pad = get<QCheckBox>("paddingCheckBox"); dec = get<QCheckBox>("decodeCheckBox");
	}
	~Win() { QCoreApplication::processEvents(); } // nothing scheduled outlives the window
	bool pending() { for (QTimer* t : w.findChildren<QTimer*>()) if (t->isActive() && t->interval() >= 50) return true; return false; }
	void settle() { // let the delayed update happen now
		for (int k = 0; k < 20; ++k) { bool any = false; for (QTimer* t : w.findChildren<QTimer*>()) if (t->isActive()) { t->start(0); any = true; } QCoreApplication::processEvents(); if (!any) break; }
	}
	static void dump(QTreeWidgetItem* p, int depth, std::string& o) {
		for (int i = 0; i < p->childCount(); ++i) {
			QTreeWidgetItem* c = p->child(i); if (c->isHidden()) continue;
			QColor f = c->foreground(0).style() == Qt::NoBrush ? QColor() : c->foreground(0).color();
			o += std::string(depth * 2, ' ') + (f == QColor(Qt::red) ? "!" : f == QColor(Qt::darkGray) ? "~" : "") + u8(c->text(0)) + "\n";
			std::string in; dump(c, depth + 1, in); if (!in.empty() && !c->isExpanded()) o += "(collapsed)\n"; o += in;
		}
	}
	std::string shown() { std::string o; dump(tree->invisibleRootItem(), 0, o); return o; }
	static QTreeWidgetItem* visible(QTreeWidgetItem* p, size_t& k) { for (int i = 0; i < p->childCount(); ++i) { QTreeWidgetItem* c = p->child(i); if (c->isHidden()) continue; if (!k--) return c; QTreeWidgetItem* r = visible(c, k); if (r) return r; } return nullptr; }
};
static void differ(const char* what, const QString& text, const std::string& got, const std::string& exp) {
	if (got == exp) return; size_t k = 0; while (k < got.size() && k < exp.size() && got[k] == exp[k]) ++k;
	fails(fmt("%s for \"%s\"\nshows    ...%s\nexpected ...%s", what, around(u8(text), 60).c_str(), around(got, k).c_str(), around(exp, k).c_str()));
}
static void check_tree(Win& w, const QString& text, const Doc& d, bool decode) {
	std::string exp; m_dump(d.top, decode, 0, exp); std::string got = w.shown();
	if (got != exp) { QElapsedTimer t; t.start(); while (t.elapsed() < 400 && got != exp) { QCoreApplication::processEvents(QEventLoop::AllEvents, 50); got = w.shown(); } } // an update scheduled by other means
	differ(decode ? "the decoded tree" : "the tree", text, got, exp);
}
// one letter per character: what it is shown as
static std::string m_marks(const QString& text, const Doc& d, bool emph, Range sel, size_t hexlimit) {
	std::string o; size_t g = 0; std::vector<char> kind(d.data.size() * 2, '.');
	if (emph) { for (auto& r : d.tags) for (size_t i = r.off * 2; i < (r.off + r.len) * 2 && i < kind.size(); ++i) kind[i] = 'T'; for (auto& r : d.pads) for (size_t i = r.off * 2; i < (r.off + r.len) * 2 && i < kind.size(); ++i) kind[i] = 'P'; }
	for (QChar c : text) {
		if (is_ws(c)) { o += c == '\n' ? "\n" : " "; continue; }
		if (!is_hex(c)) o += 'X'; else if (g < d.valid * 2) o += kind[g]; else o += 'I';
		if (is_hex(c)) o += g >= hexlimit ? '?' : g >= sel.off * 2 && g < (sel.off + sel.len) * 2 ? '#' : ' ';
		++g;
	}
	return o;
}
static std::string marks(Win& w, const Doc& d) {
	std::string o; size_t g = 0; const QColor tag(0xFF268BD2), sel(0xFF657B83);
	for (QTextBlock b = w.edit->document()->begin(); b != w.edit->document()->end(); b = b.next()) {
		if (b != w.edit->document()->begin()) o += "\n";
		QString t = b.text(); auto fs = b.layout()->formats();
		for (int i = 0; i < t.size(); ++i) {
			if (is_ws(t[i])) { o += " "; continue; }
			QTextCharFormat f; for (auto& r : fs) if (i >= r.start && i < r.start + r.length) f.merge(r.format);
			QColor fg = f.foreground().style() == Qt::NoBrush ? QColor() : f.foreground().color(), bg = f.background().style() == Qt::NoBrush ? QColor() : f.background().color();
			bool bold = f.fontWeight() == QFont::Bold, selected = bg == sel; char c = '?';
			if (bg == QColor(Qt::red) && bold && !is_hex(t[i])) c = 'X';
			else if (bold && (fg == tag || (selected && fg == QColor(Qt::white)))) c = 'T';
			else if (!bold && fg == QColor(Qt::red)) c = 'I'; else if (!bold && fg == QColor(Qt::darkGray)) c = 'P'; else if (!bold && !fg.isValid()) c = '.';
			if (bg.isValid() && !selected && c != 'X') c = '?';
			o += c; if (is_hex(t[i])) o += g >= d.hexlen ? '?' : selected ? '#' : ' ';
			++g;
		}
	}
	return o;
}
static void check_marks(Win& w, const QString& text, const Doc& d, bool emph, Range sel) { differ("the marking of the digits (. valid, T tag, P padding, I invalid, X not a digit, # selected)", text, marks(w, d), m_marks(text, d, emph, sel, d.hexlen)); }

// ---------------------------------------------------------------- generators
static QString gen_ws(Src& s) { switch (s.weighted({8, 4, 2, 1, 1, 1})) { case 0: return " "; case 1: return "\n"; case 2: return "\t"; case 3: return "  \n "; case 4: return QString(QChar(0xA0)); default: return QString(QChar(0x2003)); } }
static QString gen_odd(Src& s) {
	static const ushort C[] = {'g', 'x', ':', '-', 'G', '@', '`', '/', 0xE9, 0xFF21, 0x4E2D, 0x0661, 0xFF10, 0x20AC, 0x0130, 0x130, 0x141, 0x2030};
	if (s.chance(1, 6)) { QString t; t += QChar(0xD83D); t += QChar(0xDE00 + (ushort)s.draw(16)); return t; }
	return QString(QChar(s.chance(1, 5) ? (ushort)s.range(0x100, 0xD7FF) : s.pick(C)));
}
static Bytes gen_deep(Src& s) { Bytes b = s.chance(1, 2) ? tlv(0x9F02, Bytes(6, 1)) : Bytes(); unsigned n = s.chance(1, 3) ? (unsigned)s.range(250, 262) : (unsigned)s.range(10, 300); if (s.chance(1, 4)) corrupt(s, b); for (unsigned i = 0; i < n; ++i) { if (s.chance(1, 30)) { Bytes o{0x70, 0x80}; add(o, b); add(o, Bytes(2, 0)); b = o; } else b = tlv(0x70, b); } return b; }
static QString to_text(Src& s, const Bytes& b) {
	QString t; unsigned style = s.weighted({4, 3, 2, 2}); bool low = s.chance(1, 4), mix = s.chance(1, 8); size_t per = s.range(1, 20);
	for (size_t i = 0; i < b.size(); ++i) {
		QString x = q(fmt((mix ? s.chance(1, 2) : low) ? "%02x" : "%02X", b[i]));
		if (style == 2 && s.chance(1, 12)) t += gen_ws(s); t += x[0]; if (style == 2 && s.chance(1, 20)) t += gen_ws(s); t += x[1];
		if (style == 1) t += (i + 1) % per ? " " : "\n"; else if (style == 3 && (i + 1) % per == 0) t += "\n";
	}
	return t;
}
static QString gen_text(Src& s) {
	Bytes b = s.chance(1, 40) ? gen_deep(s) : gen_tlv_input(s, s.chance(3, 4)); QString t = to_text(s, b);
	switch (s.weighted({10, 1, 2, 1, 1})) {
		case 0: break; case 1: t = t.left((int)s.draw(t.size() + 1)); break;
		case 2: { unsigned n = (unsigned)s.range(1, 2); while (n--) t.insert((int)s.draw(t.size() + 1), gen_odd(s)); break; }
		case 3: t += s.pickl<const char*>({"0", "F", " 9", "\n5"}); break;
		default: t = gen_ws(s) + t + gen_ws(s) + gen_ws(s);
	}
	return t;
}
static void note(Src& s, const Doc& d) {
	if (!d.pads.empty()) s.label("padding"); if (d.indef) s.label("indefinite length"); if (d.deep) s.label("nested too deep"); else if (d.depth >= 2) s.label("nested");
	if ((int)d.hexlen < d.s.size()) s.label("not a digit"); else if (d.hexlen & 1) s.label("odd"); if ((int)d.valid * 2 < d.s.size()) s.label("invalid rest");
	if (d.fields >= 2 || !d.pads.empty() || (d.fields && (int)d.valid * 2 < d.s.size())) s.nontrivial();
}
static void fresh() { application(); QSettings q; q.clear(); q.sync(); }
static std::string brief(const QString& t) { return u8(t).substr(0, 600); }

// ---------------------------------------------------------------- properties
VH_PROP(C39, tree, 1500, 100000, "texts of TLV data (EMV and other fields, nested, indefinite length, damaged, padded, hundreds of levels), with white space of all kinds, odd digits and foreign characters, shown decoded or not, padding ignored or not; non-trivial: two fields, padding, or a field before invalid data") {
	fresh(); QString t = gen_text(s); bool pad = s.chance(1, 2), dec = s.chance(2, 3); if (s.want()) s.desc(fmt("text \"%s\" padding %d decode %d", brief(t).c_str(), pad, dec));
	Win w; w.pad->setChecked(pad); w.dec->setChecked(dec); w.edit->setPlainText(t); w.settle();
	QString now = w.edit->toPlainText(); Doc d = analyse(now, pad); note(s, d);
	check_tree(w, now, d, dec);
	if (s.chance(1, 3)) { w.dec->setChecked(!dec); check_tree(w, now, d, !dec); }
	if (s.chance(1, 3)) { w.pad->setChecked(!pad); w.settle(); check_tree(w, now, analyse(now, !pad), w.dec->isChecked()); }
}
VH_PROP(C40, marks, 1500, 100000, "texts as for C39, tags emphasised or not, padding ignored or not, and up to three fields pressed; non-trivial: as for C39") {
	fresh(); QString t = gen_text(s); bool pad = s.chance(1, 2), emph = s.chance(2, 3); if (s.want()) s.desc(fmt("text \"%s\" padding %d emphasise %d", brief(t).c_str(), pad, emph));
	Win w; w.dec->setChecked(true); w.pad->setChecked(pad); w.tags->setChecked(emph); w.edit->setPlainText(t);
	QString now = w.edit->toPlainText(); Doc d = analyse(now, pad); note(s, d); Range sel{0, 0};
	check_marks(w, now, d, emph, sel); w.settle(); check_marks(w, now, d, emph, sel);
	unsigned n = (unsigned)s.draw(4); size_t total = 0; total = m_count(d.top, true);
	while (n-- && total) {
		size_t k = s.draw(total), k2 = k; const Node* m = m_visible(d.top, true, k); QTreeWidgetItem* it = Win::visible(w.tree->invisibleRootItem(), k2); if (!m || !it) fail("the tree has fewer items than expected");
		if (s.want()) s.desc("press " + u8(m->decoded).substr(0, 60)); emit w.tree->itemPressed(it, 0); if (m->field) { sel = {m->off, m->len}; s.label("field pressed"); }
		check_marks(w, now, d, emph, sel);
		if (m->field) { // description of the field
			struct emv_tlv_t tl; memset(&tl, 0, sizeof tl); struct emv_tlv_info_t i; tl.tag = m->tag; tl.length = (unsigned)m->bytes.size(); tl.value = (uint8_t*)m->bytes.data(); if (!m->padding) emv_tlv_get_info(&tl, &i, nullptr, 0); else memset(&i, 0, sizeof i);
			QString exp = i.tag_name ? QString::fromUtf8(i.tag_name) + " " + QString::fromUtf8(i.tag_desc ? i.tag_desc : "") : QString();
			differ("the description", now, u8(w.desc->toPlainText().simplified()), u8(exp.simplified()));
		} else if (!w.desc->toPlainText().contains("This program is free software")) fail("pressing an item that is not a field does not show the legal notice but: %s", u8(w.desc->toPlainText()).substr(0, 200).c_str());
	}
	if (s.chance(1, 3)) { emph = !emph; w.tags->setChecked(emph); check_marks(w, now, d, emph, sel); }
	if (s.chance(1, 3)) { if (s.want()) s.desc("padding option changed"); w.pad->setChecked(!pad); check_marks(w, now, analyse(now, !pad), emph, sel); }
}
VH_PROP(C41, history, 600, 40000, "histories of up to 25 steps: text set, typed, pasted or deleted anywhere, undone, redone, options changed, fields pressed before and after the delayed update, the window closed and opened again; after every step marks and tree are those of the text and options; non-trivial: five steps with a text that has two fields") {
	fresh(); int over = -1; QString t0; if (s.chance(1, 4)) { t0 = gen_text(s); over = s.pickl<int>({-1, 0, 2}); }
	bool emph = false, pad = false, dec = over > 0;
	auto w = std::make_unique<Win>(t0, over); QString shown; bool shownpad = false; Range sel{0, 0}; unsigned n = (unsigned)s.range(1, 25), steps = 0; bool rich = false;
	if (s.want()) s.desc(fmt("open \"%s\" decode %d", brief(t0).c_str(), over));
	bool dirty = !t0.isEmpty(), folded = false; std::vector<int> path; // an item the user folded stays folded until the text or the padding option changes
	auto foldable = [&](QTreeWidgetItem* p, std::vector<std::vector<int>>& out) { std::function<void(QTreeWidgetItem*, std::vector<int>)> go = [&](QTreeWidgetItem* q, std::vector<int> at) { for (int i = 0; i < q->childCount(); ++i) { auto c = at; c.push_back(i); QTreeWidgetItem* k = q->child(i); if (k->isHidden()) continue; if (k->childCount() && k->isExpanded() && !k->child(0)->isHidden()) out.push_back(c); if (c.size() < 40) go(k, c); } }; go(p, {}); };
	auto item_at = [&]() { QTreeWidgetItem* q = w->tree->invisibleRootItem(); for (int i : path) { if (!q || i >= q->childCount()) return (QTreeWidgetItem*)nullptr; q = q->child(i); } return q; };
	for (unsigned step = 0; step <= n; ++step) {
		QString now = w->edit->toPlainText(); Doc d = analyse(now, pad); if (d.fields >= 2) rich = true;
		REQUIRE(w->tags->isChecked() == emph && w->pad->isChecked() == pad && w->dec->isChecked() == dec, "options are %d %d %d instead of %d %d %d", w->tags->isChecked(), w->pad->isChecked(), w->dec->isChecked(), emph, pad, dec);
		check_marks(*w, now, d, emph, sel); if (dirty && folded) { folded = false; if (auto* f = item_at()) f->setExpanded(true); } // the edit may have left the text as it was
		if (folded) { w->settle(); QTreeWidgetItem* f = item_at(); REQUIRE(f && !f->isExpanded(), "an item that was folded is shown unfolded although nothing changed"); f->setExpanded(true); }
		if (!dirty || s.chance(1, 2)) { if (dirty) { w->settle(); dirty = false; shown = now; shownpad = pad; } check_tree(*w, shown, analyse(shown, shownpad), dec); check_marks(*w, now, d, emph, sel); }
		if (folded) item_at()->setExpanded(false);
		if (step == n) break; ++steps;
		QTextCursor c = w->edit->textCursor(); int len = now.size();
		switch (s.weighted({2, 5, 3, 2, 1, 2, 2, 2, 4, 1, 1, 2})) {
			case 0: { QString t = gen_text(s); w->edit->setPlainText(t); if (s.want()) s.desc("set \"" + brief(t) + "\""); dirty = true; break; }
			case 1: { QString t = s.chance(1, 6) ? gen_odd(s) : s.chance(1, 5) ? gen_ws(s) : s.chance(1, 3) ? to_text(s, gen_tlv_input(s, true)) : q(fmt("%0*X", (int)s.range(1, 4), (unsigned)s.draw(65536))); c.setPosition((int)s.draw(len + 1)); if (s.want()) s.desc(fmt("insert at %d \"%s\"", c.position(), brief(t).c_str())); c.insertText(t); dirty = true; break; }
			case 2: { if (!len) break; int a = (int)s.draw(len), b = std::min<int>(len, a + 1 + (int)s.draw(s.chance(1, 4) ? len : 4)); c.setPosition(a); c.setPosition(b, QTextCursor::KeepAnchor); c.removeSelectedText(); if (s.want()) s.desc(fmt("delete %d..%d", a, b)); dirty = true; break; }
			case 3: w->edit->undo(); if (s.want()) s.desc("undo"); dirty = true; break;
			case 4: w->edit->redo(); if (s.want()) s.desc("redo"); dirty = true; break;
			case 5: emph = !emph; w->tags->setChecked(emph); if (s.want()) s.desc("emphasise"); break;
			case 6: pad = !pad; w->pad->setChecked(pad); if (s.want()) s.desc("padding"); shown = w->edit->toPlainText(); shownpad = pad; s.label("padding option changed"); folded = false; break;
			case 7: dec = !dec; w->dec->setChecked(dec); if (s.want()) s.desc("decode"); break;
			case 8: {
				if (dirty) { if (s.chance(1, 2)) break; w->settle(); dirty = false; shown = now; shownpad = pad; }
				Doc sd = analyse(shown, shownpad); size_t total = m_count(sd.top, dec); if (!total) break;
				size_t k = s.draw(total), k2 = k; const Node* m = m_visible(sd.top, dec, k); QTreeWidgetItem* it = Win::visible(w->tree->invisibleRootItem(), k2); if (!it) fail("the tree has fewer items than expected");
				if (s.want()) s.desc("press " + u8(m->decoded).substr(0, 60)); emit w->tree->itemPressed(it, 0); if (m->field) sel = {m->off, m->len}; break;
			}
			case 9: w->edit->clear(); if (s.want()) s.desc("clear"); dirty = true; break;
			case 11: {
				if (dirty || w->pending()) { w->settle(); dirty = false; shown = now; shownpad = pad; folded = false; } if (folded) break; std::vector<std::vector<int>> v; foldable(w->tree->invisibleRootItem(), v); if (v.empty()) break;
				path = s.pick(v); item_at()->setExpanded(false); folded = true; if (s.want()) s.desc("fold " + u8(item_at()->text(0)).substr(0, 60)); s.label("folded"); break;
			}
			default: { // close and open again: the options stay, the text and the selection do not
				if (s.want()) s.desc("reopen"); s.label("reopened"); w->w.close(); w.reset(); int o2 = s.chance(1, 4) ? s.pickl<int>({0, 2}) : -1; QString t; if (s.chance(1, 3)) t = gen_text(s); w = std::make_unique<Win>(t, o2); if (o2 >= 0) dec = o2 > 0; sel = {0, 0}; shown = ""; shownpad = pad; dirty = !t.isEmpty(); folded = false; break;
			}
		}
	}
	if (steps >= 5 && rich) s.nontrivial();
}

// ---------------------------------------------------------------- links and the command line
static std::vector<std::string>* g_opened;
bool QDesktopServices::openUrl(const QUrl& u) { if (g_opened) g_opened->push_back(u8(u.toString())); return true; } // records instead of starting a browser
VH_PROP(C41, links, 300, 20000, "mouse presses with every button at random positions of the description; non-trivial: a link is pressed") {
	fresh(); Win w; w.w.resize(900 + (int)s.draw(300), 600 + (int)s.draw(200)); w.w.show(); QCoreApplication::processEvents(); std::vector<std::string> got, exp; g_opened = &got;
	struct Off { ~Off() { g_opened = nullptr; } } off; QWidget* v = w.desc->viewport(); bool link = false;
	for (unsigned n = (unsigned)s.range(1, 12); n--;) {
		QPoint p((int)s.draw(v->width() > 0 ? v->width() : 1), (int)s.draw(v->height() > 0 ? v->height() : 1));
		if (s.chance(3, 4)) { std::vector<QPoint> at; for (int y = 2; y < v->height(); y += 6) for (int x = 2; x < v->width(); x += 9) if (!w.desc->anchorAt(QPoint(x, y)).isEmpty()) at.push_back({x, y}); if (!at.empty()) p = s.pick(at); }
		Qt::MouseButton b = s.chance(3, 4) ? Qt::LeftButton : s.chance(1, 2) ? Qt::RightButton : Qt::MiddleButton; QString a = w.desc->anchorAt(p);
		if (s.want()) s.desc(fmt("press %d at %d,%d (%s)", (int)b, p.x(), p.y(), u8(a).c_str()));
		if (b == Qt::LeftButton && !a.isEmpty()) { exp.push_back(u8(a)); link = true; }
		QMouseEvent e(QEvent::MouseButtonPress, p, v->mapToGlobal(p), b, b, Qt::NoModifier); QCoreApplication::sendEvent(v, &e);
		QMouseEvent r(QEvent::MouseButtonRelease, p, v->mapToGlobal(p), b, Qt::NoButton, Qt::NoModifier); QCoreApplication::sendEvent(v, &r);
		REQUIRE(got == exp, "after a press at \"%s\" %zu links were opened instead of %zu (%s)", u8(a).c_str(), got.size(), exp.size(), got.empty() ? "" : got.back().c_str());
	}
	if (link) s.nontrivial();
}

// The program itself: this binary is started again with VH_PROGRAM set and runs emv_viewer_main; the event loop is replaced
// by a report of what the window shows
static bool g_child;
int QApplication::exec() {
	if (!g_child) return QGuiApplication::exec();
	QWidget* top = nullptr; for (QWidget* t : QApplication::topLevelWidgets()) if (t->findChild<QPlainTextEdit*>("dataEdit")) top = t;
	if (!top) { printf("no window\n"); return 3; }
	for (int k = 0; k < 20; ++k) { bool any = false; for (QTimer* t : top->findChildren<QTimer*>()) if (t->isActive()) { t->start(0); any = true; } QCoreApplication::processEvents(); if (!any) break; }
	std::string tree; Win::dump(top->findChild<QTreeWidget*>("treeView")->invisibleRootItem(), 0, tree);
	printf("%s decode %d\n%s\n\x01\n%s", top->isVisible() ? "visible" : "hidden", top->findChild<QCheckBox*>("decodeCheckBox")->isChecked(), u8(top->findChild<QPlainTextEdit*>("dataEdit")->toPlainText()).c_str(), tree.c_str());
	fflush(stdout); return 37;
}
extern "C" int vh_program(int argc, char** argv) { g_child = true; qInstallMessageHandler(quiet); alarm(60); int r = emv_viewer_main(argc, argv); fflush(stdout); _exit(r); }

VH_PROP(C41, program, 40, 3000, "emv-viewer started with --ber, --tlv (also both, in any order and form), data paths that exist or not, an unknown option, and options saved before; what it shows is reported in place of its event loop; non-trivial: data given") {
	tool_data(); static int serial; std::string dir = fmt("%s/run%d-%d", tmpdir.c_str(), (int)getpid(), ++serial); mkdir(dir.c_str(), 0700); mkdir((dir + "/config").c_str(), 0700); mkdir((dir + "/config/OpenEMV").c_str(), 0700);
	int saved = s.pickl<int>({-1, 0, 2}); bool pad = s.chance(1, 3);
	{ FILE* f = fopen((dir + "/config/OpenEMV/emv-viewer.conf").c_str(), "w"); if (!f) abort(); fprintf(f, "[settings]\n"); if (saved >= 0) fprintf(f, "decodeCheckBox=%d\n", saved); if (pad) fprintf(f, "paddingCheckBox=2\n"); fclose(f); }
	std::vector<std::string> a{"emv-viewer"}; QString ber, tlv; bool data = s.chance(4, 5), bad = s.chance(1, 12); std::vector<std::vector<std::string>> opts;
	auto opt = [&](const char* n, const std::string& v) { if (s.chance(1, 2)) opts.push_back({std::string("--") + n + "=" + v}); else opts.push_back({std::string("--") + n, v}); };
	auto text = [&] { QString t; if (s.chance(1, 3)) return q(s.pickl<const char*>({"9F150207429F150260119F1502599", "9F1502 5999 9F1502 0742 9F1A0207105F280205285F2A020978", "E00F9F150207425F2A0208265F2D02656E"})); do t = gen_text(s); while (t.contains(QChar(0)) || t.size() > 60000); return t; };
	if (s.chance(1, 2)) { ber = text(); opt("ber", u8(ber)); } if (s.chance(1, 2)) { tlv = text(); opt("tlv", u8(tlv)); }
	if (data) { opt("isocodes-path", g_data); opt("mcc-json", g_data + "/mcc.json"); } else if (s.chance(1, 2)) opt("isocodes-path", dir + "/none");
	if (bad) opts.push_back({s.pickl<const char*>({"--tvl", "-t", "--decode", "--ber-data=00"})});
	for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[s.draw(i)]);
	for (auto& o : opts) a.insert(a.end(), o.begin(), o.end());
	if (s.want()) { std::string d = fmt("saved %d padding %d:", saved, pad); for (auto& x : a) d += " " + x; s.desc(d); }
	int o = memfd_create("o", 0), e = memfd_create("e", 0); fflush(nullptr); pid_t p = fork();
	if (!p) { dup2(o, 1); dup2(e, 2); environment(dir); setenv("VH_PROGRAM", "1", 1); setenv("LC_ALL", "C.UTF-8", 1); std::vector<char*> v; for (auto& t : a) v.push_back(&t[0]); v.push_back(nullptr); execv("/proc/self/exe", v.data()); _exit(126); }
	int st; while (waitpid(p, &st, 0) < 0) {} std::string out = slurp(o), err = slurp(e);
	std::string rm = "rm -rf '" + dir + "'"; if (system(rm.c_str())) {}
	REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) != 99 && WEXITSTATUS(st) != 98, "emv-viewer fails: %s", err.substr(0, 3000).c_str());
	if (bad) { s.label("unknown option"); REQUIRE(WEXITSTATUS(st) && WEXITSTATUS(st) != 37, "an unknown option is accepted"); return; }
	REQUIRE(WEXITSTATUS(st) == 37, "emv-viewer exits with %d: %s", WEXITSTATUS(st), err.substr(0, 2000).c_str());
	bool dec = saved > 0; QString t; if (!ber.isEmpty()) { t = ber; dec = false; } if (!tlv.isEmpty()) { t = tlv; dec = true; }
	size_t m = out.find("\n\x01\n"), l = out.find('\n'); REQUIRE(m != std::string::npos && l <= m, "no report: %s", out.substr(0, 500).c_str());
	REQUIRE(out.substr(0, l) == fmt("visible decode %d", dec), "the program shows \"%s\" instead of decode %d", out.substr(0, l).c_str(), dec);
	QString norm = q(out.substr(l + 1, m - l - 1)); { QString x = t; x.replace("\r\n", "\n"); QString y = x; y.replace(QChar(0xA0), ' '); REQUIRE(norm == x || norm == y, "the text is \"%s\" instead of \"%s\"", brief(norm).c_str(), brief(x).c_str()); }
	if (!t.isEmpty()) { s.nontrivial(); s.label(dec ? "tlv" : "ber"); }
	if (dec && !data) return;
	Doc d = analyse(norm, pad); std::string exp; m_dump(d.top, dec, 0, exp); differ("the tree of the program", norm, out.substr(m + 3), exp);
}
