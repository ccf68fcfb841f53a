#!/usr/bin/env python3
"""Content-addressed build of the harness binaries from /repo's working tree.

Objects are keyed by a hash of compiler flags, the source text and the text of
every header they could include, so a stale object can never be used and file
times do not matter."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,function,vptr", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-g1", "-O1", "-w", "-fexceptions"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]
REPOFLAGS = ["-ftrivial-auto-var-init=pattern", "-D_GNU_SOURCE", "-DEMV_DEBUG_ENABLED"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"))]

CONFIG_H = """#ifndef EMV_UTILS_CONFIG_H
#define EMV_UTILS_CONFIG_H
#define EMV_UTILS_VERSION_STRING "harness"
#define HAVE_TIME_H 1
#define HAVE_TIMESPEC_GET 1
#define HAVE_CLOCK_GETTIME 1
#define HAVE_ARPA_INET_H 1
#define ISOCODES_JSON_PATH "/usr/share/iso-codes/json/"
#define MCC_JSON_BUILD_PATH ""
#define MCC_JSON_INSTALL_PATH ""
#endif
"""

def read(p):
    with open(p, "rb") as f: return f.read()

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        m.update(len(p).to_bytes(8, "big")); m.update(p)
    return m.hexdigest()[:24]

# how the same sources are compiled: asan = sanitizers and coverage counters; mc = nothing added, to run under valgrind
# memcheck (stack variables stay uninitialised); tsan = ThreadSanitizer
VARIANTS = {
    "asan": dict(repo=SAN + REPOFLAGS[:1] + ["-D_GLIBCXX_ASSERTIONS"], harness=["-fsanitize=address", "-fno-omit-frame-pointer"], link=SAN, cov=True),
    "mc": dict(repo=["-fno-omit-frame-pointer"], harness=["-fno-omit-frame-pointer"], link=[], cov=False),
    "tsan": dict(repo=["-fsanitize=thread", "-fno-omit-frame-pointer"], harness=["-fsanitize=thread", "-fno-omit-frame-pointer"], link=["-fsanitize=thread"], cov=False),
}

class Builder:
    def __init__(self, variant="asan"):
        self.v = VARIANTS[variant]; self.variant = variant
        os.makedirs(os.path.join(B, "obj"), exist_ok=True); os.makedirs(os.path.join(B, "bin"), exist_ok=True); os.makedirs(os.path.join(B, "inc"), exist_ok=True)
        cfg = os.path.join(B, "inc", "emv_utils_config.h")
        if not os.path.exists(cfg) or read(cfg).decode() != CONFIG_H:
            with open(cfg + ".%d" % os.getpid(), "w") as f: f.write(CONFIG_H)
            os.replace(cfg + ".%d" % os.getpid(), cfg)
        hdrs = sorted(glob.glob(R + "/src/*.h") + glob.glob(R + "/src/*.in") + glob.glob(R + "/tools/*.h") + glob.glob(V + "/harness/*.h") + glob.glob(V + "/harness/*.inc"))
        # a .c file may be included by another one; hash all sources of the directory with the headers
        self.hh_repo = h(*[x for p in hdrs if p.startswith(R) for x in (os.path.relpath(p, R), read(p))], CONFIG_H)
        self.hh_all = h(self.hh_repo, *[x for p in hdrs if p.startswith(V) for x in (os.path.relpath(p, V), read(p))])
        self.pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
        self.futs = {}
        self.used = []

    def obj(self, src, flags=(), repo=True, cov=True, dep=""):
        cxx = src.endswith((".cc", ".cpp"))
        cc = "clang++" if cxx else "clang"
        fl = list(COMMON) + self.v["repo" if repo else "harness"] + (["-std=c++17"] if cxx else ["-std=gnu11"])
        if repo: fl += REPOFLAGS[1:] + (COV if cov and self.v["cov"] else [])
        fl += list(flags) + ["-I" + R + "/src", "-I" + R + "/tools", "-I" + os.path.join(B, "inc"), "-I" + V + "/harness"]
        key = h(cc, " ".join(fl), read(src), self.hh_repo if repo else self.hh_all, os.path.basename(src), *([dep] if dep else []))
        out = os.path.join(B, "obj", key + ".o")
        self.used.append(out)
        if key not in self.futs: self.futs[key] = self.pool.submit(self._cc, cc, fl, src, out)
        return key, out

    def _cc(self, cc, fl, src, out):
        if os.path.exists(out): return
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([cc] + fl + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise RuntimeError("compile failed: %s\n%s" % (src, r.stdout.decode(errors="replace")[:6000]))
        os.replace(tmp, out)

    def link(self, name, objs, libs=(), wrap=True):
        for k, _ in objs: self.futs[k].result()
        fl = list(self.v["link"]) + (WRAP if wrap else []) + list(libs)
        key = h(name, " ".join(fl), *[k for k, _ in objs])
        out = os.path.join(B, "bin", name + "-" + key)
        self.used.append(out)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run(["clang++"] + [o for _, o in objs] + fl + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise RuntimeError("link failed: %s\n%s" % (name, r.stdout.decode(errors="replace")[:6000]))
            os.replace(tmp, out)
        return out

def src(n): return R + "/src/" + n
def extra_sources(prefixes, known):
    """sources that a refactoring may have added next to the known ones"""
    out = []
    for p in sorted(glob.glob(R + "/src/*.c")):
        b = os.path.basename(p)
        if b not in known: out.append(b)
    return out
CORE = ["iso8825_ber.c", "iso7816.c", "iso7816_compact_tlv.c", "iso7816_strings.c", "emv.c", "emv_app.c", "emv_debug.c", "emv_dol.c", "emv_fields.c", "emv_tal.c", "emv_tlv.c", "emv_ttl.c"]
STRINGS = ["emv_strings.c"]
OTHER = ["iso8859_iconv.c", "iso8859_simple.c", "pcsc.c"]

# property -> (harness sources, groups)
BINARIES = {
    "tlv":   dict(files=["p_tlv.cc"], groups=["core"]),
    "card":  dict(files=["p_card.cc"], groups=["core"]),
    "ttl":   dict(files=["p_ttl.cc"], groups=["core"]),
    "str":   dict(files=["p_str.cc", "p_args.cc"], groups=["core", "strings"]),
    "enc":   dict(files=["p_enc.cc"], groups=["core", "strings", "iso8859alt"]),
    "print": dict(files=["p_print.cc"], groups=["core", "strings", "tools"]),
    "tool":  dict(files=["p_tool.cc"], groups=["core", "strings", "tool"], flags=["-I/usr/include/PCSC"]),
    "view":  dict(files=["p_view.cc"], groups=["core", "strings", "viewer"]),
    "pcsc":  dict(files=["p_pcsc.cc"], groups=["pcsc"], flags=["-I/usr/include/PCSC"]),
}
THREADED = ["tlv", "ttl", "card", "str", "enc"]
PROPS = {}
for _b, _ids in {
    "tlv": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12",
    "ttl": "C13 C14 C15",
    "card": "C16 C17 C18 C19 C20 C21 C22 C23 C32 C36",
    "str": "C24 C25 C26 C27 C28 C34 C42",
    "enc": "C29 C30",
    "print": "C31",
    "pcsc": "C33",
    "tool": "C35",
    "view": "C39 C40 C41",
}.items():
    for _i in _ids.split(): PROPS[_i] = _b
PROPS["C37"] = PROPS["C38"] = "tlv" # and all others, see check.py

QT = "/usr/include/x86_64-linux-gnu/qt5"
QTFLAGS = ["-fPIC", "-I" + QT] + ["-I%s/%s" % (QT, m) for m in ("QtCore", "QtGui", "QtWidgets")] + ["-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB"]
def viewer():
    """generated sources of the Qt viewer: (include directory, meta-object sources, hash of headers and forms)"""
    hs = sorted(glob.glob(R + "/viewer/*.h") + glob.glob(R + "/viewer/*.ui") + glob.glob(R + "/viewer/*.in"))
    key = h(*[x for p in hs for x in (os.path.basename(p), read(p))]); g = os.path.join(B, "gen", key); mocs = []
    if not os.path.exists(g + "/done"):
        os.makedirs(g, exist_ok=True)
        with open(g + "/emv_viewer_config.h", "w") as f: f.write('#define EMV_VIEWER_VERSION_STRING "harness"\n')
        for p in hs:
            n = os.path.splitext(os.path.basename(p))[0]
            if p.endswith(".ui"): subprocess.run(["uic", p, "-o", "%s/ui_%s.h" % (g, n)], check=True)
            elif p.endswith(".h") and b"Q_OBJECT" in read(p): subprocess.run(["moc", "-f" + n + ".h", p, "-o", "%s/moc_%s.cpp" % (g, n)], check=True)
        open(g + "/done", "w").close()
    return g, sorted(glob.glob(g + "/moc_*.cpp")), key

def build(name, variant="asan"):
    b = Builder(variant); d = BINARIES[name]
    if "viewer" in d["groups"]:
        vg, vmocs, vkey = viewer(); vflags = QTFLAGS + ["-I" + R + "/viewer", "-I" + vg]; d = dict(d, flags=vflags)
    objs = [b.obj(V + "/harness/vh.cc", repo=False)]
    for f in d["files"]: objs.append(b.obj(V + "/harness/" + f, d.get("flags", ()), repo=False, dep=vkey if "viewer" in d["groups"] else ""))
    libs = []
    g = d["groups"]
    if "core" in g:
        objs.append(b.obj(V + "/harness/shim.c"))
        for s in CORE + extra_sources(None, set(CORE + STRINGS + OTHER)):
            if os.path.exists(src(s)): objs.append(b.obj(src(s)))
        objs.append(b.obj(src("iso8859_boost.cpp")))
        libs += ["-lboost_locale"]
    if "strings" in g:
        for s in STRINGS: objs.append(b.obj(src(s)))
        objs.append(b.obj(src("isocodes_lookup.cpp"))); objs.append(b.obj(src("mcc_lookup.cpp")))
        libs += ["-ljson-c"]
    if "iso8859alt" in g:
        for n in ("iconv", "simple"):
            objs.append(b.obj(src("iso8859_%s.c" % n), ["-Diso8859_is_supported=%s_iso8859_is_supported" % n, "-Diso8859_to_utf8=%s_iso8859_to_utf8" % n]))
    if "tools" in g:
        objs.append(b.obj(R + "/tools/print_helpers.c"))
        objs.append(b.obj(R + "/tools/emv-decode.c", ["-Dmain=emv_decode_main", "-Dexit=vh_tool_exit"]))
    if "tool" in g:
        objs.append(b.obj(R + "/tools/print_helpers.c"))
        objs.append(b.obj(R + "/tools/emv-tool.c", ["-Dmain=emv_tool_main", "-Dexit=vh_tool_exit", "-Dtime(x)=vh_time(x)", "-I/usr/include/PCSC"]))
        objs.append(b.obj(src("pcsc.c"), ["-DUSE_PCSCLITE", "-DHAVE_ARPA_INET_H=1", "-I/usr/include/PCSC"]))
    if "viewer" in g:
        for p in sorted(glob.glob(R + "/viewer/*.cpp")): objs.append(b.obj(p, vflags + ["-Dmain=emv_viewer_main"], dep=vkey))
        for p in vmocs: objs.append(b.obj(p, vflags, dep=vkey, cov=False))
        libs += ["-lQt5Widgets", "-lQt5Gui", "-lQt5Core"]
    if "pcsc" in g:
        objs.append(b.obj(src("pcsc.c"), ["-DUSE_PCSCLITE", "-DHAVE_ARPA_INET_H=1", "-I/usr/include/PCSC"]))
        for s in ("iso7816.c", "iso7816_compact_tlv.c", "iso8825_ber.c"): objs.append(b.obj(src(s)))
    out = b.link(name if variant == "asan" else name + "." + variant, objs, libs, wrap=variant != "tsan")
    return out

def prune(maxbytes=600 << 20):
    fs = []
    for d in ("obj", "bin"):
        for p in glob.glob(os.path.join(B, d, "*")):
            try: st = os.stat(p); fs.append((st.st_mtime, st.st_size, p))
            except OSError: pass
    tot = sum(s for _, s, _ in fs)
    for _, s, p in sorted(fs):
        if tot <= maxbytes: break
        try: os.unlink(p); tot -= s
        except OSError: pass

if __name__ == "__main__":
    names = sys.argv[1:] or list(BINARIES)
    if names == ["--available"]: names = [n for n in BINARIES if all(os.path.exists(V + "/harness/" + f) for f in BINARIES[n]["files"])]
    for n in names:
        print(n, build(n), build(n, "mc"), *([build(n, "tsan")] if n in THREADED else []))
    prune()
