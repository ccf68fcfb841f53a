#!/usr/bin/env python3
"""Writes harness/bit_tables.inc, the frozen meanings of every bit-mapped field.

Each byte of each field is driven through all its values on the real functions, the lines it contributes are
reduced to mask rules, and the rules were then read against the EMV / M/Chip / VCPS / ISO 7816-4 tables before
they were committed. The checks use only the committed file; this tool documents where it came from.
Usage: mkbittables.py LIB.so > harness/bit_tables.inc   (LIB.so: the strings library built shared)"""
import ctypes, itertools, random, re, sys
L = ctypes.CDLL(sys.argv[1])
def lst(fn, onebyte):
    f = getattr(L, fn)
    def g(b):
        s = ctypes.create_string_buffer(16384)
        r = f(ctypes.c_uint8(b[0]), s, ctypes.c_size_t(16384)) if onebyte else f(bytes(b), ctypes.c_size_t(len(b)), s, ctypes.c_size_t(16384))
        if r: return None
        t = s.value.decode('latin1')
        return t.rstrip('\n').split('\n') if t else []
    return g
A = list(range(256)); I = []
def inst(name, fn, base, free, onebyte=False, allowed={}): I.append((name, fn, list(base), list(free), onebyte, allowed))
inst('term_type','emv_term_type_get_string_list',[0x22],[0],True,{0:A[1:]})
inst('term_caps','emv_term_caps_get_string_list',[0]*3,range(3))
inst('addl_term_caps','emv_addl_term_caps_get_string_list',[0x80]+[0]*4,range(5),False,{0:A[1:]})
inst('aip','emv_aip_get_string_list',[0]*2,range(2))
inst('auc','emv_app_usage_control_get_string_list',[0]*2,range(2))
inst('tvr','emv_tvr_get_string_list',[0]*5,range(5))
inst('tsi','emv_tsi_get_string_list',[0]*2,range(2))
inst('cid','emv_cid_get_string_list',[0],[0],True)
inst('trmd','emv_terminal_risk_management_data_get_string_list',[0]*8,range(8))
inst('ttq','emv_ttq_get_string_list',[0]*4,range(4))
inst('ctq','emv_ctq_get_string_list',[0]*2,range(2))
inst('amex_caps','emv_amex_cl_reader_caps_get_string',[0],[0],True)
inst('ffi1','emv_visa_form_factor_indicator_get_string_list',[0x20,0,0,0],range(4),False,{0:[v for v in A if v>>5==1]})
inst('amex_enh','emv_amex_enh_cl_reader_caps_get_string_list',[0]*4,range(4))
inst('iad_ccd','emv_iad_get_string_list',[0x0F,0xA5]+[0]*14+[0x0F]+[0]*15,list(range(1,16))+list(range(17,32)),False,{1:[0xA5,0xA6]})
for n,nm in ((18,'iad_mchip4'),(20,'iad_mchipadv20'),(26,'iad_mchipadv26'),(28,'iad_mchipadv28')):
    inst(nm,'emv_iad_get_string_list',[0,0x10]+[0]*(n-2),range(n),False,{1:[0x10,0x11,0x14,0x15]})
for f in (0,1,3): inst('iad_vsdc%d'%f,'emv_iad_get_string_list',[6,0,f<<4,3,0,0,0],[1,2,4,5,6],False,{2:[v for v in A if v>>4==f]})
for f in (2,4): inst('iad_vsdc%d'%f,'emv_iad_get_string_list',[0x1F,f<<4,0]+[0]*29,range(1,32),False,{1:[v for v in A if v>>4==f],8:list(range(16))})
inst('card_service','iso7816_card_service_data_get_string_list',[0],[0],True)
for n in (1,2,3): inst('card_caps%d'%n,'iso7816_card_capabilities_get_string_list',[0]*n,range(n),False,{2:[v for v in A if v&0x18!=0x18]})
# number formats: (kind, generalised text, value function)
def numtext(t):
    """returns (kind, format) for a line that carries a number, given the byte value is known by the caller"""
    for rx, fm in ((r'^(Derivation Key Index \(DKI\): )[0-9A-F]{2}$', r'\1%02X'),
                   (r'^(Cryptogram Version Number \(CVN\): )[0-9A-F]{2}$', r'\1%02X'),
                   (r"^(Cryptogram Version Number \(CVN\): )[0-9A-F]{2} \(CVN'[0-9A-F]{2}'\)$", r"\1%02X (CVN'%02X')"),
                   (r'^(Cryptogram Version Number \(CVN\): )[0-9A-F]{2} \(CVN\d+\)$', r'\1%02X (CVN%02u)'),
                   (r'^(Card Verification Results \(CVR\): (?:PIN Try|Script) Counter is )\d+$', r'\1%u'),
                   (r'^(Card Verification Results \(CVR\): )\d+( Successfully Processed.*)$', r'\1%u\2'),
                   (r'^(Data unit size: )\d+( bytes)$', r'\1%u\2'),
                   (r'^(Maximum number of logical channels: )\d+$', r'\1%u')):
        m = re.match(rx, t)
        if m: return re.sub(rx, fm, t)
    return None
def value(kind, v): return {'v': v, 'h': v >> 4, 'l': v & 15, 'p': 1 << max((v & 15) - 1, 0), 'c': (v & 7) + 1}[kind]
def rend(fm, kind, v):
    x = value(kind, v)
    return fm % ((x, x) if fm.count('%') == 2 else (x,))
def mask_eq(S, vals):
    m = 0xFF; v0 = min(S); vs = set(vals); S = set(S)
    for v in S: m &= ~(v ^ v0) & 0xFF
    if {v for v in vs if v & m == v0 & m} != S: return None
    for b in range(8):
        k = m & ~(1 << b)
        if k != m and {v for v in vs if v & k == v0 & k} == S: m = k
    return m, v0 & m
def q(t): return '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'
out = []
for name, fn, base, free, one, allowed in I:
    call = lst(fn, one); B = call(base); assert B is not None, name
    segs = []
    for i in free:
        vals = sorted(allowed.get(i, A)); var = {}
        for v in vals:
            b = list(base); b[i] = v; var[v] = call(b); assert var[v] is not None, (name, i, hex(v))
        f0 = var[vals[0]]
        p = min(next((k for k in range(min(len(f0), len(o))) if o[k] != f0[k]), min(len(f0), len(o))) for o in var.values())
        s = min(len(o) for o in var.values()) - p
        s = min(next((k for k in range(min(s, len(o) - p)) if o[len(o)-1-k] != f0[len(f0)-1-k]), min(s, len(o) - p)) for o in var.values())
        mid = {v: var[v][p:len(var[v])-s] for v in vals}
        if not any(mid.values()): continue
        # rules
        key = lambda t: numtext(t) or t
        order = []; succ = {}
        for o in mid.values():
            ks = [key(t) for t in o]; assert len(set(ks)) == len(ks), (name, i, ks)
            for a, b in itertools.combinations(ks, 2): succ.setdefault(a, set()).add(b)
            for k in ks:
                if k not in order: order.append(k)
        done = []
        while order:
            k = next(k for k in order if not any(k in succ.get(j, ()) for j in order if j != k)); done.append(k); order.remove(k)
        rules = []
        for k in done:
            S = [v for v in vals if any(key(t) == k for t in mid[v])]
            cond = None; r = mask_eq(S, vals)
            C = [v for v in vals if v not in set(S)]
            if not C: cond = ("'A'", 0, 0)
            elif r: cond = ("'E'",) + r
            else:
                r = mask_eq(C, vals)
                if r: cond = ("'X'",) + r
                else:
                    # "else" rules: none of the previous lines of the same group of bits
                    m = 0
                    for bit in range(8):
                        if any((v ^ 1 << bit) in vals and ((v in S) != ((v ^ 1 << bit) in S)) for v in vals): m |= 1 << bit
                    fs = sorted({v & m for v in S}); assert {v for v in vals if v & m in fs} == set(S)
                    cond = ("'V'", m, fs)
            if '%' in k and k != next(t for t in mid[S[0]] if key(t) == k):
                kinds = [c for c in 'vhlpc' if all(rend(k, c, v) in mid[v] for v in S)]
                assert kinds, (name, i, k)
                nk = kinds[0]
            else: nk = '-'
            rules.append((cond, nk, k))
        segs.append((p, len(B) - s, i, rules))
    # lines not owned by any byte are fixed
    owned = set()
    for p, e, i, r in segs: owned |= set(range(p, e))
    items = [(p, 1 + i, 'b', i, r) for p, e, i, r in segs] + [(n, -1, 'f', n, None) for n in range(len(B)) if n not in owned]
    items.sort(key=lambda x: (x[0], x[1]))
    out.append('{ "%s", "%s", { %s }, {' % (name, fn, ', '.join('0x%02X' % x for x in base)))
    for i in sorted(set(range(len(base)))):
        vals = allowed.get(i, A if i in free else [base[i]])
        if len(vals) == 256 : continue
    for p, _, k, i, r in items:
        if k == 'f': out.append(' { -1, { { \'A\', 0, 0, {}, \'-\', %s } } },' % q(B[i])); continue
        out.append(' { %d, {' % i)
        for c, nk, t in r:
            if c[0] == "'V'": out.append("  { 'V', 0x%02X, 0, { %s }, '%s', %s }," % (c[1], ', '.join(map(str, c[2])), nk, q(t)))
            else: out.append("  { %s, 0x%02X, 0x%02X, {}, '%s', %s }," % (c[0], c[1], c[2], nk, q(t)))
        out.append(' } },')
    out.append('} },')
print('// generated by tools/mkbittables.py and reviewed; kind, mask, value, values, number kind, text')
print('\n'.join(out))
