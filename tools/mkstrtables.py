#!/usr/bin/env python3
"""Writes harness/str_tables.inc: the frozen names, descriptions and formats of every EMV tag, the authorisation
response codes and the device types. The texts come from the library as it was read and reviewed; which kind of
value each tag has (third column) is written down here by hand. The checks use only the committed file.
Usage: mkstrtables.py LIB.so EMV_STRINGS.C > harness/str_tables.inc"""
import ctypes, re, sys
L = ctypes.CDLL(sys.argv[1]); src = open(sys.argv[2]).read()
class T(ctypes.Structure): _fields_ = [("tag", ctypes.c_uint), ("length", ctypes.c_uint), ("value", ctypes.c_char_p), ("flags", ctypes.c_uint8), ("next", ctypes.c_void_p)]
class I(ctypes.Structure): _fields_ = [("name", ctypes.c_char_p), ("desc", ctypes.c_char_p), ("format", ctypes.c_int)]
KIND = {
 '42': 'n6', '4F': 'aid', '9F06': 'aid', '50': 'sp16', '56': 'ans76', '57': 'track2', '5A': 'cn19', '81': 'amount', '9F04': 'amount', '9F1B': 'amount', '9F3A': 'amount',
 '82': 'aip', '84': 'dfname', '86': 'capdu', '89': 'ans6', '8A': 'arc', '8E': 'cvmlist', '91': 'issuerauth', '94': 'afl', '95': 'tvr', '9F0D': 'tvr', '9F0E': 'tvr', '9F0F': 'tvr',
 '9A': 'date', '5F24': 'date', '5F25': 'date', '9B': 'tsi', '9C': 'txntype', '5F20': 'ans26', '5F28': 'country', '9F1A': 'country', '5F2A': 'currency', '9F3C': 'currency', '9F42': 'currency',
 '5F2D': 'languages', '5F30': 'n3', '5F50': 'ans0', '9F1F': 'ans0', '9F4E': 'ans0', '5F53': 'an34', '5F54': 'an11', '5F55': 'alpha2', '5F56': 'alpha3', '5F57': 'account', '9F01': 'n11',
 '9F02': 'n12', '9F03': 'n12', '9F07': 'auc', '9F0A': 'asrpd', '9F0B': 'ans45', '9F0C': 'n8', '9F10': 'iad', '9F12': 'verbatim16', '9F15': 'mcc', '9F16': 'ans15', '9F1C': 'an8', '9F1E': 'an8',
 '9F1D': 'trmd', '9F20': 'cn0', '9F21': 'time', '9F24': 'an29', '9F25': 'n4', '9F27': 'cid', '9F33': 'term_caps', '9F34': 'cvmresults', '9F35': 'term_type', '9F39': 'posentry', '9F3B': 'refcurrencies',
 '9F40': 'addl_term_caps', '9F41': 'n8', '9F6C': 'ctq',
}
q = lambda b: '"' + b.decode().replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
print("// generated by tools/mkstrtables.py and reviewed\nstruct TagRow { unsigned tag; int format; const char* kind; const char* name; const char* desc; };\nstatic const TagRow TAGS[] = {")
for t in [int(x, 16) for x in re.findall(r'0x([0-9A-Fa-f]+)', open(__file__.replace('tools/mkstrtables.py', 'harness/emv_tags.inc')).read())]:
    k = '%X' % t
    if k in ('9F66', '9F6D', '9F6E'): continue
    v = T(t, 0, None, 0, None); i = I(); L.emv_tlv_get_info(ctypes.byref(v), ctypes.byref(i), None, 0)
    print('\t{0x%s, %d, "%s", %s, %s},' % (k, i.format, KIND.get(k, ''), q(i.name), q(i.desc)))
for t, kind, val in ((0x9F66, 'ttq', bytes(4)), (0x9F6D, 'amex_caps', bytes(1)), (0x9F6E, 'tpd', bytes(5)), (0x9F6E, 'ffi', bytes([0x20, 0, 0, 0])), (0x9F6E, 'amex_enh', bytes([0x18, 0x80, 0, 1]))):
    v = T(t, len(val), val, 0, None); i = I(); L.emv_tlv_get_info(ctypes.byref(v), ctypes.byref(i), None, 0)
    print('\t{0x%X, %d, "%s", %s, %s},' % (t, i.format, kind, q(i.name), q(i.desc)))
print("};")
for n, m in (("ARC_DESC", "emv_auth_response_code_map"), ("DEVICE_TYPE", "emv_mastercard_device_type_map")):
    body = re.search(m + r'\[\] = \{(.*?)\n\};', src, re.S).group(1)
    print("static const struct { const char* code; const char* text; } %s[] = {" % n)
    for a, b in re.findall(r'^\t\{ ("..?"), (".*") \},', body, re.M): print("\t{%s, %s}," % (a, b))
    print("};")
