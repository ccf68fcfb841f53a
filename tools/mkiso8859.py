#!/usr/bin/env python3
# ISO 8859 tables (code point per octet, 0 = not assigned) from Python's own codecs
import sys
out = ["// generated by tools/mkiso8859.py from Python's codecs", "static const unsigned short ISO8859[17][256] = {"]
for n in range(17):
    row = []
    for b in range(256):
        cp = 0
        if n and n != 12:
            try: cp = ord(bytes([b]).decode("iso8859-%d" % n))
            except UnicodeDecodeError: cp = 0
        row.append("0x%X" % cp)
    out.append("\t{" + ",".join(row) + "},")
out.append("};")
open(sys.argv[1] if len(sys.argv) > 1 else "harness/iso8859_table.inc", "w").write("\n".join(out) + "\n")
