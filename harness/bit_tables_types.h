// the frozen meanings of bit-mapped fields, see tools/mkbittables.py
#ifndef BIT_TABLES_TYPES_H
#define BIT_TABLES_TYPES_H
#include "vh.h"
struct BRule { char k; unsigned m, v; std::vector<int> vs; char nk; const char* t; };
struct BSeg { int b; std::vector<BRule> r; };
struct BTab { const char* name; const char* fn; vh::Bytes base; std::vector<BSeg> segs; };
static const std::vector<BTab> BITS = {
#include "bit_tables.inc"
};
#endif
