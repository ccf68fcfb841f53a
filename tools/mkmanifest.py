#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property whose harness file is present and registers it."""
import json, os, re, glob, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("generated BER data vs independent decoder (differential), complete small-input enumeration", "all inputs of up to two octets are enumerated; longer ones are sampled up to about 500 octets"),
 "C02": ("generated TLV trees and damaged encodings vs reference flattening", "sampled trees up to depth 60 and about 300 fields"),
 "C03": ("generated object identifiers vs reference arc decoder; enumeration of tags", "identifiers with a redundant leading 80 octet, which X.690 forbids, may be accepted or refused"),
 "C04": ("generated and enumerated COMPACT-TLV strings vs reference splitter", "sampled beyond the enumerated short strings"),
 "C05": ("stateful model-based histories over several lists with allocation tracking", "histories up to the stated length"),
 "C06": ("generated round-trip and reference conversions under all buffer sizes", "sampled values, enumerated small fields"),
 "C07": ("generated DOLs, sources and capacities vs reference builder", "sampled"),
 "C08": ("generated and enumerated AFL and CVM List fields vs reference enumeration", "sampled beyond the enumerated entries"),
 "C09": ("generated identifiers around registered prefixes vs frozen registry table", "sampled; registry as of this revision"),
 "C10": ("generated ATRs vs independent ISO 7816-3 model, enumerated interface bytes", "ATRs repeating an interface byte for one protocol and reserved class 5 are not judged; bytes after the end are ignored"),
 "C11": ("generated near-valid ATRs vs independent EMV Level 1 rule model", "as C10"),
 "C12": ("generated and enumerated commands vs ISO 7816-3 case equations; all status words", "extended commands sampled"),
 "C13": ("model-based card simulator in APDU mode, generated answer sequences", "sampled; endless 61xx chains without data are not judged"),
 "C14": ("model-based T=0 card simulator with generated procedure byte schedules", "sampled; endless 61xx chains without data are not judged"),
 "C15": ("generated parameters vs reference command encoder over a recording card", "sampled, complete for small parameter domains"),
 "C16": ("generated card contents vs reference candidate-list model", "sampled cards; selections that never end are not generated"),
 "C17": ("generated directory entries and FCIs vs reference application model", "sampled"),
 "C18": ("stateful model-based histories over application lists", "histories up to the stated length"),
 "C19": ("generated candidate lists and card answers vs reference outcome model", "sampled"),
 "C20": ("generated applications, PDOLs, data sources and responses vs reference model", "sampled"),
 "C21": ("generated AFLs and record stores vs reference reading model", "sampled"),
 "C22": ("stateful fuzzing of whole sessions with hostile cards and transport faults under sanitizers", "sampled histories"),
 "C23": ("systematic allocation-fault injection over generated operations", "every allocation index of each generated operation is failed, operations are sampled"),
 "C24": ("every text function over generated values and all buffer sizes; prefix metamorphic relation", "sampled values, all sizes around the result length"),
 "C25": ("bit-wise metamorphic relation and frozen meaning tables over generated field values", "one-byte fields complete, others sampled"),
 "C26": ("generated structured values vs reference renderings", "sampled"),
 "C27": ("generated tags and values vs frozen tag table and dedicated functions", "known tags complete, values sampled"),
 "C28": ("generated commands and all status words vs reference descriptions", "sampled commands, all status words"),
 "C29": ("generated text vs independent code tables for three implementations, all output sizes", "all single bytes of all parts, strings sampled"),
 "C30": ("generated data files and lookups vs reference map", "sampled files; the installed files completely"),
 "C31": ("generated tool inputs vs reference printer over captured output", "sampled"),
 "C32": ("generated configurations vs filter model; session differential with tracing on and off", "sampled"),
 "C33": ("scripted fake PC/SC service with generated behaviours vs reference model", "sampled"),
 "C34": ("generated text vs reference parser and round trip", "sampled"),
}
T["C35"] = ("whole runs of the command against generated readers, cards, faults, options and prompt input vs a reference driver over the same library (differential)", "sampled; white space, signs or text around an otherwise valid prompt answer and the exit code of a started transaction are not judged")
T["C36"] = ("generated cards, responses, AFLs and faults vs a reference table of result codes and list contents", "sampled; result for a foreign record outside the records for offline data authentication, and list contents added before an error, are not judged")
T["C37"] = ("the generators of all other checks run under valgrind memcheck; the oracle is memcheck's definedness of every branch, address and compared output", "sampled; enumerations are sampled")
T["C38"] = ("generated cases of the other checks run in two to four threads (stateful sessions included) under ThreadSanitizer; same oracle as alone (differential)", "sampled inputs and schedules; code tables and tracing configured before the threads start; emv-tool, emv-decode and the PC/SC layer are not run in threads")
T["C39"] = ("generated texts entered in the viewer's window (offscreen Qt) vs a reference tree", "sampled texts up to a few thousand characters and 300 levels; value explanations are taken from the library (C24 to C28 judge them)")
T["C40"] = ("generated texts, options and pressed fields vs reference marks per character", "sampled; the marks of white space, and whether digits after a foreign character count for a selection, are not judged")
T["C41"] = ("stateful model-based histories of edits, options, presses and sessions; generated command lines of the program run with its event loop replaced by a report", "sampled histories up to 25 steps; positions and sizes of the window are not judged")
T["C42"] = ("generated calls of every library function with subsets of the required arguments missing and the others generated, against the documented refusal", "sampled; functions taking code strings (isocodes, mcc lookups) and contradictory arguments (no buffer but a length) are not judged")
have = {"C37", "C38"}
for f in glob.glob(V + "/harness/p_*.cc"):
    have |= set(re.findall(r"VH_(?:PROP|ENUM)\((C\d\d),", open(f).read()))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 build.py --available", checks=[], not_applicable=[],
         notes="No hooks in /repo. check.py builds /repo's sources with sanitizers into build/ (content addressed) and runs the property's generators in 8 worker processes; VERIF_SEED selects the random stream. check.py --replay FILE runs a saved case again.")
for i in ids:
    if i in have:
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique="property-based testing: " + T[i][0], level="exploration", level_note=T[i][1]))
    else: m["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed")
