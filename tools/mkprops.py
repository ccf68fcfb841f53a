#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = [observe]
    P.append(d)

p("C01", "BER-TLV decoding is exact and stays inside the input",
  "Decoding any byte string as one BER-TLV element yields exactly the tag, class/constructed flags, length and content that X.690 assigns to it (all tag forms up to four octets, short, long and indefinite lengths) and a consumed count that covers the whole element, including an end-of-contents marker. Input that is truncated, over-long for the supported field sizes or otherwise not a complete element is reported as an error and never as data; empty input is end of data. No octet outside the given length is read or returned.",
  ["inputs"], "every byte string of every length, well formed or not, including nested indefinite-length elements",
  "the existing suite never decodes BER directly; the space of tag/length encodings and truncation points is unbounded",
  ["src/iso8825_ber.c", "src/iso8825_ber.h"],
  [("tag decode", "iso8825_ber_tag_decode"), ("element decode", "iso8825_ber_decode"), ("iteration", "iso8825_ber_itr_next")])
p("C02", "Parsing EMV data yields every primitive field once, in order",
  "Parsing encoded EMV data gives a flat list holding every primitive field of the data, at any nesting depth, exactly once, in the order of appearance and with its exact tag, length and value, and no template fields. The list owns copies: later changes to the input do not alter it. When the data is malformed the parse reports failure instead of success, and the fields listed before the failure are those that precede the malformed element.",
  ["inputs"], "every tree of TLV fields and every corruption or truncation of its encoding",
  "tests parse a handful of fixed card responses; nesting, long lengths, repeated tags and every truncation point are not sampled",
  ["src/emv_tlv.c", "src/iso8825_ber.c"],
  [("recursive flattening", "emv_tlv_parse"), ("copying push", "emv_tlv_list_push")])
p("C03", "Object identifiers and ASN.1 string types decode as X.690 defines",
  "Decoding the content octets of an object identifier yields exactly its arcs, in order, whenever they fit the output structure, and content that does not fit or ends in the middle of an arc is refused rather than misreported or written past the output. An element is reported as text exactly when its tag is one of the ASN.1 character or time string types.",
  ["inputs"], "every octet string given as object identifier content and every tag",
  "no test decodes an object identifier; arc widths and counts form an unbounded space",
  ["src/iso8825_ber.c"], [("oid decode", "iso8825_ber_oid_decode"), ("string test", "iso8825_ber_is_string")])
p("C04", "Compact-TLV data is split exactly and never read past its end",
  "Walking a COMPACT-TLV byte string (as used by ATR historical bytes) gives each element's tag nibble, length nibble and value in order until the data ends, and an element whose value is not completely present is an error. Each known tag has its own name and every other tag is reported as unknown.",
  ["inputs"], "every byte string",
  "no test iterates COMPACT-TLV data",
  ["src/iso7816_compact_tlv.c"], [("decode", "iso7816_compact_tlv_decode"), ("iterate", "iso7816_compact_tlv_itr_next")])
p("C05", "TLV lists behave as a queue of owned fields with first-match lookup",
  "For any history of pushes, pops, lookups, appends, duplicate checks and clears over several lists, each list holds exactly the fields that a first-in first-out model holds, in order and with unchanged content; lookup returns the first field with the tag or nothing, the duplicate check is true exactly when a tag occurs twice, and append moves all fields and empties the source. Fields are copied on push, nothing is freed twice or still reachable after it is freed, and once every list is cleared no memory remains allocated.",
  ["histories"], "every sequence of operations on any number of lists",
  "tests only push and clear in fixed orders; list invariants (front/back) break only for particular sequences",
  ["src/emv_tlv.c"], [("push/pop/append", "emv_tlv_list_push, emv_tlv_list_pop, emv_tlv_list_append"), ("lookup", "emv_tlv_list_find"), ("duplicates", "emv_tlv_list_has_duplicate")])
p("C06", "EMV number and text format conversions are exact and reversible",
  "Converting unsigned integers to and from the EMV formats n (packed decimal, right justified, zero padded) and b (big endian) is exact, and converting back gives the original value whenever it fits the field; a non-decimal digit in format n is a parse error. Filtering format ans text keeps exactly the allowed characters in order, hexadecimal rendering of binary data is the upper-case hex digits in order, and every text result is NUL terminated and truncated, never overrun, when the output buffer is small.",
  ["inputs"], "all 32-bit values, all buffer lengths, all byte strings and all output sizes",
  "value/length/size combinations are far more than sampled",
  ["src/emv_tlv.c"], [("n", "emv_uint_to_format_n, emv_format_n_to_uint"), ("b", "emv_uint_to_format_b, emv_format_b_to_uint"), ("ans", "emv_format_ans_to_non_control_str, emv_format_ans_to_alnum_space_str"), ("hex", "emv_format_b_to_str")])
p("C07", "Data Object Lists are decoded and filled in by the EMV rules",
  "A Data Object List decodes into its tag/length entries in order, malformed lists are errors, and the computed data length is the sum of the entry lengths. The data built for a list is, entry by entry, the first value found in source order, left- or right-truncated or zero padded on the left for terminal numeric fields and on the right for all others, all zeroes when absent, and exactly as long as the computed length. Output is refused when it does not fit and nothing is ever written beyond the given capacity.",
  ["inputs", "configurations"], "every Data Object List, every set and order of data sources and every output capacity",
  "the test samples a few lists; truncation/padding depends on tag, both lengths and source order",
  ["src/emv_dol.c", "src/emv_tlv.c"], [("decode", "emv_dol_decode, emv_dol_itr_next"), ("length", "emv_dol_compute_data_length"), ("build", "emv_dol_build_data"), ("numeric fields", "emv_tlv_is_terminal_format_n")])
p("C08", "AFL and CVM List fields are validated and enumerated exactly",
  "An Application File Locator is enumerated as its entries in order (file, first record, last record, offline authentication count), and a field of wrong size or an entry that breaks the EMV entry rules is an error from that entry on. A CVM List is enumerated as its two big-endian amounts followed by every method/condition rule in order, and a field of wrong size is an error. Enumeration ends exactly at the end of the field.",
  ["inputs"], "every byte string as either field",
  "entry validity depends on combinations of four bytes; tests cover a few",
  ["src/emv_fields.c"], [("AFL", "emv_afl_itr_init, emv_afl_itr_next"), ("CVM List", "emv_cvmlist_itr_init, emv_cvmlist_itr_next")])
p("C09", "Card scheme and issuer data formats are identified correctly",
  "For every application identifier of 5 to 16 bytes the reported card scheme and product are those registered for its provider identifier and proprietary extension, unknown identifiers are reported as not recognised, and other lengths as invalid. Issuer application data is classified as CCD, M/Chip 4, M/Chip Advance or one of the Visa formats exactly when its length and marker bytes satisfy that format's definition.",
  ["inputs"], "every application identifier and every issuer application data value",
  "the test samples one identifier for some schemes only",
  ["src/emv_fields.c"], [("AID", "emv_aid_get_info"), ("IAD", "emv_iad_get_format")])
p("C10", "ATR parsing follows ISO 7816-3 for every byte string",
  "A byte string is accepted as an Answer To Reset exactly when its convention byte, interface byte chain, historical bytes and check character are consistent with its length (bytes beyond the end of the ATR are ignored), and every other string is refused without reading beyond it. For an accepted ATR the reported interface bytes, historical bytes, status indicator, check character and derived transmission parameters (protocols, clock and baud factors, guard and waiting times, information field size, error detection, card classes, clock stop and C6 use) are those ISO 7816-3 derives, with the documented defaults for absent bytes.",
  ["inputs"], "every byte string up to and beyond the maximum ATR length",
  "interface byte presence, protocol chaining and historical byte layout multiply to far more shapes than the sampled ones",
  ["src/iso7816.c", "src/iso7816.h"], [("parse", "iso7816_atr_parse"), ("interface bytes", "iso7816_atr_parse_TA1..TC3 helpers in iso7816.c")])
p("C11", "EMV ATR acceptance matches the EMV Level 1 contact rules",
  "The EMV ATR check accepts exactly those ISO 7816-3 valid ATRs whose TA1, TC1, TD1, TA2, TC2, TD2, TA3, TB3 and TC3 satisfy the EMV Level 1 contact interface rules, and reports all others as a card error. Missing parameters are reported as caller errors.",
  ["inputs"], "every byte string",
  "the test covers one ATR per rule; interactions between interface bytes are not sampled",
  ["src/emv.c"], [("acceptance", "emv_atr_parse")])
p("C12", "Command APDUs are classified into exactly one ISO 7816-3 case",
  "Every command byte string is classified as the one ISO 7816-3 case (1, 2, 3, 4 in short or extended form) whose length equation it satisfies, or as not a command, and the status word classification predicates partition all status words into normal, warning and error.",
  ["inputs"], "every command header, length byte combination and total length; all status words",
  "extended-length commands and length mismatches are not sampled by any test",
  ["src/iso7816_apdu.h"], [("case", "iso7816_apdu_case"), ("status predicates", "iso7816_sw1sw2_is_*")])
p("C13", "APDU-mode exchanges return the card's whole response and final status",
  "With a reader in APDU mode, sending a command yields the concatenation of all response data the card supplies over the command and any GET RESPONSE or re-issued commands its status words ask for, followed by the status word that concluded the processing (a warning given ahead of the data remains the status), and the command reaches the card unchanged. Any reader failure, unexpected response or response larger than the caller's buffer is reported as an error; nothing is written beyond the caller's buffer.",
  ["inputs", "histories", "fault_sequences"], "every command of cases 1 to 4, every sequence of card answers (61xx, 6Cxx, warnings, errors, data of any size) and every buffer size",
  "tests replay a few recorded exchanges; answer sequences and sizes form an unbounded space",
  ["src/emv_ttl.c"], [("exchange loop", "emv_ttl_trx")], "the reader callback and the caller's response buffer")
p("C14", "T=0 TPDU-mode exchanges deliver every data byte once and in order",
  "With a reader in TPDU mode, the header and the command data reach the card exactly once and in order for every legal sequence of procedure bytes (acknowledge all, acknowledge next byte, and mixtures of both), and the response is the same as the card would give over an APDU interface, whatever way it splits its answer over procedure bytes, 61xx, 6Cxx and warnings. Illegal procedure bytes or responses are reported as errors; no byte outside the command is transmitted and nothing is written beyond the caller's buffer.",
  ["inputs", "histories", "schedules"], "every command, every legal T=0 procedure byte schedule for it, response sizes up to 256 bytes, and arbitrary illegal card behaviour",
  "tests replay a few recorded schedules from the specification annex",
  ["src/emv_ttl.c"], [("procedure bytes", "emv_ttl_trx"), ("GET RESPONSE / Le update", "emv_ttl_trx")], "the reader callback and the caller's response buffer")
p("C15", "Card commands are built exactly as EMV specifies or refused",
  "SELECT, SELECT next, READ RECORD and GET PROCESSING OPTIONS transmit exactly the EMV-defined command for their parameters, and parameters outside the permitted ranges are refused without any transmission. On success the caller gets exactly the response data without status bytes, its length, and the status word.",
  ["inputs"], "all names, lengths, file identifiers, record numbers, command data and output capacities, in both reader modes",
  "tests use fixed parameters; range edges and the longest data are not sampled",
  ["src/emv_ttl.c"], [("commands", "emv_ttl_select_by_df_name, emv_ttl_select_by_df_name_next, emv_ttl_read_record, emv_ttl_get_processing_options")], "the reader callback")
p("C16", "Candidate list building finds exactly the mutually supported applications",
  "For any card, the candidate list holds exactly the applications that the EMV rules make candidates: all supported entries of the payment system directory if that directory is usable and yields any, otherwise those discovered by selecting each supported identifier (following partial matches and skipping blocked ones), each with its own data, ordered by priority. An empty result, a blocked card or a transport failure gives the documented outcome, unusable directory records or entries are skipped without affecting the others, and the procedure ends for every card whose selections end.",
  ["inputs", "histories", "configurations"], "every card content (directory, records, applications, status words) and every configured list of supported identifiers",
  "tests emulate a dozen scripted cards",
  ["src/emv.c", "src/emv_tal.c", "src/emv_app.c"], [("directory", "emv_tal_read_pse, emv_tal_parse_aef_record"), ("discovery", "emv_tal_find_supported_apps"), ("outcome", "emv_build_candidate_list")], "candidate list and the reader callback")
p("C17", "Application objects reflect their card data",
  "An application created from directory or selection data carries exactly the fields of that data, its identifier is the one in the data, its display name is the preferred name (as UTF-8) when the code table is usable, else the label, else the hexadecimal identifier, and its priority and confirmation flag are those of the priority indicator. Data that is malformed or lacks the identifier gives no application, and an application is supported exactly when a configured identifier matches it exactly, or as a prefix when partial matching is allowed.",
  ["inputs", "configurations"], "every directory entry, selection response, code table and configured identifier list",
  "names, code tables, lengths and match modes combine beyond the sampled cards",
  ["src/emv_app.c"], [("creation", "emv_app_create_from_pse, emv_app_create_from_fci"), ("display name", "emv_app_extract_display_name"), ("matching", "emv_app_is_supported")])
p("C18", "Application lists sort stably by priority and never lose an entry",
  "For any history of push, pop, remove-by-index, sort and clear, an application list holds exactly the applications a model sequence holds; sorting is a stable permutation that puts priority 1 first, larger numbers later and unprioritised applications last. Cardholder selection is required exactly when there are two or more candidates or any candidate asks for confirmation, and clearing releases all memory.",
  ["histories"], "every sequence of operations and every assignment of priorities",
  "tests sort two or three entries",
  ["src/emv_app.c"], [("sort", "emv_app_list_sort_priority"), ("remove", "emv_app_list_remove_index"), ("selection rule", "emv_app_list_selection_is_required")])
p("C19", "Selecting a candidate removes it and selects only an exact match",
  "Selecting a candidate removes exactly that candidate from the list, whatever the outcome, and on success the context holds an application built from the card's selection response whose name equals the selected identifier. Every failed selection leaves no selected application and gives the documented outcome: try again while candidates remain and not accepted when none do, card blocked or card error where the session must end; an invalid index is a caller error that leaves the list alone.",
  ["inputs", "histories"], "every candidate list, index, card answer and preceding selection history",
  "tests run a handful of scripted selections",
  ["src/emv.c", "src/emv_tal.c"], [("selection", "emv_select_application, emv_tal_select_app")], "candidate list, context and the reader callback")
p("C20", "Application initiation sends the right PDOL data and stores the result",
  "Initiating processing sends one GET PROCESSING OPTIONS whose data is the command template holding exactly the data the application's PDOL requests, looked up in transaction parameters, then configuration, then terminal data, or an empty template without a PDOL. On success the card data list is the application's data followed by the response fields (both response formats), and the terminal data holds the entry mode, the selected identifier and zeroed TSI and TVR. Failures give the documented outcome without card data being stored, and initiating again without a new selection is a caller error.",
  ["inputs", "configurations", "histories"], "every application, PDOL, parameter and configuration set, response and preceding history in the same context",
  "tests use fixed PDOLs and responses",
  ["src/emv.c", "src/emv_tal.c", "src/emv_dol.c"], [("initiation", "emv_initiate_application_processing"), ("response", "emv_tal_get_processing_options")], "context lists and the reader callback")
p("C21", "Application data reading covers exactly the records the AFL lists",
  "Reading application data issues one READ RECORD for every record of every AFL entry, in order and no others, and on success appends exactly the fields of those records, in order, to the card data. Any failed read, record that is not a valid template where one is required, invalid AFL, repeated field or missing mandatory field gives a card error and leaves the card data unchanged; a record in the other files that does not start with the record template is skipped.",
  ["inputs", "histories"], "every AFL, every record content and status word, including record numbers up to 255",
  "tests use a few scripted cards",
  ["src/emv.c", "src/emv_tal.c"], [("record loop", "emv_tal_read_afl_records, emv_tal_read_sfi_records"), ("checks", "emv_read_application_data")], "context lists and the reader callback")
p("C22", "A card session survives any card and leaves nothing behind",
  "Whatever a card answers, and in whatever order an application drives candidate building, selection, initiation, reading and resetting over one context, no call crashes, reads or writes memory it does not own or uses released data, and every call returns a documented result. Resetting clears transaction data and the selected application but preserves the reader and configuration, results of a transaction do not depend on earlier transactions after a reset, and clearing releases everything.",
  ["histories", "inputs", "fault_sequences"], "every call history and every byte-level card behaviour, including transport faults at any exchange",
  "tests drive well-behaved scripts through one path once",
  ["src/emv.c", "src/emv_tal.c", "src/emv_ttl.c", "src/emv_app.c", "src/emv_tlv.c"], [("context", "emv_ctx_init, emv_ctx_reset, emv_ctx_clear"), ("flow", "emv_build_candidate_list .. emv_read_application_data")])
p("C23", "Running out of memory is reported and never corrupts or leaks",
  "If any memory allocation fails during parsing, list handling, application creation or a card session, the call either still gives its correct result or reports failure, never reports success with incomplete data (candidate building may skip an application it could not create), never crashes, and after the caller's normal clean-up nothing is leaked.",
  ["fault_sequences"], "every choice of failing allocation in every operation, alone or from that point on",
  "tests never inject allocation failures",
  ["src/emv_tlv.c", "src/emv_app.c", "src/emv_tal.c", "src/emv.c"], [("allocation sites", "emv_tlv_alloc, emv_app_create_from_*"), ("propagation", "emv_tlv_parse, emv_tal_*, emv_*")])
p("C24", "Text output functions respect every buffer size",
  "Every function that renders card data as text writes only inside the buffer it is given, for every input and every buffer size, leaves a NUL terminated string whenever it succeeds, and never reads beyond its input. A smaller buffer yields a prefix of the text, whole lines of a list left out, or a reported failure, never different text. A number, amount, date, time, Track 2 or character field (EMV formats a, an, ans, n, cn) is never cut short and reported as complete, and neither is an authorisation response code itself: too small a buffer for it is a reported failure.",
  ["inputs", "configurations"], "every text-producing function, every input bytes and length, and every output buffer size from zero up",
  "tests always pass ample buffers and well-formed values",
  ["src/emv_strings.c", "src/iso7816_strings.c", "src/iso7816.c"], [("bounded string list", "emv_str_list_add, iso7816_str_list_add"), ("all *_get_string functions", "src/emv_strings.h, src/iso7816_strings.h")])
p("C25", "Bit-mapped EMV fields are explained bit by bit",
  "For every value of a bit-mapped field (terminal type and capabilities, TVR, TSI, AIP, usage control, TTQ, CTQ, contactless and scheme specific capability fields and similar) the explanation lists exactly the defined meanings of the bits set, in the fixed order, independent of all other bits, and flags reserved bits as such. The combined explanation of all bits is the concatenation of the explanations each bit contributes.",
  ["inputs"], "every value of every bit-mapped field",
  "the suite's decode tests sample one or two values per field (and cannot run here)",
  ["src/emv_strings.c"], [("bit tables", "emv_*_get_string_list functions")])
p("C26", "Structured EMV values are explained according to their content",
  "Structured values (CVM lists and results, AFLs, cryptogram information, issuer application data in all supported formats, issuer authentication data, track 2 data, amounts, dates, times, service codes, languages, countries, currencies, third party and device data) are explained with exactly the decoded content of the value, digits included, for every well-formed value. Values that do not have the required structure are not explained as if they had it.",
  ["inputs"], "every well-formed value of each structured field and arbitrary malformed ones",
  "sampled values only; large amounts, rare codes and malformed lengths are not tried",
  ["src/emv_strings.c"], [("structured fields", "emv_cvm_list_get_string_list, emv_iad_get_string_list, emv_track2_equivalent_data_get_string, emv_amount_get_string and others")])
p("C27", "Every EMV tag is described consistently and safely",
  "Looking up a field gives the name, description, format and value text that belong to its tag, the same for any value of the tag, nothing for unknown tags, and identical results with or without preceding lookups. For any tag and any value, including empty and absent values, the lookup neither fails to terminate the text nor reads outside the value, and list-type text agrees with the dedicated function for that field.",
  ["inputs", "histories"], "every known and unknown tag, every value and value length including zero, and every buffer size",
  "decode tests (not runnable here) sample one value per tag",
  ["src/emv_strings.c"], [("tag table", "emv_tlv_get_info")])
p("C28", "Commands, status words and ATR bytes are described correctly",
  "The text of every byte of an answer to reset (convention, bits present, parameters and defaults, protocols, historical byte category) states the ISO 7816-3 meaning of that byte; the description of a command names the ISO 7816-4 or EMV instruction in it with its parameters, a status word is described by its category and meaning, and life cycle, card service and capability bytes list exactly the properties of their set bits. For every command length, including truncated ones, and every status word only bytes of the input are used.",
  ["inputs"], "every command byte string, all 65536 status words, all capability bytes and every buffer size",
  "only a handful are sampled",
  ["src/iso7816_strings.c", "src/emv_strings.c", "src/iso7816.c"], [("C-APDU", "iso7816_capdu_get_string, emv_capdu_get_string"), ("SW1SW2", "iso7816_sw1sw2_get_string"), ("card data", "iso7816_card_service_data_get_string_list, iso7816_card_capabilities_get_string_list")])
p("C29", "ISO 8859 text becomes valid, correct UTF-8 within the buffer",
  "For every supported ISO 8859 part and every byte string, the conversion gives the UTF-8 form of exactly those characters, NUL terminated; when the buffer is too small it gives a valid shorter text or reports failure, never a split character or an overrun. Unsupported parts are refused, and all implementations agree for the characters they support.",
  ["inputs", "configurations"], "all parts 1 to 15, all byte strings and all output sizes, for the Boost, iconv and simple implementations",
  "the test converts one string per part with an ample buffer and one implementation",
  ["src/iso8859_boost.cpp", "src/iso8859_iconv.c", "src/iso8859_simple.c"], [("convert", "iso8859_to_utf8"), ("support", "iso8859_is_supported")])
p("C30", "Code lookups return the name the data files give, or nothing",
  "Country, currency, language and merchant category lookups return exactly the name the loaded data gives for that alpha or numeric code, with language and country codes matched as documented, and nothing for codes it does not define. Loading fails cleanly on missing, malformed or incomplete data (lookups then give nothing or a loaded name), and loading again keeps lookups correct.",
  ["inputs", "histories", "configurations"], "every code string and number, every data file content, and repeated loading",
  "the test looks up a few well-known codes",
  ["src/isocodes_lookup.cpp", "src/mcc_lookup.cpp"], [("isocodes", "isocodes_init, isocodes_lookup_*"), ("mcc", "mcc_init, mcc_lookup")])
p("C31", "The decode tool prints exactly what it is given, without failing",
  "For any hexadecimal input the decode tool's TLV and DOL printing shows every field of the data in order with its tag, length and value bytes, reports malformed TLV data as such after the fields that precede it (lists of tags or tag/length entries are shown up to the first malformed entry, and fields nested beyond a fixed depth are reported rather than printed), and treats trailing bytes as padding only when asked to and only when they are a valid block-cipher padding shorter than one block. No input makes the tool crash or read outside the data.",
  ["inputs", "configurations"], "every input byte string, option combination and padding length",
  "the decode tests that run here cover two padding cases",
  ["tools/print_helpers.c", "tools/emv-decode.c"], [("printing", "print_ber_buf, print_emv_buf, print_emv_dol, print_emv_tag_list"), ("padding", "print_ber_buf_internal, print_emv_buf_internal")], "standard output of the tool")
p("C32", "Debug tracing reports exactly the enabled messages and changes nothing",
  "The debug callback is invoked exactly for messages whose source is enabled and whose level is at or below the configured level, with exactly the data that message is about (frames, commands and data elements as exchanged with the card), and messages longer than the internal buffer are truncated safely. Enabling or disabling tracing, at any level, does not change the result of any operation.",
  ["configurations", "histories"], "every combination of source mask, level and callback, over arbitrary card sessions",
  "tests use one configuration",
  ["src/emv_debug.c", "src/emv_debug.h"], [("filter", "emv_debug_internal"), ("macros", "emv_debug_*")])
p("C33", "The PC/SC layer mirrors the reader and card states it is given",
  "For any PC/SC service behaviour, the reader layer lists exactly the readers the service reports, gives back their states, features, properties, card type (as told by the ATR and whether the reader supplies a UID), ATR and exchange results unchanged, and reports service errors and timeouts as such. Malformed feature or property data is ignored or reported without reading outside it, and every context and connection it opens is closed exactly once. When memory runs out during initialisation it reports an error and leaves nothing open or allocated.",
  ["histories", "inputs", "fault_sequences"], "every sequence of calls against every scripted PC/SC service behaviour, including errors at any call",
  "there is no PC/SC service in the test environment; nothing tests this layer",
  ["src/pcsc.c"], [("context", "pcsc_init, pcsc_release"), ("features", "pcsc_reader_has_feature, pcsc_reader_get_property"), ("connect", "pcsc_reader_connect, pcsc_reader_disconnect"), ("exchange", "pcsc_reader_trx")], "fake SCard service")
p("C34", "Number text packed into EMV formats inverts its formatting",
  "Packing a digit text into the numeric (n) or compressed numeric (cn) EMV format gives the bytes that the format definition assigns: two digits per byte, cn left justified and padded with F, n right justified and padded with zeros. Text that does not fit keeps its first digits (cn) or last digits (n); any character among those kept that is not a digit is refused. Formatting the bytes as text again gives the original digits up to padding, and packing formatted text gives the original bytes. Nothing is written beyond the output capacity, and absent text, buffer or capacity is refused.",
  ["inputs"], "every text and every output capacity",
  "the test samples a few strings per format",
  ["src/emv_strings.c"], [("parse", "emv_str_to_format_an, emv_str_to_format_n, emv_str_to_format_cn and similar"), ("format", "emv_format_*_get_string, emv_uint_to_str")])
p("C35", "emv-tool carries out the requested transaction and always ends",
  "For every set of readers, every card, every service error and every input at the prompt, emv-tool lists the readers with their features, properties and states, waits for a card, takes the first reader that has one and performs with it exactly the transaction its command line asks for: the transaction type, amounts, current date and time and the built-in terminal configuration are given to the card, the candidate applications are shown, a choice is asked for when one is required (each line of input is one answer, only the number of a listed application is accepted, and a failed application leads to another choice when others remain), processing is initiated and the application data read. Each step's result, error or outcome is printed, the final ICC and terminal data are shown, the card is powered off before it is called deactivated, the PC/SC context is released, and the program ends also when input ends. The debugging options select exactly the sources and levels they name. A command line with an unknown option, a value that is not of the stated form, or a zero amount where one is required is reported and no transaction is started.",
  ["histories", "inputs", "fault_sequences"], "every combination of readers, card behaviour, service errors, command line and prompt input",
  "emv-tool is never run by the existing tests, which have neither a reader nor a card",
  ["tools/emv-tool.c", "tools/print_helpers.c", "src/pcsc.c"], [("options", "argp_parser_helper"), ("readers", "print_pcsc_readers"), ("transaction", "main, emv_txn_load_config, emv_txn_load_params")], "standard output of the command; commands received by the scripted card")
p("C36", "The terminal application layer reports the cause of every result",
  "For every card, response and fault, each terminal application layer function tells exactly why it ended: the error codes that end the session for a transport failure, blocked card, failed or unusable GET PROCESSING OPTIONS response, missing AIP or AFL, invalid AFL and failed, foreign or unusable record; the result codes that let it continue for a directory that is absent, blocked, refused, undecodable or has no valid file identifier, an application that is absent, blocked, refused or undecodable, conditions of use not satisfied, and a record that makes offline data authentication impossible, wherever in the AFL it stands. On success what was found is appended to the caller's list after what it already held, outputs point to the fields found in this response, and outputs that are not wanted change nothing; on failure no output is given. Parameters outside their stated ranges are refused before anything is sent.",
  ["inputs", "histories", "fault_sequences"], "every card, AFL, command data and fault position, with empty and non-empty lists",
  "the tests replay one exchange per result code",
  ["src/emv_tal.c"], [("directory", "emv_tal_read_pse, emv_tal_find_supported_apps"), ("application", "emv_tal_select_app, emv_tal_get_processing_options"), ("records", "emv_tal_read_afl_records, emv_tal_read_sfi_records")])
p("C37", "Results depend only on what was given or received",
  "No result, output, command sent to a card or printed text ever depends on memory that was never written: not on stack or heap content left by earlier calls, not on octets beyond what a card, reader, file or caller provided (an empty or short response included), and not on fields of an output that a function left unset. Nothing is read or written outside allocated memory.",
  ["inputs", "histories", "fault_sequences"], "every input, card behaviour and history of every function, of both commands and of the viewer",
  "a test that happens to run with zeroed memory passes; a wrong result needs particular left-over content",
  ["src/emv_app.c", "src/emv_tal.c", "src/emv_ttl.c", "src/emv_tlv.c", "src/iso8825_ber.c", "src/iso7816.c", "src/pcsc.c", "src/emv_strings.c"], [("responses", "emv_app_create_from_fci, emv_tal_read_sfi_records, emv_ttl_trx"), ("outputs", "all functions with output parameters")], "valgrind memcheck over the built sources")
p("C38", "Independent uses in several threads do not disturb each other",
  "Once tracing and code tables are configured, any functions of the library may be called in several threads at the same time as long as each works on its own contexts, lists, readers and buffers: every call gives exactly the result it gives alone, and there are no data races. This includes whole card transactions with different readers, with tracing on or off, at every interleaving.",
  ["schedules", "histories", "inputs"], "every combination of calls and cards in any number of threads and every interleaving of them",
  "the tests are single-threaded",
  ["src/emv.c", "src/emv_tal.c", "src/emv_ttl.c", "src/emv_app.c", "src/emv_tlv.c", "src/emv_strings.c", "src/iso7816.c", "src/iso8859_boost.cpp", "src/isocodes_lookup.cpp", "src/emv_debug.c"], [("exchange", "emv_ttl_trx"), ("strings", "emv_tlv_get_info, isocodes_lookup_*, iso8859_to_utf8"), ("parsing", "iso8825_ber_decode, emv_tlv_parse")], "ThreadSanitizer over the built sources")
p("C39", "The viewer's tree shows every field of the entered data",
  "For any text entered in emv-viewer the tree shows, after the short update delay, every BER field of the longest valid leading part of the data, in order and nested as encoded (also inside fields of indefinite length), with its tag, length and value bytes, or, when decoding is chosen, with its name and its value explained as the library explains it (raw bytes, explanation lines, entries of data object lists and tag lists below it). White space anywhere in the text is ignored. Trailing bytes are shown as padding only when padding is to be ignored and only if they are shorter than a cipher block and complete one; all other text after the valid part, from the first invalid field, odd digit or character that is not a hexadecimal digit on, is shown unchanged as remaining invalid data, as are fields nested beyond a fixed depth. No text makes the viewer fail.",
  ["inputs"], "every text, with decoding and padding options on and off",
  "the viewer has no tests",
  ["viewer/emvtreeview.cpp", "viewer/emvtreeitem.cpp", "viewer/emv-viewer-mainwindow.cpp"], [("walk", "parseData, EmvTreeView::populateItems"), ("items", "EmvTreeItem::setTlv, EmvTreeItem::render"), ("rest", "EmvViewerMainWindow::parseData")], "items of the tree widget on the offscreen platform")
p("C40", "The viewer marks every digit for what it is",
  "After every change each hexadecimal digit of the text is marked as valid or invalid data, and every other character that is not white space as foreign, in agreement with the tree; with tag emphasis exactly the digits of the tags of all fields, and the padding, are emphasised as such. Pressing a field in the tree marks exactly the digits of that field, header and end-of-contents marker included, and shows the name and description of its tag (nothing for a tag that is not known); pressing another line shows the legal notice and leaves the marked digits as they are.",
  ["inputs", "histories"], "every text over any number of lines, with emphasis and padding options on and off, and every sequence of pressed lines",
  "the viewer has no tests",
  ["viewer/emvhighlighter.cpp", "viewer/emvtreeview.cpp", "viewer/emv-viewer-mainwindow.cpp"], [("parse", "parseBerData, EmvHighlighter::parseBlocks"), ("mark", "EmvHighlighter::highlightBlock"), ("press", "EmvViewerMainWindow::on_treeView_itemPressed")], "text formats of the document on the offscreen platform")
p("C41", "What the viewer shows depends only on its text and options",
  "After any history of typing, pasting, deleting, undoing, changing options, pressing fields and closing and reopening the window, the tree and the marks are exactly those of the present text, options and last pressed field. A field that was folded stays folded until the text or the padding option changes. Options are remembered from one session to the next, the text is not. The command line gives the initial text (--tlv decoded, --ber not decoded, --tlv has precedence over --ber), overriding the remembered decode option, loads the code tables it names, and refuses unknown options. A link of the notice is opened exactly when it is pressed with the left button.",
  ["histories", "inputs"], "every sequence of edits, option changes, presses and sessions, and every command line",
  "the viewer has no tests",
  ["viewer/emv-viewer-mainwindow.cpp", "viewer/emv-viewer.cpp", "viewer/emvtreeview.cpp", "viewer/betterplaintextedit.h"], [("events", "EmvViewerMainWindow::on_*"), ("settings", "EmvViewerMainWindow::loadSettings, saveSettings"), ("program", "main"), ("links", "BetterPlainTextEdit::mousePressEvent")], "widgets on the offscreen platform; settings in a scratch directory")
p("C42", "A call without a required argument is refused",
  "Every library function that decodes, builds or describes data, keeps lists, exchanges commands or runs a session, when called with a required pointer missing or with no data to work on, reports the failure its documentation names (an error code, no object, false, or, for an emptiness query, empty), exchanges nothing with the card and changes none of the lists it was given, however many arguments are missing and whatever the others are. A description asked for with a buffer of length zero writes nothing.",
  ["inputs", "call combinations"], "every listed function, every non-empty subset of its required arguments, and every value of the others",
  "tests call the functions with all arguments",
  ["src/iso8825_ber.c", "src/iso7816.c", "src/iso7816_compact_tlv.c", "src/iso7816_strings.c", "src/emv.c", "src/emv_app.c", "src/emv_dol.c", "src/emv_fields.c", "src/emv_tlv.c", "src/emv_ttl.c", "src/emv_tal.c", "src/emv_strings.c"], [("guards", "first statements of every public function")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
