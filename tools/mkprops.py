#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (edit here, run to regenerate)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})
W="wdns/"
p("C01","Wire parsing never touches memory outside the packet or its destinations",
 "For every byte buffer and length (and every start position inside it), parsing a DNS message and unpacking, copying, measuring or skipping a wire-format name read no octet outside the buffer the caller described. Nothing is written outside the caller's result object, the 255-octet name destination, or memory the library itself allocated for the result, and no reference to released or unset memory is followed.",
 ["inputs"],"every packet of every length, every compression-pointer/label layout, every record type and class, every section count",
 "The tests feed a few dozen well-formed packets and names; an over-read by one octet of a malformed packet changes no output they look at, and the malformed layouts are unbounded.",
 [W+f for f in ("parse_message.c","parse_message_rr.c","parse_rdata.c","parse_edns.c","insert_rr_rrset_array.c","unpack_name.c","copy_uname.c","len_uname.c","skip_name.c")],
 [("bounds tests against end-of-packet before each read",W+"unpack_name.c, parse_message_rr.c"),("remaining-octet accounting for record data",W+"parse_rdata.c")],
 ["wdns_parse_message","wdns_unpack_name","wdns_copy_uname","wdns_len_uname","wdns_skip_name"])
p("C02","Rendering to text never accesses memory out of bounds",
 "Rendering any record data (any octets, any length, any type and class), any resource record, RRset, section or message object, or any wire name of up to 255 octets into presentation text reads only the octets of that object. It writes only inside the 1025-octet name buffer documented for the caller or memory the library allocated, whatever the octets are, including octets that do not form valid record data.",
 ["inputs"],"every rdata octet string x type x class, every message/RR/RRset object whose lengths describe its buffers",
 "Tests render a fixed list of valid rdata; malformed rdata (unterminated names, short options, over-long counts) reaches other paths and an over-read does not change a passing test's output.",
 [W+f for f in ("rdata_to_ubuf.c","edns_options.c","svcparamkeys_to_str.c","domain_to_str.c","rr_to_ubuf.c","rrset_to_ubuf.c","rrset_array_to_ubuf.c","message_to_str.c","rdata_to_str.c")]+["libmy/my_format.c","libmy/fast_inet_ntop.c","libmy/b32_encode.c","libmy/b64_encode.c","libmy/ubuf.h","libmy/vector.h"],
 [("octet-required checks before each field",W+"rdata_to_ubuf.c"),("growable output buffer reserves before writing","libmy/vector.h, libmy/ubuf.h")],
 ["wdns_rdata_to_str","wdns_rr_to_str","wdns_rrset_to_str","wdns_rrset_array_to_str","wdns_message_to_str","wdns_domain_to_str","wdns_print_*"])
p("C03","Text parsing never accesses memory out of bounds",
 "For every NUL-terminated string, parsing it as a domain name, as record data of any type and class, or as a type, class or response-code mnemonic, and loading a file of names, reads nothing past the string's terminating NUL. It writes only inside the caller's outputs and memory the library allocated for the result.",
 ["inputs"],"every NUL-terminated string (including empty, lone escapes, truncated fields, very long fields) x type x class; every file of names",
 "Tests give a finite list of strings; reading one octet past the NUL, or sizing a decode buffer one short, passes them.",
 [W+f for f in ("str_to_name.c","str_to_rdata_ubuf.c","rdata_to_str.c","svcparamkeys_to_str.c","file_load_names.c","gen_rrtype_to_str","gen_rrclass_to_str","gen_rcode_to_str")]+["libmy/b32_decode.c","libmy/b64_decode.c"],
 [("explicit remaining-length accounting",W+"str_to_name.c"),("NUL tests before advancing",W+"str_to_rdata_ubuf.c")],
 ["wdns_str_to_name","wdns_str_to_name_case","wdns_str_to_rdata","wdns_str_to_rrtype","wdns_str_to_rrclass","wdns_str_to_rcode","wdns_file_load_names"])
p("C04","Name and RRset utilities never access memory out of bounds",
 "Counting labels, testing sub-domain relation, left-chopping, reversing and downcasing names, comparing, sorting, downcasing, serializing and deserializing RRsets, and clearing objects access only the octets the arguments' own length fields describe and memory the library allocated. This holds also when the octets of a name do not form a valid name (the sub-domain test presupposes names whose labels can be counted), and for every serialized buffer including truncated ones.",
 ["inputs"],"every name octet string of 1..255 octets, every RRset object, every serialized buffer and length",
 "Tests use valid names; a label length that runs past the end, or a truncated serialization, exercises the unproven accesses.",
 [W+f for f in ("count_labels.c","is_subdomain.c","left_chop.c","reverse_name.c","downcase_name.c","downcase_rdata.c","downcase_rrset.c","compare_rr_rrset.c","sort_rrset.c","serialize_rrset.c","deserialize_rrset.c","clear.c")],
 [("label-length checks against the name length",W+"count_labels.c, is_subdomain.c"),("running byte count compared with the input size",W+"deserialize_rrset.c")],
 ["wdns_count_labels","wdns_is_subdomain","wdns_left_chop","wdns_reverse_name","wdns_downcase_*","wdns_deserialize_rrset","wdns_clear_*"])
p("C05","Every public operation terminates",
 "Every exported operation returns for every input: no packet, record data, string, name, RRset or file contents makes it loop forever. In particular a chain of compression pointers cannot be followed without bound.",
 ["inputs"],"every input of every exported operation",
 "A test that terminates says nothing about the inputs that make a loop stop advancing (a pointer cycle, a length that wraps to zero).",
 [W+f for f in ("unpack_name.c","parse_rdata.c","parse_message.c","rdata_to_ubuf.c","str_to_rdata_ubuf.c","str_to_name.c","edns_options.c","is_subdomain.c","count_labels.c")]+["libmy/vector.h","libmy/my_format.c"],
 [("compression pointers must point strictly backwards",W+"unpack_name.c"),("every field loop consumes octets",W+"parse_rdata.c")])
p("C06","Memory and file handles are owned exactly once and released on every path",
 "On every path through every exported operation, successful or failing, each block of memory the library allocates is either handed to the caller through the documented result or released exactly once, never used after release; on failure nothing stays allocated that the caller cannot release. Clearing a message, section, RRset or record releases every block it holds, and a names file that was opened is closed on every path.",
 ["inputs","histories"],"every path of every exported operation, for every input that drives it there",
 "The tests do not run under a leak checker and never visit most error exits; a leak or double release on an error path is invisible to them.",
 [W+f for f in ("parse_message.c","parse_message_rr.c","parse_rdata.c","parse_edns.c","insert_rr_rrset_array.c","clear.c","deserialize_rrset.c","str_to_rdata_ubuf.c","str_to_name.c","rdata_to_ubuf.c","rdata_to_str.c","message_to_str.c","file_load_names.c")]+["libmy/vector.h"],
 [("transfer of rdata/name from RR to RRset with the source pointer cleared",W+"insert_rr_rrset_array.c, parse_edns.c"),("single error label releasing everything",W+"parse_rdata.c")])
p("C07","No input can abort the process",
 "No packet, record data, string, name, object or file contents makes an exported operation call abort or fail an assertion; invalid input is reported through the operation's result. The one exception is the allocator failing.",
 ["inputs"],"every input of every exported operation",
 "Which assertion or unhandled-case abort is reachable depends on inputs (record type x field kind x contents) the tests do not enumerate.",
 [W+f for f in ("parse_rdata.c","downcase_rdata.c","record_descr.c","rdata_to_ubuf.c","str_to_rdata_ubuf.c","domain_to_str.c","svcparamkeys_to_str.c")]+["libmy/vector.h","libmy/ubuf.h"],
 [("record descriptor table only uses field kinds each consumer handles",W+"record_descr.c"),("default: abort()",W+"parse_rdata.c, downcase_rdata.c")])
p("C08","Results never depend on uninitialised memory",
 "No exported operation branches on, copies into its result, or returns memory that was never set, whatever its input. When it reports success, every output it documents has been set.",
 ["inputs"],"every input of every exported operation, on every path that reports success",
 "Uninitialised stack bytes usually look right in a test run; only inputs that make a conversion yield nothing expose them.",
 [W+f for f in ("str_to_rdata_ubuf.c","rdata_to_ubuf.c","parse_message_rr.c","parse_message.c","deserialize_rrset.c","unpack_name.c","len_uname.c","str_to_name.c")],
 [("results checked before use",W+"str_to_rdata_ubuf.c"),("memset of the result object before filling it",W+"parse_message.c")])
p("C09","The library is reentrant: no hidden mutable state",
 "No exported operation keeps, writes or depends on mutable state of the library shared between calls (global or function-static variables that change), and none uses a C library facility that does. Concurrent calls on distinct objects therefore never interfere, and an operation's result depends only on its arguments.",
 ["schedules","histories"],"every interleaving of calls from any number of threads on distinct objects; every prior call history",
 "The tests are single-threaded; a static scratch buffer or lazily filled static table gives right answers in every one of them.",
 [W+"*.c","libmy/b32_decode.c","libmy/fast_inet_ntop.c","libmy/my_format.c"],
 [("all tables are constant",W+"record_descr.c, rcode_to_str.c"),("strtok_r and caller-local scratch buffers",W+"str_to_rdata_ubuf.c, message_to_str.c")])
p("C10","Read-only arguments are never modified",
 "Operations that render, compare, measure, serialize or parse leave their inputs unchanged: rendering or printing a message, section, RRset, record or record data, comparing, converting names or strings, counting labels, testing sub-domains and parsing never write to the object, packet, name or string they are given to read. Only results, the objects a modifying operation (downcase, sort, clear) is named for, and out-parameters are written.",
 ["inputs"],"every input of every non-modifying exported operation",
 "Tests look at the returned value, not at whether the input was changed as a side effect, and many objects are passed through non-const pointers the compiler does not protect.",
 [W+f for f in ("rdata_to_ubuf.c","rr_to_ubuf.c","rrset_to_ubuf.c","message_to_str.c","compare_rr_rrset.c","is_subdomain.c","count_labels.c","left_chop.c","serialize_rrset.c","str_to_rdata_ubuf.c","parse_rdata.c")],
 [("names are copied before being downcased for comparison",W+"compare_rr_rrset.c"),("strings duplicated before tokenising",W+"str_to_rdata_ubuf.c")])
p("C11","Parser, renderer and text encoder agree on every record type's wire layout",
 "For every supported record type, the wire parser, the text renderer and (for the types it supports) the downcaser divide the record data into the same fields: each fixed-size field takes the same number of octets in each, and each length-prefixed field takes the same number of octets given the same prefix. Every field kind used by a supported record type is handled by the parser, the renderer and the text encoder. They use a record type's layout for the same classes: the one class its descriptor names, or all of them; the parser keeps data without a layout as they are.",
 ["inputs","programs"],"every record type in the descriptor table, every field, every value of a field's length prefix",
 "Tests cover a handful of record types; one field kind consuming a different number of octets in one sibling shows only for a record type and contents they do not include.",
 [W+f for f in ("record_descr.c","record_descr.h","parse_rdata.c","rdata_to_ubuf.c","str_to_rdata_ubuf.c","downcase_rdata.c")],
 [("one descriptor table drives all four siblings",W+"record_descr.c"),("field-kind switch in each sibling","switch (*t)")])
p("C12","Mnemonic tables are mutually inverse and complete",
 "For record types, classes and response codes, the code-to-text and text-to-code conversions are inverse to each other on every code the public header names: each named code has one mnemonic, no two codes share one, and looking up that mnemonic (in any letter case) yields the same code; the mnemonic is the constant's own name, with '-' where the constant has '_'. Every result code has a description, and the named opcodes have distinct mnemonics.",
 ["inputs"],"every code constant in the public header x both directions",
 "Tests convert a sample of codes; a swapped, missing or mis-sorted entry (which breaks the binary search for other entries) is found only by checking all of them.",
 [W+f for f in ("gen_rcode_to_str","gen_rrclass_to_str","gen_rrtype_to_str","wdns.h.in","opcode_to_str.c","res_to_str.c")],
 [("tables generated from the header",W+"gen_*_to_str"),("sorted tables searched with bsearch",W+"gen_*_to_str")])
p("C13","Produced names are bounded: at most 255 octets, labels at most 63",
 "Whenever unpacking, copying or measuring a wire-format name, or converting text to a name, reports success, the name it reports has between 1 and 255 octets, its reported length is the number of octets it wrote, and every length octet it wrote is at most 63. Longer or mis-formed input is rejected with an error.",
 ["inputs"],"every packet, wire name and string given to the name-producing operations",
 "Boundary lengths (254/255/256 octets, 63/64-octet labels, escapes at the boundary) combine in more ways than the sampled names.",
 [W+f for f in ("unpack_name.c","copy_uname.c","len_uname.c","str_to_name.c")],
 [("total length tested before each label",W+"unpack_name.c, copy_uname.c"),("label length octet back-patched at the dot",W+"str_to_name.c")])
p("C14","Every declared operation is exported and every export is defined",
 "Every operation the public header declares is defined by the library and exported from the shared object under a symbol version, and every symbol the version script names is defined. No symbol outside the public interface is exported, and a symbol is exported under exactly one version.",
 ["programs","configurations"],"every declaration in the public header, every line of the version script",
 "The test programs link only the operations they use; a header/version-script mismatch breaks other programs at link time.",
 [W+"wdns.h.in",W+"libwdns.sym","Makefile.am"],
 [("version script",W+"libwdns.sym")])
p("C16","A failing internal step is never reported as success",
 "When one library operation calls another that reports failure (a name that does not decode, record data that does not parse, an option or parameter that is malformed, a names file that does not open), the calling operation does not report success as if the call had succeeded: the failure is propagated as an error result or as the documented PARSE ERROR text in rendered output. No failing status a library operation returns is dropped on any path.",
 ["inputs","fault_sequences"],"every call of a status-returning operation inside the library, every failure it can report",
 "Error results matter only on malformed inputs the tests barely sample; dropping one changes nothing for valid input.",
 [W+f for f in ("parse_message.c","parse_message_rr.c","parse_rdata.c","rdata_to_ubuf.c","str_to_rdata_ubuf.c","is_subdomain.c","downcase_rrset.c","file_load_names.c","rdata_to_str.c")],
 [("res != success tested after each call",W+"*.c")])
p("C17","Header and EDNS fields are extracted from the right bits",
 "A parsed message's id, flags and the numbers of records read per section come from octets 0-1, 2-3, 4-5, 6-7, 8-9 and 10-11 of the packet in network byte order, and its response code from the low four flag bits. The records of each section are read one after the other from octet 12 on, as many as its count field says unless the packet ends first; a record's type, class, TTL and data length are the two, two, four and two octets after its owner name in network byte order (a question has only the first two), its data are the octets after them, and each record read is kept in its own section or is the one EDNS record. The first OPT record supplies the EDNS payload size (its class), version (TTL bits 16-23), flags (TTL bits 0-15), the upper eight response-code bits (TTL bits 24-31) and the options (its data).",
 ["inputs"],"every packet, every bit of the header and of the first OPT record",
 "Tests use few headers; a wrong mask, shift or octet order agrees on all-zero or symmetric values.",
 [W+f for f in ("parse_message.c","parse_edns.c","parse_message_rr.c","wdns.h.in")],
 [("big-endian loads at fixed offsets",W+"parse_message.c"),("shift/mask of class and TTL",W+"parse_edns.c")])
p("C18","Records are grouped into RRsets correctly and none is lost",
 "Every record accepted into a section adds exactly one entry to that section's record list with the same owner name, type, class, TTL and data. Outside the question section its data joins exactly one RRset, an existing one only if owner name (ignoring ASCII case), type and class are equal, a new one only if no existing one matches, and an RRset's TTL is the smallest TTL of its records; counts equal the number of stored entries.",
 ["inputs","histories"],"every sequence of records in every section",
 "Grouping depends on the history of earlier records; tests have a few fixed sequences.",
 [W+f for f in ("insert_rr_rrset_array.c","compare_rr_rrset.c","parse_message.c")],
 [("backward scan comparing name/type/class",W+"insert_rr_rrset_array.c")])
p("C19","Lengths and counts stored in results are never silently truncated",
 "Every length or count stored in a result object (name length, record-data length, number of records, RRsets or rdatas) or written in front of variable-length data equals the true number of octets or entries, and a number read from text is stored whole: a value that does not fit its field is rejected instead of being cut down to the field's width.",
 ["inputs"],"every input, in particular those whose decoded size exceeds 255 or 65535",
 "It takes inputs thousands of octets long, or decompression that inflates record data past 65535 octets, to reach the truncation.",
 [W+f for f in ("parse_rdata.c","str_to_rdata_ubuf.c","str_to_name.c","parse_message_rr.c","insert_rr_rrset_array.c","deserialize_rrset.c","left_chop.c")],
 [("comparison of the narrowed value with the wide one",W+"str_to_rdata_ubuf.c"),("uint16_t rdata length",W+"parse_rdata.c")])
p("C21","Downcasing changes only ASCII capital letters",
 "Downcasing a name, record data or RRset changes an octet only if it is one of the ASCII letters A to Z, and then exactly to the corresponding lower-case letter; every other octet, every length and every other field keeps its value. On success every capital letter of the name (or of each name embedded in the record data) has been lowered. Octets of record data outside embedded names are not changed, and only record types whose names are case-insensitive by the DNSSEC canonical form are touched.",
 ["inputs"],"every octet value at every position of every name and record data",
 "256 octet values x positions x record types; tests use a few mixed-case names.",
 [W+f for f in ("downcase_name.c","downcase_rdata.c","downcase_rrset.c","record_descr.c")],
 [("range test on the octet before setting bit 5",W+"downcase_name.c, downcase_rdata.c"),("list of canonicalised types",W+"downcase_rdata.c")])
p("C24","Rendered text is printable ASCII whatever the octets",
 "Text rendered from any record data, name, record, RRset or message contains only printable ASCII characters, plus the newlines that separate records and sections and the terminating NUL. Octets that are not printable appear only in escaped or encoded form.",
 ["inputs"],"every octet value in every field of every record type",
 "256 octet values in each of the field renderers and option renderers; tests render a few.",
 [W+f for f in ("rdata_to_ubuf.c","domain_to_str.c","edns_options.c","rr_to_ubuf.c","message_to_str.c","svcparamkeys_to_str.c")]+["libmy/my_format.c","libmy/b32_encode.c","libmy/b64_encode.c","libmy/fast_inet_ntop.c"],
 [("printable-range test before copying an octet",W+"rdata_to_ubuf.c, domain_to_str.c, edns_options.c")])
# --- properties this family cannot settle (declared not_applicable) ---
p("C30","Text form and wire form round-trip",
 "For every record data the renderer accepts for a supported type, parsing the rendered text back yields the same octets; for every domain name, parsing its rendered text yields the same name up to letter case.",
 ["inputs"],"every record data of every supported type; every name",
 "Tests round-trip a fixed list.",
 [W+f for f in ("rdata_to_ubuf.c","str_to_rdata_ubuf.c","domain_to_str.c","str_to_name.c")],[("escape/unescape pairs",W+"rdata_to_ubuf.c / str_to_rdata_ubuf.c")])
p("C31","Serialized RRsets deserialize to the same RRset",
 "Deserializing what serialization wrote yields an RRset with the same name, type, class, TTL and data in the same order, and the size serialization announces is the number of octets it writes.",
 ["inputs","histories"],"every RRset",
 "Tests use two RRsets.",
 [W+"serialize_rrset.c",W+"deserialize_rrset.c"],[("same field order in both",W+"serialize_rrset.c, deserialize_rrset.c")])
p("C32","Decompressed names equal the label sequence the packet denotes",
 "The name produced by following compression pointers is exactly the sequence of labels reached by RFC 1035 decompression, and equals the uncompressed name that was encoded.",
 ["inputs"],"every packet and offset","Tests use a few packets.",[W+"unpack_name.c"],[("pointer following",W+"unpack_name.c")])
p("C33","Sub-domain test, label count and RRset order compute the right answer",
 "The sub-domain test is true exactly when the parent's label sequence is a proper suffix of the child's, the label count is the number of non-root labels, and sorting an RRset permutes its data into canonical order.",
 ["inputs"],"every pair of names; every RRset","Tests use a sample of names.",[W+"is_subdomain.c",W+"count_labels.c",W+"sort_rrset.c"],[("label offsets compared right to left",W+"is_subdomain.c")])
p("C34","Numbers, addresses and base encodings are rendered with the right digits",
 "Integers, IPv4/IPv6 addresses, hexadecimal, base32 and base64 fields are rendered as, and parsed from, the digits that denote their value.",
 ["inputs"],"every value","Tests compare samples.",["libmy/my_format.c","libmy/fast_inet_ntop.c","libmy/b32_encode.c","libmy/b32_decode.c","libmy/b64_encode.c","libmy/b64_decode.c"],[("digit loops","libmy/my_format.c")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,x["id"]
