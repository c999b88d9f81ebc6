#!/usr/bin/env python3
"""Source of MANIFEST.json (edit here, run to regenerate)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELNOTE = {}
CH = []
def c(pid, technique, level, note):
    CH.append({'property': pid, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % pid,
               'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % pid,
               'evidence_file': 'evidence/%s.json' % pid, 'technique': technique, 'level': level, 'level_note': note})
c('C09', 'effect analysis: whole-library inclusion-based points-to, writes to static storage and hidden-state libc calls', 'other',
  'Complete for the compiled units up to the table of external callees with hidden state.')
c('C12', 'interprocedural constant propagation over every 16-bit code and every mnemonic, table-order check', 'other',
  'Exhaustive over the codes and mnemonics; assumes C-locale strcasecmp and bsearch semantics.')
c('C14', 'cross-check of header declarations, IR definitions and linker version script', 'other', 'Exact set comparison for this build configuration.')
AI = 'abstract interpretation of the LLVM IR: polyhedra, memory regions, initialisation, ownership, contracts per function'
AIN = 'Sound over all paths and inputs under the assumptions listed in the evidence; entries_not_decided names the functions without a contract.'
c('C01', AI, 'other', AIN + ' All five functions that read wire data, every record type.')
c('C02', AI, 'other', AIN)
c('C03', AI, 'other', AIN)
c('C04', AI, 'other', AIN)
c('C05', AI + '; lexicographic ranking measures for every loop', 'other', AIN + ' Library loops (sorting, searching) and the contents of a file are finite; recursion does not occur.')
c('C06', AI + ' (ownership of every allocated block)', 'other', AIN)
c('C07', AI + ' (reachability of abort, failing assertions and zero divisors)', 'other', AIN)
c('C08', AI + ' (initialised ranges of every object)', 'other', AIN)
c('C10', AI + ' (read-only regions)', 'other', AIN)
c('C13', AI + ' (length octets and announced name length)', 'other', AIN)
c('C16', AI + ' (the failing outcomes of every step, followed to the result)', 'other', AIN)
c('C17', 'bit-origin abstract interpretation (every bit of every field traced to its source; record counts as linear forms)', 'other', 'All packets; library calls that are not followed are modelled; lost origins are counted as undecided, none on the current tree.')
c('C18', 'term (value-numbering) abstract interpretation of RRset comparison and record insertion; loop summaries by what each turn compares', 'other', 'All records, arrays and sections; what wdns_downcase_name does is taken from C21; counts do not wrap.')
c('C11', 'term abstract interpretation of parser, renderer, downcaster and text encoder for every row of the descriptor table; sibling comparison of the octets each field takes', 'other', 'All record types and all values of the first octet of a field; what the text encoder writes is compared for fields of a fixed size only; variable fields are compared element by element where both siblings loop.')
c('C21', 'term abstract interpretation of the downcasing functions; every store evaluated for every octet value its path admits; loop summaries for completeness', 'other', 'All 65536 record types, all octet values and positions; relies on the end of a name reported by wdns_len_uname (C03).')
c('C24', 'value-set interpretation of the rendering functions: every octet read from data tried for each of its 256 values along the branches it decides; buffers followed to what fills them', 'other', 'All functions reachable from the rendering interface; the growing text buffer itself is taken as given; places not followed are counted as undecided in the evidence (none on this tree).')
c('C19', AI + ' (value range of every narrowing store of a length or count)', 'other', AIN)
NA = {
 'C30': 'Round-trip equality of two content transformations quantifies over the values of rendered octets; no sound dataflow abstraction in reach relates the two texts. Structural necessary parts (layout agreement, bounded decoding) are decided under C11, C13, C24.',
 'C31': 'Content equality across a buffer round-trip is a relation between two runs over runtime values; the memory-safety, length and ownership parts are decided under C04, C06, C19.',
 'C32': 'That the copied octets are exactly the label sequence of the RFC 1035 walk is functional correctness over packet contents; the bounds, termination and length parts are decided under C01, C05, C13.',
 'C33': 'Functional correctness of label comparison, counting and sort order depends on runtime octet values; the bounds, termination and non-modification parts are decided under C04, C05, C10.',
 'C34': 'Numeric results (digit strings of runtime values) are outside what a sound static argument in reach can establish; bounds and character-set parts are decided under C02, C03, C24.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
claimed = [x['property'] for x in CH]
na = [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in claimed]
json.dump({'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': CH, 'not_applicable': na}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
