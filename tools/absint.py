"""Checks decided by the abstract interpreter (engine/absint): C01-C08, C10, C13, C16, C19.

Every function with a contract is analysed once against it; callers use the contract.  A property
is decided over the closure of its entry points under "is used by", so a promise made by a callee
is always checked in the same run as its use.
"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from common import Broken, run_engine, engine
import build_ir

PARSE = ['wdns_parse_message', 'wdns_unpack_name', 'wdns_copy_uname', 'wdns_len_uname', 'wdns_skip_name']
RENDER = ['wdns_domain_to_str', 'wdns_rdata_to_str', 'wdns_rr_to_str', 'wdns_rrset_to_str', 'wdns_rrset_array_to_str', 'wdns_message_to_str',
          'wdns_print_rr', 'wdns_print_rrset', 'wdns_print_rrset_array', 'wdns_print_message',
          'wdns_rrtype_to_str', 'wdns_rrclass_to_str', 'wdns_rcode_to_str', 'wdns_opcode_to_str', 'wdns_res_to_str']
TEXT = ['wdns_str_to_name', 'wdns_str_to_name_case', 'wdns_str_to_rdata', 'wdns_str_to_rrtype', 'wdns_str_to_rrclass', 'wdns_str_to_rcode', 'wdns_file_load_names']
UTIL = ['wdns_count_labels', 'wdns_is_subdomain', 'wdns_left_chop', 'wdns_reverse_name', 'wdns_downcase_name', 'wdns_downcase_rdata', 'wdns_downcase_rrset',
        'wdns_compare_rr_rrset', 'wdns_sort_rrset', 'wdns_serialize_rrset', 'wdns_deserialize_rrset',
        'wdns_clear_rr', 'wdns_clear_rrset', 'wdns_clear_rrset_array', 'wdns_clear_message']
# parts of an entry point that are decided on their own when the entry point itself is not
PARTS = {'wdns_parse_message': ['_wdns_parse_header', '_wdns_parse_message_rr', '_wdns_insert_rr_rrset_array', 'wdns_clear_rr'],
         'wdns_clear_message': ['wdns_clear_rrset_array'],
         'wdns_rdata_to_str': ['_wdns_rdata_to_ubuf'], 'wdns_rr_to_str': ['_wdns_rr_to_ubuf'], 'wdns_rrset_to_str': ['_wdns_rrset_to_ubuf'],
         'wdns_rrset_array_to_str': ['_wdns_rrset_array_to_ubuf'],
         '_wdns_rdata_to_ubuf': ['ubuf_reserve', 'ubuf_append', 'ubuf_add', 'ubuf_add_fmt', 'my_uint64_to_str', 'my_bytes_to_hex_str', 'fast_inet4_ntop', 'fast_inet6_ntop', 'base32_encode', 'wdns_len_uname', 'wdns_copy_uname', 'wdns_domain_to_str'],
         '_wdns_str_to_rdata_ubuf': ['base32_decode', 'wdns_str_to_name_case', 'u16buf_add'],
         'wdns_str_to_rdata': ['_wdns_str_to_rdata_ubuf']}
ALL = PARSE + RENDER + TEXT + UTIL
MEM = {'bounds', 'null', 'overlap', 'uaf', 'post'}
MEMADDR = ('address was never set', 'pointer never set', 'pointer argument was never set')
PROPS = {
    'C01': (PARSE, MEM), 'C02': (RENDER, MEM), 'C03': (TEXT, MEM), 'C04': (UTIL, MEM),
    'C05': (ALL, {'loop'}), 'C06': (ALL, {'leak', 'free', 'uaf'}), 'C07': (ALL, {'abort', 'divzero'}), 'C08': (ALL, {'uninit'}),
    'C10': (ALL, {'ro'}), 'C13': (['wdns_unpack_name', 'wdns_copy_uname', 'wdns_len_uname', 'wdns_str_to_name', 'wdns_str_to_name_case'], {'name'}),
    'C16': (ALL, {'status'}), 'C19': (ALL, {'narrow'}),
}
RULE = {'bounds': 'every access lies inside its object', 'null': 'no null pointer is followed', 'overlap': 'copied ranges do not overlap', 'uaf': 'no released object is used',
        'post': 'the function keeps the promise its callers rely on', 'leak': 'every block is released or handed over', 'free': 'only owned blocks are released',
        'abort': 'no abort or failing assertion is reachable', 'divzero': 'no division by zero', 'uninit': 'no unset memory is used', 'ro': 'read-only arguments are not written',
        'name': 'produced names are well-formed', 'narrow': 'stored lengths and counts are not cut down',
        'loop': 'every loop has a decreasing, bounded measure', 'status': 'after a step that failed, success is not reported'}
OBKIND = {'C01': ('access', 'precondition', 'postcondition', 'buffer-invariant', 'object', 'string', 'copy'), 'C06': ('leak', 'free'), 'C07': ('abort', 'divisor'), 'C08': ('init', 'branch-init'),
          'C10': ('ro',), 'C13': ('length-octet', 'postcondition'), 'C19': ('narrow',), 'C16': ('status',), 'C05': ('loop', 'loop-round')}
for _p in ('C02', 'C03', 'C04'):
    OBKIND[_p] = OBKIND['C01']

def ranges(rows, n):
    out, prev = [], -1
    for x in rows + [n]:
        if x - prev > 1:
            out.append('%d:%d' % (prev + 1, x - 1))
        prev = x
        if x < n:
            out.append(str(x))
    out.append('%d:65535' % n)
    return out

class Runner:
    def __init__(self, bc, limit, opts=()):
        self.bc, self.limit, self.eng, self.opts = bc, limit, engine(), list(opts)
        ls = run_engine(['absint', bc, 'list'])
        self.fns = {l['symbol']: l for l in ls if 'function' in l}
        self.by = {}
        for l in self.fns.values():
            self.by.setdefault(l['function'], []).append(l['symbol'])
        self.uncovered = [l['uncovered'] for l in ls if 'uncovered' in l]
        self.recursive = [l['recursive'] for l in ls if 'recursive' in l]
        r = [l for l in run_engine(['absint', bc, 'rows']) if 'rows' in l]
        self.ranges = ranges(r[0]['rows'], r[0]['len']) if r else ['0:65535']
        self.res, self.alias = {}, {}
        self.t0 = time.time()

    def one(self, job):
        try:
            r = subprocess.run([self.eng, 'absint', self.bc] + self.opts + [job], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=max(1, min(self.limit, self.t0 + 780 - time.time())))
            ls = [json.loads(x) for x in r.stdout.splitlines() if x.startswith('{')]
            if r.returncode == 0 and ls:
                return job, ls[0]
            why = 'engine exit %d' % r.returncode
        except subprocess.TimeoutExpired:
            why = 'time limit'
        return job, {'broken': True, 'why': why, 'alarms': [], 'obligations': {}, 'undecided': [], 'uses': [], 'steps': 0, 'function': job.split('@')[0], 'file': '?', 'line': 0, 'blocks': 0}

    def symbols(self, name):
        """One symbol per distinct copy of a function (header-defined ones have many)."""
        out, seen = [], set()
        for s in self.by.get(name, []):
            k = self.fns[s]['insts']
            if k in seen:
                continue
            seen.add(k)
            out.append(s)
        return out

    def closure(self, entries):
        done, miss, todo = set(), [], list(entries)
        with ThreadPoolExecutor(8) as ex:
            while todo:
                jobs, nxt = [], []
                for n in todo:
                    if n in done:
                        continue
                    done.add(n)
                    nxt += PARTS.get(n, [])
                    syms = self.symbols(n)
                    if not syms:
                        if n in ALL or n in self.uncovered:
                            miss.append(n)
                        continue
                    for s in syms:
                        jobs += [s + '@' + r for r in self.ranges] if self.fns[s]['typed'] else [s]
                for j, d in ex.map(self.one, sorted(jobs, key=lambda j: -self.fns[j.split('@')[0]]['insts'])):
                    self.res[j] = d
                    nxt += [self.fns[u]['function'] for u in d['uses'] if u in self.fns]
                todo = [n for n in dict.fromkeys(nxt) if n not in done]
        return done, sorted(set(miss))

def names_hit(a):
    # a length that may not fit its field, or octets written beyond the name's 255-octet destination
    return a['kind'] in ('narrow', 'post') or (a['kind'] == 'bounds' and any(w in a['what'] for w in ('write:', 'copy to', 'memset', 'append')))

def decide(pid, repo, tmp, tier):
    ir = build_ir.build(repo, tmp)
    entries, kinds = PROPS[pid]
    R = Runner(ir['bc'], 400 if tier == 'quick' else 800, ['--loops'] if pid == 'C05' else [])
    done, miss = R.closure(entries)
    if not R.res:
        raise Broken('nothing analysed')
    viol, broken, und, per, beyond = {}, {}, {}, {}, {}
    obl = {}
    steps = blocks = 0
    for j, d in R.res.items():
        f = d['function']
        if d['broken']:
            broken.setdefault(f, []).append((j.split('@') + [''])[1] + ' ' + d['why'])
        for u in d['undecided']:
            und.setdefault(u, 0)
            und[u] += 1
        for k, n in d['obligations'].items():
            obl[k] = obl.get(k, 0) + n
        p = per.setdefault(f, {'at': '%s:%s' % (d.get('file', '?'), d.get('line', 0)), 'runs': 0, 'obligations': 0})
        p['runs'] += 1
        p['obligations'] += sum(d['obligations'].get(k, 0) for k in OBKIND[pid])
        steps += d['steps']
        blocks += d['blocks']
        for a in d['alarms']:
            k = a['kind']
            if k == 'content':
                beyond['%s: %s (%s)' % (f, a['what'], a['loc'])] = 1
            hit = k in kinds or (pid == 'C13' and names_hit(a)) or (k == 'uninit' and 'bounds' in kinds and any(m in a['what'] for m in MEMADDR))
            if not hit:
                continue
            key = '%s|%s|%s|%s' % (k, f, a['loc'], a['what'])
            v = viol.setdefault(key, {'key': key, 'rule': RULE.get(k, k), 'what': '%s: %s' % (f, a['what']), 'loc': a['loc'], 'record_types': []})
            if '@' in j:
                v['record_types'].append(j.split('@')[1])
    n_ob = sum(obl.get(k, 0) for k in OBKIND[pid])
    if n_ob < 3:
        raise Broken('only %d obligations' % n_ob)
    for v in viol.values():
        if v['record_types']:
            v['what'] += ' [record types %s]' % ','.join(v['record_types'][:12])
    cov = {'explanation': 'Abstract interpretation (polyhedra with regions, initialisation, ownership and string terminators) of each listed function, from an entry state that '
           'describes every admissible argument, over all paths; the obligations are the places where the rule applies. Functions without a contract are analysed inside their callers.',
           'functions': len(per), 'runs': len(R.res), 'basic_blocks': blocks, 'steps': steps, 'obligations': n_ob,
           'obligations_by_kind': {k: obl[k] for k in OBKIND[pid] if k in obl}, 'analysed': per,
           'entries_not_decided': miss, 'not_decided_because': broken, 'undecided_obligations': und,
           'record_type_ranges': len(R.ranges), 'excluded_content_dependent_reads': sorted(beyond)}
    if pid == 'C05':
        cov['recursive_functions_not_decided'] = R.recursive
        cov['measures'] = sorted({m for d in R.res.values() for m in d.get('measures', [])})
        cov['explanation'] += ' Every loop is restarted from the states found at its start with a copy of every quantity; each way back must decrease a measure bounded from below by quantities that stay the same (lexicographically).'
    return {'violations': sorted(viol.values(), key=lambda v: v['key']), 'level': 'other', 'coverage': cov, 'assumptions': ASSUME}

ASSUME = ['allocation never fails (the property excepts the allocator)', 'distinct pointer arguments of an operation do not overlap',
          'sizes are below 2^40 and signed arithmetic does not overflow', 'C library behaves as its models in engine/lib.cpp (C locale)',
          'an RRset array handed in is one the library could have built (counts match its arrays)']
CHECKS = {p: (lambda repo, tmp, tier, p=p: decide(p, repo, tmp, tier)) for p in PROPS}
