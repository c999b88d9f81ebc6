"""Checks that need no numeric reasoning: C09 effects, C12 tables, C14 exported interface, C16 status discipline."""
import json, os, re, subprocess, fnmatch
from common import Broken, run_engine
import build_ir

def _viol(lines):
    return [l for l in lines if l.get('kind') == 'violation']

def _summary(lines):
    s = [l for l in lines if l.get('kind') == 'summary']
    if not s:
        raise Broken('engine gave no summary')
    return s[-1]

# ---------------------------------------------------------------- C09
def c09(repo, tmp, tier):
    ir = build_ir.build(repo, tmp)
    out = run_engine(['effects', ir['bc']])
    s = _summary(out)
    if s['functions'] < 100 or s['writes'] < 200 or s['globals'] < 50:
        raise Broken('too little analysed: %s' % s)
    # the rule must match on a positive example
    ex = os.path.join(tmp, 'pos.c')
    open(ex, 'w').write('#include <string.h>\nstatic char b[4]; char *f(char c){b[0]=c; return strtok(b,"x");}\n')
    build_ir.run(['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', ex, '-o', ex + '.bc'], tmp)
    pos = _viol(run_engine(['effects', ex + '.bc']))
    if len({p['rule'] for p in pos}) != 2:
        raise Broken('positive example not matched')
    v = _viol(out)
    return {'violations': v, 'level': 'other', 'coverage': {
        'explanation': 'Inclusion-based points-to over every function of the library; each instruction that may write memory is an obligation '
                       '(its possible targets include no variable with static storage), each external callee is looked up in a table of '
                       'facilities with hidden shared state, and each use of an external variable is checked.',
        'units': len(ir['units']), 'functions': s['functions'], 'writes_checked': s['writes'], 'external_call_sites': s['external_calls'],
        'static_variables': s['globals'], 'non_const_static_variables_never_written': s['non_const_names'], 'external_callees': s['externals']},
        'assumptions': ['external callees not in the table keep no state shared between calls (list in external_callees)',
                        'the C locale is not changed by the library (setlocale is in the table)']}

# ---------------------------------------------------------------- C12
def header_constants(info):
    src = info['src']
    r = build_ir.run(['clang-18', '-dM', '-E', '-include', 'config.h', '-I.', '-Iwdns', 'wdns/wdns.h'], src)
    c = {'TYPE': {}, 'CLASS': {}, 'R': {}, 'OP': {}}
    for m in re.finditer(r'^#define (WDNS_(TYPE|CLASS|R|OP)_(\w+)) +(.*)$', r, re.M):
        try:
            c[m.group(2)][m.group(3)] = int(m.group(4).strip('() '), 0)
        except ValueError:
            raise Broken('value of %s not an integer: %s' % (m.group(1), m.group(4)))
    return c

def header_ast(info):
    src = info['src']
    p = os.path.join(src, '_hdr.c')
    open(p, 'w').write('#include <wdns.h>\n')
    r = subprocess.run(['clang-18', '-std=gnu11', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-include', 'config.h', '-I.', '-Iwdns', '_hdr.c'],
                       cwd=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Broken('header does not parse: ' + r.stderr[-1000:])
    ast = json.loads(r.stdout)
    # clang prints a file name only when it changes
    cur = [None]
    funcs, vars_, enums = [], [], {}
    def where(loc):
        l = loc.get('expansionLoc', loc)
        if 'file' in l:
            cur[0] = l['file']
    for n in ast['inner']:
        def visit(loc):
            for k in ('spellingLoc', 'expansionLoc'):
                if k in loc and 'file' in loc[k]:
                    cur[0] = loc[k]['file']
            if 'file' in loc:
                cur[0] = loc['file']
        visit(n.get('loc', {}))
        f = cur[0]
        inh = f is not None and os.path.basename(f) == 'wdns.h'
        if inh and n['kind'] == 'FunctionDecl' and n.get('storageClass') != 'static':
            funcs.append((n['name'], n['loc'].get('line', n['loc'].get('expansionLoc', {}).get('line')), n['type']['qualType']))
        if inh and n['kind'] == 'VarDecl':
            vars_.append(n['name'])
        if inh and n['kind'] == 'EnumDecl':
            names = [x['name'] for x in n.get('inner', []) if x['kind'] == 'EnumConstantDecl']
            enums[n.get('name') or names[0]] = n
        rng = n.get('range', {})
        for k in ('begin', 'end'):
            visit(rng.get(k, {}))
        def deep(x):
            for y in x.get('inner', []):
                visit(y.get('loc', {})); visit(y.get('range', {}).get('begin', {})); visit(y.get('range', {}).get('end', {})); deep(y)
        deep(n)
    return funcs, vars_, enums

def enum_values(info, names):
    src = info['src']
    p = os.path.join(src, '_enum.c')
    with open(p, 'w') as f:
        f.write('#include <wdns.h>\n')
        for n in names:
            f.write('const int v_%s = %s;\n' % (n, n))
    t = build_ir.run(['clang-18', '-O0', '-S', '-emit-llvm', '-include', 'config.h', '-I.', '-Iwdns', '_enum.c', '-o', '-'], src)
    return {m.group(1): int(m.group(2)) for m in re.finditer(r'^@v_(\w+) = .*constant i32 (-?\d+)', t, re.M)}

def variants(s):
    yield s
    if s.lower() != s:
        yield s.lower()
    m = ''.join(c.lower() if i % 2 else c.upper() for i, c in enumerate(s))
    if m not in (s, s.lower()):
        yield m

def c12(repo, tmp, tier):
    ir = build_ir.build(repo, tmp)
    cons = header_constants(ir)
    if len(cons['TYPE']) < 60 or len(cons['R']) < 8 or len(cons['CLASS']) < 4 or len(cons['OP']) < 4:
        raise Broken('code constants not found in the header')
    fam = {'TYPE': ('wdns_rrtype_to_str', 'wdns_str_to_rrtype', 'ret16'), 'CLASS': ('wdns_rrclass_to_str', 'wdns_str_to_rrclass', 'ret16'),
           'R': ('wdns_rcode_to_str', 'wdns_str_to_rcode', 'out16'), 'OP': ('wdns_opcode_to_str', None, None)}
    viol, nob, und = [], 0, []
    def bad(rule, what, loc, key):
        viol.append({'rule': rule, 'what': what, 'loc': loc, 'key': key})
    # pass 1: code -> text for every 16-bit code
    q = []
    for f, (ts, fs, k) in fam.items():
        q += ['tostr %s %d' % (ts, c) for c in range(65536)]
    _, _, enums = header_ast(ir)
    resn = [x['name'] for e in enums.values() for x in e.get('inner', []) if x['kind'] == 'EnumConstantDecl' and x['name'].startswith('wdns_res_')]
    if len(resn) < 10:
        raise Broken('result codes not found')
    resv = enum_values(ir, resn)
    q += ['tostr wdns_res_to_str %d' % resv[n] for n in resn]
    out = run_engine(['cprop', ir['bc']], stdin='\n'.join(q) + '\n')
    ans = {o['q']: o for o in out if 'q' in o}
    q2, exp = [], {}
    def tostr(fn, code):
        o = ans.get('tostr %s %d' % (fn, code))
        if o is None or o.get('err'):
            raise Broken('%s: %s' % (fn, o))
        if 'undecided' in o:
            und.append(o)
            return None
        return o['s']
    texts = {}
    for f, (ts, fs, k) in fam.items():
        byval = {}
        for name, c in sorted(cons[f].items()):
            nob += 1
            if c in byval:
                bad('two-names-one-code', 'WDNS_%s_%s and WDNS_%s_%s have the same code %d' % (f, name, f, byval[c], c), 'wdns/wdns.h.in', 'dup:%s:%d' % (f, c))
            byval[c] = name
        named = {}
        for c in range(65536):
            s = tostr(ts, c)
            nm = byval.get(c)
            if nm is not None:
                nob += 2
                if not s:
                    bad('code-without-mnemonic', '%s(%d) gives no mnemonic for WDNS_%s_%s' % (ts, c, f, nm), ts, 'nomn:%s:%s' % (f, nm))
                    continue
                if s.upper().replace('-', '_') != nm.upper():
                    bad('mnemonic-of-another-code', '%s(%d) gives "%s" for WDNS_%s_%s' % (ts, c, s, f, nm), ts, 'wrongmn:%s:%s' % (f, nm))
            if s:
                nob += 1
                if s.lower() in named:
                    bad('mnemonic-shared', '%s gives "%s" for both %d and %d' % (ts, s, named[s.lower()], c), ts, 'shared:%s:%s' % (f, s))
                named[s.lower()] = c
                if fs:
                    for v in variants(s):
                        ql = 'fromstr %s %s %s' % (fs, v, k)
                        q2.append(ql)
                        exp[ql] = (c, f, s)
    for n in resn:
        nob += 1
        s = tostr('wdns_res_to_str', resv[n])
        if not s and not any('wdns_res_to_str' in u['q'] for u in und):
            bad('result-without-text', 'wdns_res_to_str(%s) gives no text' % n, 'wdns_res_to_str', 'res:' + n)
    out2 = run_engine(['cprop', ir['bc']], stdin='\n'.join(q2) + '\n')
    seenbad = set()
    for o in out2:
        for b in o.get('bad', []):
            if b not in seenbad:
                seenbad.add(b)
                bad('unsorted-table', b, b, 'table:' + b)
        if 'q' not in o:
            continue
        nob += 1
        c, f, s = exp[o['q']]
        if o.get('err'):
            raise Broken(str(o))
        if 'undecided' in o:
            und.append(o)
            continue
        ok = o['ret'] == c if fam[f][2] == 'ret16' else (o['ret'] == 0 and o.get('out') == c)
        if not ok:
            w = o['q'].split()
            bad('lookup-not-inverse', '%s("%s") gives %s, expected code %d (WDNS_%s_*)' % (w[1], w[2], o.get('out', o['ret']) if f == 'R' else o['ret'], c, f), w[1], 'inv:%s:%s' % (f, s))
    if len(und) * 2 > nob:
        raise Broken('most lookups not decided: %s' % und[0])
    s = _summary(out2)
    return {'violations': viol, 'level': 'other', 'coverage': {
        'explanation': 'Interprocedural constant propagation of the conversion functions for each of the 65536 codes and for each mnemonic '
                       '(as spelled, lower case, mixed case); rows of every table searched with bsearch compared pairwise under its own comparator.',
        'named_codes': {k: len(v) for k, v in cons.items()}, 'result_codes': len(resn), 'obligations': nob, 'lookups_text_to_code': len(q2),
        'tables': s['tables'], 'undecided': len(und), 'undecided_samples': und[:3]},
        'assumptions': ['strcasecmp and bsearch behave as in the C locale']}

# ---------------------------------------------------------------- C14
def parse_sym(path):
    t = re.sub(r'/\*.*?\*/', ' ', open(path).read(), flags=re.S)
    t = re.sub(r'#.*', ' ', t)
    nodes = []
    for m in re.finditer(r'([\w.]+)?\s*\{(.*?)\}\s*([\w.]*)\s*;', t, re.S):
        glob, loc, mode = [], [], 'g'
        for tok in re.findall(r'global\s*:|local\s*:|[^\s;]+\s*(?=;)', m.group(2)):
            tok = tok.strip()
            if tok.startswith('global'): mode = 'g'
            elif tok.startswith('local'): mode = 'l'
            else: (glob if mode == 'g' else loc).append(tok.strip('"'))
        nodes.append((m.group(1), glob, loc, m.group(3)))
    return nodes

def c14(repo, tmp, tier):
    ir = build_ir.build(repo, tmp)
    funcs, vars_, _ = header_ast(ir)
    decl = {f[0]: f for f in funcs}
    if len(decl) < 30:
        raise Broken('only %d declarations found in wdns.h' % len(decl))
    symf = 'wdns/libwdns.sym'
    if 'libwdns.sym' not in ir['mk']:
        raise Broken('Makefile.am does not use wdns/libwdns.sym')
    nodes = parse_sym(os.path.join(ir['src'], symf))
    if not nodes:
        raise Broken('version script not understood')
    t = build_ir.run(['llvm-nm-18', '--format=posix', '--defined-only', ir['bc']], tmp)
    defined = {}
    for l in t.splitlines():
        w = l.split()
        if len(w) >= 2 and w[1] in 'TDRBWVC':
            defined[w[0]] = w[1]
    ll = build_ir.run(['llvm-dis-18', ir['bc'], '-o', '-'], tmp)
    hidden = set(re.findall(r'^(?:define|@)[^\n@]*?\b(?:hidden|protected)\b[^\n@]*@([\w.]+)', ll, re.M)) | set(
        m.group(1) for m in re.finditer(r'^@([\w.]+) = [^\n]*?\bhidden\b', ll, re.M))
    viol = []
    def bad(rule, what, key, loc=symf):
        viol.append({'rule': rule, 'what': what, 'loc': loc, 'key': key})
    names = [n[0] for n in nodes]
    nob = 0
    for n in nodes:
        nob += 1
        if n[3] and n[3] not in names:
            bad('unknown-parent', 'version %s depends on undefined version %s' % (n[0], n[3]), 'parent:%s' % n[0])
        if names.count(n[0]) > 1:
            bad('duplicate-version', 'version %s defined twice' % n[0], 'dupver:%s' % n[0])
    pats = [(p, n[0]) for n in nodes for p in n[1]]
    local_all = any('*' in n[2] for n in nodes)
    def versions(s):
        ex = [v for p, v in pats if p == s]
        return ex or [v for p, v in pats if '*' in p and fnmatch.fnmatchcase(s, p)]
    for p, v in pats:
        nob += 1
        if '*' not in p and p not in defined:
            bad('export-undefined', '%s is listed under %s but not defined by the library' % (p, v), 'undef:' + p)
        if '*' not in p and sum(1 for a, _ in pats if a == p) > 1:
            bad('export-twice', '%s is exported more than once' % p, 'twice:' + p)
    for d in sorted(decl):
        nob += 2
        if d not in defined:
            bad('declared-undefined', '%s is declared in wdns.h but not defined' % d, 'nodef:' + d, 'wdns/wdns.h.in:%s' % decl[d][1])
        if d in hidden:
            bad('declared-hidden', '%s is declared in wdns.h but its definition is hidden from the shared object' % d, 'hidden:' + d, 'wdns/wdns.h.in:%s' % decl[d][1])
        if not versions(d):
            bad('declared-unexported', '%s is declared in wdns.h but not exported under any version' % d, 'noexp:' + d, 'wdns/wdns.h.in:%s' % decl[d][1])
        if len(set(versions(d))) > 1:
            bad('export-twice', '%s is exported under several versions: %s' % (d, versions(d)), 'twice:' + d)
    if not local_all:
        bad('not-local', 'the version script does not hide symbols it does not name (no "local: *")', 'local')
    for s in defined:
        nob += 1
        if versions(s) and s not in decl and s not in vars_:
            bad('private-exported', '%s is exported but not part of the public header' % s, 'priv:' + s)
    return {'violations': viol, 'level': 'other', 'coverage': {
        'explanation': 'Public header parsed by clang, symbols defined by the linked IR of all library units, and the version script; the three sets compared in both directions.',
        'declarations': len(decl), 'defined_external_symbols': len(defined), 'versions': len(nodes), 'version_script_entries': len(pats), 'obligations': nob},
        'assumptions': ['the linker supports version scripts (HAVE_LD_VERSION_SCRIPT), as in this build']}

# ---------------------------------------------------------------- C17, C18
def bits_check(repo, tmp, tier, rules, expl, assume, cmd='bits', also=None):
    ir = build_ir.build(repo, tmp)
    out = run_engine([cmd, ir['bc']] + (['deep'] if cmd == 'layout' and tier == 'thorough' else []))
    end = [l for l in out if l.get('kind') == 'end']
    if not end:
        raise Broken('engine did not finish')
    sums = [l for l in out if l.get('kind') == 'summary']
    viol = [dict(v, key=v.get('key') or '%s:%s' % (v['function'], v['what'])) for v in _viol(out) if v['rule'] in rules or (also and also(v, out))]
    und = [(s['function'], u) for s in sums for u in s['undecided']] + [(f, 'function not found') for f in end[-1]['missing']]
    ob = {}
    for s in sums:
        for k, n in s['obligations'].items():
            ob['%s: %s' % (s['function'], k)] = n
    return {'violations': viol, 'level': 'other', 'coverage': {
        'explanation': expl, 'functions_interpreted': [s['function'] for s in sums], 'interpreted_instructions': sum(s['steps'] for s in sums),
        'obligations': ob, 'obligation_count': sum(ob.values()), 'undecided': len(und), 'undecided_samples': und[:5]}, 'assumptions': assume}

BITS_ASSUME = ['wdns_skip_name moves to the end of the owner name (its bounds are C01, its termination C05)',
               'the functions that are not followed (name unpacking, record data parsing, RRset insertion) change nothing but the objects they are given',
               'places marked undecided are neither proved nor reported']

def c17(repo, tmp, tier):
    return bits_check(repo, tmp, tier, {'header', 'edns', 'count', 'position', 'record', 'section', 'lost'},
        'Bit-origin abstract interpretation of message parsing: every bit of each field at every accepting return is traced to the packet or to the '
        'OPT record; the number of records read is kept as a linear form of the count fields; positions as sums of record sizes.', BITS_ASSUME)

def c18(repo, tmp, tier):
    return bits_check(repo, tmp, tier, {'compare', 'record', 'group', 'ttl'},
        'Term (value-numbering) abstract interpretation of wdns_compare_rr_rrset and of _wdns_insert_rr_rrset_array for each section: every cell of the '
        'array, the stored record and the RRset is a term over the values at entry, with the comparisons that hold on the way; loops are summarised by '
        'what each turn compares and where they start and end.',
        ['wdns_downcase_name puts the letters A-Z of the name in lower case and changes nothing else (C21)', 'counts do not wrap (at most 65535 records, C17)',
         'the record and the array do not share storage', 'places marked undecided are neither proved nor reported'], 'terms')

LAY = ['ubuf_append adds the octets it is given and nothing else', 'wdns_len_uname, wdns_skip_name and wdns_unpack_name report the octets a name takes (C02, C03)',
       'pointers into one object compare like their distances from its start', 'fields that are marked variable, and places marked undecided, are neither proved nor reported']

def c11(repo, tmp, tier):
    return bits_check(repo, tmp, tier, {'layout'},
        'Term interpretation of the parser, the renderer, the downcaster and the text encoder for every row of the descriptor table, one field at a time from a '
        'symbolic position: the octets a field takes are a term over the octets at its start, evaluated for each of the 256 values of the first octet '
        '(or, for repeated elements, compared as terms and by values) and compared with the parser; fields of a fixed size are compared with what the text encoder appends.', LAY, 'layout')

def _down_alone(v, out):
    # the downcaster finds a name elsewhere than the parser does, and the renderer agrees with the parser
    m = re.match(r'(\w+) (\(record type \d+\), field \d+)', v['what'])
    if v['rule'] != 'layout' or not m or m.group(1) != 'wdns_downcase_rdata':
        return False
    return not any(o.get('kind') == 'violation' and o['what'].startswith('_wdns_rdata_to_ubuf ' + m.group(2)) for o in out)

def c21(repo, tmp, tier):
    return bits_check(repo, tmp, tier, {'letters'},
        'Term interpretation of wdns_downcase_name, wdns_downcase_rdata (every one of the 65536 record types) and wdns_downcase_rrset: every store is a term over the octet it '
        'replaces, evaluated for every octet value the path conditions admit; loops are summarised by the indices their turns deal with, to decide that no letter is left out. '
        'The fields before a name take as many octets as in the parser and the renderer.', LAY, 'layout', _down_alone)

def c24(repo, tmp, tier):
    r = bits_check(repo, tmp, tier, {'text'},
        'Value-set interpretation of every function reachable from the rendering interface: each place that adds octets to a text, writes text out or '
        'returns it is an obligation. Octets read from data are tried for each of their 256 values along the branches they decide (up to the next read); '
        'buffers are followed to everything stored, copied or formatted into them, through calls; tables are read from their initialisers.',
        ['ubuf_add, ubuf_append, ubuf_add_cstr and ubuf_add_fmt add what they are given and nothing else', 'ctype classification as in the C locale',
         'a table is read within its bounds and a buffer only where it was written (C01, C03)', 'a record or message is rendered as it was when the call began (the text under construction does not overlap it)',
         'places marked undecided are neither proved nor reported'], 'chars')
    if r['coverage']['obligation_count'] < 30:
        raise Broken('too few places that make text: %s' % r['coverage']['obligations'])
    return r

CHECKS = {'C24': c24, 'C18': c18, 'C11': c11, 'C21': c21, 'C09': c09, 'C12': c12, 'C14': c14, 'C17': c17}
