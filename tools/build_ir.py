#!/usr/bin/env python3
"""Compile the library in /repo's current working tree to LLVM IR.

Takes the real build's inputs (Makefile.am source list, flags, generators, header template)
from the tree itself, works in a scratch copy, never touches /repo.
"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

CONFIG_H = """#define HAVE_ALLOCA_H 1
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define STDC_HEADERS 1
#define _ALL_SOURCE 1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#define PACKAGE "wdns"
#define PACKAGE_NAME "wdns"
#define PACKAGE_VERSION "%(v)s"
#define VERSION "%(v)s"
"""

class BuildError(Exception):
    pass

def make_vars(text, name):
    out = []
    for m in re.finditer(r'^%s\s*\+?=((?:.*\\\n)*.*)' % re.escape(name), text, re.M):
        out += m.group(1).replace('\\\n', ' ').split()
    return out

def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def prepare(repo, out):
    """Scratch copy with generated files. Returns dict."""
    src = os.path.join(out, 'src')
    os.makedirs(src)
    for d in ('wdns', 'libmy'):
        shutil.copytree(os.path.join(repo, d), os.path.join(src, d),
                        ignore=shutil.ignore_patterns('*.o', '*.lo', '*.la', '.libs', '.deps', '.dirstamp'))
    mk = open(os.path.join(repo, 'Makefile.am')).read()
    ac = open(os.path.join(repo, 'configure.ac')).read()
    ver = {}
    for k in ('major', 'minor', 'patchlevel'):
        m = re.search(r'm4_define\(\s*\[?wdns_%s_version\]?\s*,\s*\[?(\d+)\]?\s*\)' % k, ac)
        if not m:
            raise BuildError('version component %s not found in configure.ac' % k)
        ver[k] = m.group(1)
    v = '%(major)s.%(minor)s.%(patchlevel)s' % ver
    with open(os.path.join(src, 'config.h'), 'w') as f:
        f.write(CONFIG_H % {'v': v})
    h = open(os.path.join(src, 'wdns', 'wdns.h.in')).read()
    for a, b in (('WDNS_VERSION', v), ('WDNS_MAJOR_VERSION', ver['major']),
                 ('WDNS_MINOR_VERSION', ver['minor']), ('WDNS_PATCHLEVEL_VERSION', ver['patchlevel'])):
        h = h.replace('@%s@' % a, b)
    with open(os.path.join(src, 'wdns', 'wdns.h'), 'w') as f:
        f.write(h)
    for g in ('rcode_to_str', 'rrclass_to_str', 'rrtype_to_str'):
        p = os.path.join(src, 'wdns', g + '.c')
        if os.path.exists(p):
            os.remove(p)
        run(['python3', os.path.join(src, 'wdns', 'gen_' + g), 'wdns/wdns.h', 'wdns/%s.c' % g], src)
    units = [s for s in make_vars(mk, 'wdns_libwdns_la_SOURCES') if s.endswith('.c')]
    if len(units) < 40:
        raise BuildError('only %d library sources found in Makefile.am' % len(units))
    return {'src': src, 'units': units, 'version': v, 'mk': mk}

FLAGS = ['-std=gnu11', '-include', 'config.h', '-I.', '-Iwdns', '-include', 'wdns/wdns-private.h', '-g', '-w',
         '-fno-discard-value-names', '-U_FORTIFY_SOURCE', '-fno-builtin-memchr']

def build(repo, out, opt='O1'):
    """opt 'O1': lifetime markers, no passes."""
    info = prepare(repo, out)
    src = info['src']
    def one(u):
        o = os.path.join(out, u.replace('/', '_')[:-2] + '.bc')
        fl = ['-O1', '-Xclang', '-disable-llvm-passes'] if opt == 'O1' else ['-O0', '-Xclang', '-disable-O0-optnone']
        run(['clang-18'] + fl + FLAGS + ['-emit-llvm', '-c', u, '-o', o], src)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, info['units']))
    bc = os.path.join(out, 'all.bc')
    run(['llvm-link-18'] + objs + ['-o', bc], out)
    info['bc'] = bc
    return info

if __name__ == '__main__':
    i = build(sys.argv[1], sys.argv[2])
    print(i['bc'], len(i['units']))
