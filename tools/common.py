import json, os, subprocess, sys, tempfile, time, shutil, fcntl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WDNS_REPO', '/repo')
ENGINE = os.path.join(ROOT, 'build', 'wdnsck')

class Broken(Exception):
    """The analysis cannot be carried out (neither a pass nor a violation)."""

def engine():
    """Path of the analysis engine, built on demand."""
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    with open(os.path.join(ROOT, 'build', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(ROOT, 'engine')], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('engine build failed:\n' + r.stdout[-3000:])
    return ENGINE

def run_engine(args, stdin=None, timeout=850):
    r = subprocess.run([engine()] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode:
        raise Broken('engine %s: exit %d\n%s' % (args, r.returncode, r.stderr[-3000:]))
    return [json.loads(l) for l in r.stdout.splitlines() if l.strip()]
