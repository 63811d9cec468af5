#!/usr/bin/env python3
"""Self-test of the analyser: broken variants must be reported by the named
property, behaviour-preserving variants must leave every property quiet.
usage: run.py [-p PROP] [-k substring] [broken|benign]"""
import sys, os, subprocess, shutil, importlib.util, tempfile, re
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
BIN = os.environ.get('SZ', '/tmp/w/szcheck')
def load(n):
    spec = importlib.util.spec_from_file_location(n, os.path.join(here, n + '.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); return m
args = sys.argv[1:]
prop = key = None
while args and args[0].startswith('-'):
    if args[0] == '-p': prop = args[1]; args = args[2:]
    elif args[0] == '-k': key = args[1]; args = args[2:]
mode = args[0] if args else 'both'
env = dict(os.environ, GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
allprops = subprocess.run([BIN, '-list'], capture_output=True, text=True).stdout.split()

def prepare(edits):
    d = tempfile.mkdtemp(prefix='szm.', dir='/tmp/w')
    subprocess.run('cd /repo && git ls-files -z -- "*.go" go.mod go.sum | xargs -0 cp --parents -t ' + d, shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(d, f); s = open(p).read() if os.path.exists(p) else ''
        if old is None: s = s + new
        else:
            if old not in s: return d, 'edit does not apply: %s: %r' % (f, old[:60])
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
    r = subprocess.run('go build ./...', cwd=d, shell=True, env=env, capture_output=True, text=True)
    if r.returncode: return d, 'does not build: ' + r.stderr[:300]
    return d, None

def check(d, ps):
    """violation messages per property"""
    r = subprocess.run([BIN, '-prop', ','.join(ps), '-repo', d, '-verif', d + '/v'], capture_output=True, text=True, timeout=1800)
    res, cur = {p: [] for p in ps}, None
    for l in r.stdout.splitlines():
        q = re.match(r'VIOLATION property=(\S+)', l)
        if q: cur = q.group(1)
        elif l.strip().startswith('[') and cur: res[cur].append(l.strip()[:260])
        elif l.startswith('OK '): cur = None
    if r.returncode not in (0, 1): res[ps[0]].append('exit status %d %s' % (r.returncode, r.stderr[-300:]))
    return res
def job(m):
    name, props, edits = m
    d, err = prepare(edits)
    out = []
    try:
        if err: return name, ['ERROR ' + err]
        ps = props if props else allprops
        if prop: ps = [p for p in ps if p in prop.split(',')]
        if ps:
            for p, msgs in check(d, ps).items():
                if props: out.append(('caught ' if msgs else 'MISSED ') + p + (' ' + msgs[0] if msgs else ''))
                elif msgs: out.append('FALSE ALARM %s %s' % (p, msgs[0]))
        if not out: out = ['quiet']
        return name, out
    finally: shutil.rmtree(d)
ms = []
if mode in ('both', 'broken'):
    ms += [m for m in load('broken').M if not prop or set(prop.split(',')) & set(m[1] if isinstance(m[1], (list, tuple)) else m[1].split())]
if mode in ('both', 'benign'):
    ms += [(n, None, e) for n, e in load('benign').M]
if key: ms = [m for m in ms if key in m[0]]
bad = 0
with ThreadPoolExecutor(6) as ex:
    for name, out in ex.map(job, ms):
        for o in out:
            if o.startswith(('MISSED', 'ERROR', 'FALSE')): bad += 1
            print('%-28s %s' % (name, o), flush=True)
print('problems:', bad)
