#!/usr/bin/env python3
"""Develop planted bugs.  plant.py SPEC.py [ids...] [--nocheck] [--notest]
SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=..., stubs=[...])]
Builds seeded/<id>/ and confirms everything; writes nothing to git."""
import sys, os, subprocess, json, shutil, time, re, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository, after the build.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/py2:"$PWD/python":"$here"
exec /opt/venv/bin/python "$here/demo.py"
'''
PRE = '''import sys, os, tempfile, shutil
import py2compat
import aces.clf as clf
TMP = tempfile.mkdtemp()
def check(got, want, what, tol=1e-5):
    import math
    g = [float(x) for x in (got if hasattr(got, '__iter__') else [got])]
    w = [float(x) for x in (want if hasattr(want, '__iter__') else [want])]
    ok = len(g) == len(w) and all((a == b) or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(b)) for a, b in zip(g, w))
    if not ok:
        print("WRONG: %s: got %s, expected %s" % (what, g, w))
        shutil.rmtree(TMP, ignore_errors=True)
        sys.exit(1)
def put(f, text):
    fp = open(f, "w")
    fp.write(text)
    fp.close()
def ok(cond, what):
    if not cond:
        print("WRONG: %s" % what)
        shutil.rmtree(TMP, ignore_errors=True)
        sys.exit(1)
'''
POST = '''
shutil.rmtree(TMP, ignore_errors=True)
print("ok")
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = set(a for a in sys.argv[1:] if a.startswith('--'))
    bugs = runpy.run_path(args[0])['BUGS']
    ids = args[1:]
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo dirty'
    for b in bugs:
        if ids and b['id'] not in ids: continue
        d = os.path.join(V, 'seeded', b['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.py', 'w').write(PRE + b['demo'].strip('\n') + POST)
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        for s in b.get('stubs', []): shutil.copy(V + '/stubs/' + s + '.py', d)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        st = []
        try:
            r = sh(d + '/demo.sh', cwd=R)
            st.append('clean:%d' % r.returncode)
            if r.returncode: print(b['id'], 'DEMO FAILS ON CLEAN', r.stdout[-800:]); continue
            for e in b['edits']:
                p = R + '/python/aces/' + e[0]; t = open(p, encoding='utf-8', newline='').read()
                crlf = '\r\n' in t
                o, n = e[1], e[2]
                if crlf: o = o.replace('\n', '\r\n'); n = n.replace('\n', '\r\n')
                pat = r'[ \t]*\r?\n(?:[ \t]*\r?\n)*'.join(re.escape(l.rstrip()) for l in o.strip('\n').splitlines() if l.strip())
                ms = list(re.finditer(pat, t)); k = e[3] if len(e) > 3 else None
                assert ms and (len(ms) == 1 or k is not None), (b['id'], e[0], 'matches', len(ms), e[1])
                m = ms[k or 0]
                t = t[:m.start()] + n.strip('\n') + t[m.end():]
                open(p, 'w', encoding='utf-8', newline='').write(t)
            diff = sh('git -C /repo diff').stdout
            open(d + '/patch.diff', 'w', newline='').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout.decode('utf-8'))
            # removed lines must be original
            f = None; bad = []
            for l in diff.splitlines():
                if l.startswith('--- a/'): f = l[6:]; orig = set(sh('git -C /repo show c834514:%s' % f).stdout.splitlines())
                elif l.startswith('-') and not l.startswith('---') and l[1:].strip():
                    if l[1:] not in orig: bad.append(l)
            if bad: st.append('NONORIG:%s' % bad)
            r = sh(d + '/demo.sh', cwd=R); st.append('patched:%d' % r.returncode)
            if r.returncode == 0: st.append('DEMO PASSES WITH BUG')
            st.append(r.stdout.strip().splitlines()[-1][:140] if r.stdout.strip() else '')
            if '--notest' not in opts:
                r = sh('bash /opt/vp/build.sh'); 
                if r.returncode: st.append('BUILD FAIL ' + r.stdout[-300:])
                r = sh('bash /opt/vp/test.sh /tmp/pl/out.json')
                o = json.load(open('/tmp/pl/out.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                st.append(judge(base, o))
            if '--nocheck' not in opts:
                t0 = time.time()
                r = sh(cmd(b['property']), cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                st.append('check rc=%d %s %.0fs' % (r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', time.time() - t0))
                if v: st.append(v[0][:200])
                elif r.returncode: st.append(r.stdout[-400:])
        finally:
            sh('git -C /repo checkout -- .')
        print(b['id'], b['property'], ' | '.join(st), flush=True)
def cmd(p):
    m = json.load(open(V + '/MANIFEST.json'))
    for c in m['checks']:
        if p in (c.get('property'), c.get('property_id'), c.get('id')): 
            q = c['quick_cmd']
            return q if isinstance(q, str) else q['cmd']
    raise KeyError(p)
def judge(base, o):
    names = base['stable']
    p = o['passed']
    miss = [n for n in names if n not in p]
    return 'tests ok' if not miss else 'TESTS FAIL %s' % miss
main()
