"""Behaviour-preserving edits: every obligation should stay discharged (prover only, on a scratch copy).
tools/refactor.py <spec.py> [id...]   A spec defines EDITS = [dict(id, props, edits=[(file, old, new[, count])])]."""
import os, subprocess, sys, time
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
W = '/tmp/refwork/repo'
RUN = '''
import sys, time
sys.path.insert(0, %r)
import props
from mirvc.core import World, OK, FAILED
w = World()
for p in sys.argv[1:]:
    t = time.time()
    obs, miss = props.PROPS[p].fn(w)
    bad = [o for o in obs if o.status != OK or o.weak]
    f = [o for o in bad if o.status == FAILED]
    print('  ', p, 'OK' if not bad and not miss else 'ALARM' if f else 'undecided', len(obs), 'obligations,', len(bad), 'open', len(f), 'failed', miss, '%%.0f s' %% (time.time() - t), flush=True)
    for o in bad[:4]:
        print('       ', o.status, o.name, '|', o.detail[:500])
''' % V


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.exists(W):
        os.makedirs(os.path.dirname(W), exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', W], check=True)
    for e in ns['EDITS']:
        if len(sys.argv) > 2 and e['id'] not in sys.argv[2:]:
            continue
        subprocess.run('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', shell=True, cwd=W, check=True)
        ok = True
        for ed in e['edits']:
            f, old, new = ed[:3]
            p = os.path.join(W, f)
            s = open(p).read()
            if old is None:
                s += new
            elif s.count(old) < 1:
                print(e['id'], 'text not found:', old)
                ok = False
            else:
                s = s.replace(old, new, ed[3] if len(ed) > 3 else -1)
            open(p, 'w').write(s)
        if not ok:
            continue
        print(e['id'], flush=True)
        r = subprocess.run([sys.executable, '-c', RUN] + e['props'], env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
        print(r.stdout, end='', flush=True)
        if r.returncode:
            print('   ERROR', r.stderr[-1500:])


main()
