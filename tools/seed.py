"""Make and validate planted bugs.  tools/seed.py make <dir of specs> | run <id>...
A spec is a python file defining BUGS = [dict(id, property, file, old, new, main, needs, breaks)]."""
import json, os, shutil, subprocess, sys, time, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
V = os.path.abspath(V)
SC = '/tmp/seedwork'
PRE = 'use mixed_num::*;\nuse mixed_num::traits::*;\nuse mixed_num::trigonometry as tr;\nuse mixed_num::complex as cx;\nuse fixed::types::extra::*;\nuse fixed::*;\n#[allow(unused)] use num::Complex;\nfn close(a: f64, b: f64, e: f64) -> bool { (a - b).abs() <= e }\n'


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return set(b if isinstance(b, list) else b.keys())


def make(b):
    d = os.path.join(V, 'seeded', b['id'])
    work = SC + '/repo'
    os.makedirs(SC, exist_ok=True)
    if not os.path.exists(work):
        sh('cp -a /repo %s' % work, '/tmp')
    sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', work)
    base_bad = base_failures(work)
    sh('git checkout -q -- .', work)
    edits = b['edits'] if 'edits' in b else [(b['file'], b['old'], b['new'])]
    for f, old, new in edits:
        p = os.path.join(work, f)
        s = open(p).read()
        if s.count(old) < 1:
            return 'old text not found in %s' % f
        n = b.get('count', 1)
        if s.count(old) != n:
            return 'old text found %d times' % s.count(old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff -- src', work).stdout
    if not diff:
        return 'no change'
    # only original lines may go
    base = sh('git rev-list --max-parents=0 HEAD', work).stdout.strip()
    r = sh('cargo test --offline --no-fail-fast 2>&1', work)
    out = r.stdout
    if 'could not compile' in out:
        return 'does not compile: ' + '\n'.join(re.findall(r'^error.*\n.*', out, re.M))
    bad = re.findall(r'^test (.*) \.\.\. FAILED', out, re.M)
    st = stable()
    hit = [x for x in bad if any(x in y or y in x for y in st)]
    hit = [x for x in bad if re.sub(r' \(line \d+\)', '', x) not in base_bad]
    if hit:
        return 'tests fail: %s' % hit
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(V + '/tools/seedkit/demo.sh', d + '/demo.sh')
    shutil.copy(V + '/tools/seedkit/demo.lock', d + '/demo.lock')
    open(d + '/main.rs', 'w').write(PRE + b.get('pre', '') + 'fn main() {\n' + b['main'] + '\n}\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh(d + '/demo.sh', work)
    if r.returncode == 0:
        return 'demo passes with the bug'
    if r.returncode == 124 and not b.get('hang'):
        return 'demo timed out'
    if 'could not compile' in r.stderr:
        return 'demo does not compile: ' + r.stderr[-1500:]
    r = sh(d + '/demo.sh', '/repo')
    if r.returncode:
        return 'demo fails on the unchanged tree: ' + r.stderr[-800:]
    return None


def base_failures(work, memo={}):
    if 'x' not in memo:
        r = sh('cargo test --offline --no-fail-fast 2>&1', work)
        memo['x'] = set(re.sub(r' \(line \d+\)', '', x) for x in re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M))
    return memo['x']


def run(i, props=None):
    """Run the check of the property on a copy with the bug (separate work tree)."""
    d = os.path.join(V, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    if sh('git apply --check %s/patch.diff' % d, '/repo').returncode:
        return i, p, 'patch does not apply', 0
    t = time.time()
    r = sh('git -C /repo apply %s/patch.diff && (bin/check %s; echo RC=$?); git -C /repo checkout -q -- .' % (d, p), V, 900)
    v = re.search(r'^VIOLATION property=\S+ replay=\S+(.*)$', r.stdout, re.M)
    res = 'MISSED' if not v else ('caught' + (' (no input)' if 'no-failing' in v.group(1) else ''))
    return i, p, res, time.time() - t, r.stdout


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            ns = {}
            exec(open(f).read(), ns)
            for b in ns['BUGS']:
                if os.path.exists(os.path.join(V, 'seeded', b['id'], 'meta.json')):
                    continue
                e = make(b)
                print(b['id'], 'ok' if e is None else 'REJECTED: ' + e, flush=True)
                if e is not None:
                    shutil.rmtree(os.path.join(V, 'seeded', b['id']), ignore_errors=True)
    else:
        ids = [i for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')) if os.path.exists(V + '/seeded/' + i)]
        for i in ids:
            r = run(i)
            print(*r[:3], '%.0f s' % r[3], flush=True)
            if r[2] != 'caught' and len(r) > 4:
                print('\n'.join('      ' + l for l in r[4].splitlines()[:8]))
