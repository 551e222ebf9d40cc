"""Decide one property: obligations first, native replay of what is not discharged."""
import fcntl, hashlib, json, os, re, subprocess, sys, time, traceback
from collections import Counter
from . import mir, smt
from .models import is_fx

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
LIMIT = 420       # seconds the proofs may take in the quick tier; what is left is undecided
REPLAY_DIR = os.path.join(VERIF, 'replays')

# the oracle for anything the verifier cannot finish, with its bounds (see replay/src)
BOUND = 'about 10^4 to 10^6 inputs per run over representative types and every type named by an undischarged obligation'


def props():
    from props import PROPS
    return PROPS


class NoWorld(Exception):
    """Stands for the program when the front end could not read the MIR."""
    front_s, cmd, fn_used, assumed, bounded, mir_bytes, cached, src_hash = 0.0, '', {}, {}, [], 0, False, ''


class Timer:
    def __init__(self):
        self.t0 = time.time()

    def s(self):
        return time.time() - self.t0


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- native replay

REP_S = [('I', 8, 0), ('I', 8, 5), ('I', 16, 8), ('I', 16, 13), ('I', 32, 16), ('I', 32, 29), ('I', 64, 32), ('I', 64, 61)]
REP_U = [('U', 8, 5), ('U', 16, 8), ('U', 32, 16), ('U', 64, 32)]


def types_rs(extra, only):
    s, u = [], []
    for t in extra:
        if isinstance(t, tuple) and t and t[0] == 'fx':
            k = (t[1], t[2], t[3])
            l = s if t[1] == 'I' else u
            if k not in l:
                l.append(k)

    def thin(l):
        if len(l) <= 10:
            return l
        return [l[i * len(l) // 10] for i in range(10)]
    s, u = thin(s), thin(u)
    if not only:
        s += [k for k in REP_S if k not in s]
        u += [k for k in REP_U if k not in u]

    def mac(nm, l):
        b = ''.join('    $m!($c, fixed::Fixed%s%d<fixed::types::extra::U%d>, %s%d, %d);\n' % (
            k, w, f, k.lower(), w, f) for k, w, f in l)
        return 'macro_rules! %s { ($m:ident, $c:expr) => {\n%s} }\n' % (nm, b)
    return mac('fx_signed', s) + mac('fx_unsigned', u)


NUM = re.compile(r'(?<![\w.])-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?(?![\w])')


def hints_of(obs, limit=24):
    """Constants named by the failed paths and the solver's models."""
    c = Counter()
    for o in obs:
        for txt in [o.detail] + [str(h) for h in o.hints]:
            txt = re.sub(r'FixedI?U?\d+<U?\d+>|[iuf](?:8|16|32|64|128)\b|a\d+(?:\.\w+)?', ' ', txt or '')
            for m in set(NUM.findall(txt[:4000])):
                c[m] += 1
            for m in re.findall(r'(-?\d+)/(\d+)', txt[:4000]):
                if int(m[1]):
                    c[repr(int(m[0]) / int(m[1]))] += 1
    out = []
    for v, _ in c.most_common(limit):
        try:
            f = float(v)
        except ValueError:
            continue
        out.append(v)
        if re.fullmatch(r'-?\d+', v) and abs(int(v)) < 1 << 126:
            out.append('b:' + v)
    return out


def replay(pid, types, hints, seed, only=False, timeout=240, run_timeout=120):
    """-> dict(built, cases, hard[], soft[], log)"""
    gen = os.path.join(mir.BUILD, 'gen-%s' % pid.lower())
    tgt = os.path.join(mir.BUILD, 'replay-%s' % pid.lower())
    os.makedirs(gen, exist_ok=True)
    txt = types_rs(types, only)
    p = os.path.join(gen, 'types.rs')
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, 'w').write(txt)
    env = dict(os.environ, REPLAY_GEN=gen, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true')
    env.pop('CARGO_BUILD_TARGET', None)
    t = Timer()
    cmd = ['cargo', 'build', '--offline', '--features', pid.lower()]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'replay'), env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(built=False, cases=0, hard=[], soft=[], log='replay build timed out', build_s=t.s(), run_s=0)
    if r.returncode:
        return dict(built=False, cases=0, hard=[], soft=[], log=r.stderr[-3000:], build_s=t.s(), run_s=0)
    b = t.s()
    env['REPLAY_HINTS'] = ' '.join(hints)
    env['VERIF_SEED'] = str(seed)
    try:
        r = subprocess.run([os.path.join(tgt, 'debug', 'replay')], cwd=gen, env=env, capture_output=True, text=True, timeout=run_timeout)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
    hard = [l[14:] for l in out.splitlines() if l.startswith('MISMATCH hard ')]
    soft = [l[14:] for l in out.splitlines() if l.startswith('MISMATCH soft ')]
    m = re.search(r'DONE cases=(\d+)', out)
    return dict(built=True, cases=int(m.group(1)) if m else 0, hard=hard, soft=soft, log='' if m else out[-2000:],
                build_s=b, run_s=t.s() - b)


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """Lines `finding: property=<id> match=<text in the mismatch> | <what fails>`."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- main

def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t = Timer()
    os.makedirs(mir.BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(REPLAY_DIR, exist_ok=True)
    from .core import World, OK, FAILED, UNDEC, Ob
    lock = open(os.path.join(mir.BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        w = World()
    except mir.BuildError as e:
        log('ERROR: %s does not compile:\n%s' % (mir.REPO, str(e)[-3000:]))
        return 2
    except Exception:
        w = NoWorld(traceback.format_exc())
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
    spec = props()[pid]
    from . import core
    core.DEADLINE[0] = t.t0 + (LIMIT if tier == 'quick' else 6 * LIMIT)
    try:
        if isinstance(w, NoWorld):
            raise w
        core.arm(True)
        obs, missing = spec.fn(w) if not spec.tiered else spec.fn(w, tier)
        core.arm(False)
    except (Exception, core.TimeUp):
        core.arm(False)
        tb = traceback.format_exc()
        obs, missing = core.FAILURES + [Ob('verification of %s' % pid, '-', UNDEC, 'executor', tb[-1500:])], []
    if not obs:
        obs = [Ob('contracts of %s' % pid, '-', UNDEC, 'executor', 'no function matches the contracts')]
    deps_sum = None
    if spec.dep and all(o.status == OK for o in obs):
        try:
            from . import deps
            types = sorted({f.ret for f in w.fns('mixed_from_num') if is_fx(f.ret)}, key=lambda x: (x[1], x[2], x[3]))
            deps_sum, refuted = deps.discharge(w, spec.dep, types, tier, min(240, max(60, core.DEADLINE[0] - time.time() - 60)) if tier == 'quick' else 3600)
            obs += refuted          # an assumption that does not hold: the proofs that use it are replayed
        except (Exception, core.TimeUp):
            deps_sum = {'not_available': traceback.format_exc()[-600:]}
        core.arm(False)
    for m in missing:
        obs.append(Ob('anchor: ' + m, '-', UNDEC, 'front end', 'function under contract not found'))
    ver_s = t.s() - w.front_s

    done = [o for o in obs if o.status == OK and not o.weak]
    weak = [o for o in obs if o.status == OK and o.weak]
    bad = [o for o in obs if o.status == FAILED]
    und = [o for o in obs if o.status == UNDEC]
    rest = bad + und + weak
    rp = None
    if rest or tier == 'thorough' or spec.always_replay:
        types = []
        for o in rest:
            for x in o.types:
                if x not in types:
                    types.append(x)
        rp = replay(pid, types, hints_of(rest), seed, run_timeout=120 if tier == "quick" else 900)
        if rp['built'] and rest and not rp['hard'] and tier == 'thorough':
            for k in range(1, 6):
                r2 = replay(pid, types, hints_of(rest), seed + 1000 * k)
                rp['cases'] += r2['cases']
                rp['hard'] += r2['hard']
                rp['soft'] += r2['soft']
                if rp['hard']:
                    break

    # decision
    findings = []
    hard = rp['hard'] if rp else []
    unlisted = []
    for h in hard:
        k = [d for mt, d in known_findings(pid) if mt and mt in h]
        if k:
            findings.append(k[0])
        else:
            unlisted.append(h)
    for mt, d in known_findings(pid):
        for o in list(bad):
            if mt and mt in o.name + ' ' + o.detail:
                findings.append(d)
                bad.remove(o)
    verdict, tail = 0, ''
    if unlisted:
        verdict = 1
    elif bad and not (hard and not unlisted):
        verdict, tail = 1, ' no-failing-input-found'
    for d in dict.fromkeys(findings):
        log('KNOWN-FINDING: property=%s %s' % (pid, d))

    # report
    n = len(obs)
    log('%s: %d obligations, %d discharged, %d failed, %d undecided, %d over the reals only; %.1f s (front end %.1f s)' % (
        pid, n, len(done), len(bad), len(und), len(weak), t.s(), w.front_s))
    for o in (bad + und + weak)[:8]:
        log('  %s [%s] %s' % (o.name, o.status if not o.weak else 'reals only', o.detail[:300]))
    if deps_sum:
        log('  contracts on dependencies, from their source: %s' % ', '.join('%s %s' % (k, deps_sum[k]) for k in ('obligations', 'discharged', 'left_assumed', 'not_available') if deps_sum.get(k)))
    if rp:
        log('  native replay: %s, %d cases, %d hard and %d rounding-level mismatches' % (
            'built' if rp['built'] else 'not built', rp['cases'], len(rp['hard']), len(rp['soft'])))
    path = None
    if verdict:
        nm = hashlib.sha256(('\n'.join([o.name for o in bad] + unlisted)).encode()).hexdigest()[:12]
        path = os.path.join('replays', '%s-%s.txt' % (pid, nm))
        with open(os.path.join(VERIF, path), 'w') as f:
            f.write('property %s\n\n' % pid)
            f.write('failed obligations (%d):\n' % len(bad))
            for o in bad[:60]:
                f.write('  %s\n    function: %s\n    back end: %s\n    %s\n' % (o.name, o.fn, o.backend, o.detail))
            if und or weak:
                f.write('\nnot discharged (%d):\n' % len(und + weak))
                for o in (und + weak)[:30]:
                    f.write('  %s\n    %s\n' % (o.name, o.detail[:600]))
            f.write('\nnative replay of the real code (%s):\n' % ('not run' if not rp else '%d cases' % rp['cases']))
            for h in unlisted[:40]:
                f.write('  failing input: %s\n' % h)
            for h in (rp['soft'] if rp else [])[:20]:
                f.write('  rounding-level difference: %s\n' % h)
            if rp and rp['log']:
                f.write(rp['log'] + '\n')
            f.write('\nrerun: cd /verif && VERIF_SEED=%d bin/check %s\n' % (seed, pid))
        for h in unlisted[:4]:
            log('  failing input: %s' % h)
        log('VIOLATION property=%s replay=%s%s' % (pid, path, tail))

    level = 'proof' if not und and not weak else 'other'
    byfn = Counter(o.fn for o in obs)
    be = Counter(o.backend for o in done)
    cov = {
        'obligations': n, 'discharged': len(done), 'failed': len(bad), 'undecided': len(und), 'reals_only': len(weak),
        'checker_cmd': 'bin/check %s' % pid,
        'front_end_cmd': w.cmd,
        'functions_under_contract': len(byfn),
        'functions': [k for k, _ in byfn.most_common(40)],
        'functions_executed': sorted(w.fn_used)[:200] if len(w.fn_used) <= 400 else '%d functions' % len(w.fn_used),
        'back_ends': dict(be), 'solver_queries': smt.STATS.get('queries', 0),
        'solver_s': round(smt.STATS.get('time', 0.0), 2), 'verification_s': round(ver_s, 2),
        'front_end_s': round(w.front_s, 2), 'mir_bytes': w.mir_bytes, 'mir_cached': w.cached, 'tree_hash': w.src_hash,
        'trusted_base': spec.trusted + ['contracts assumed on dependencies, with uses: ' + ', '.join(
            '%s x%d' % kv for kv in sorted(w.assumed.items())[:60])],
        'explanation': 'every obligation is generated from the MIR of the current tree; obligations not discharged '
                       'are replayed natively (bounded: %s) and never counted as proved' % BOUND,
        'samples': [{'obligation': o.name, 'back_end': o.backend} for o in done[:3] + done[len(done) // 2:len(done) // 2 + 2] + done[-1:]],
    }
    if deps_sum:
        cov['dependency_contracts'] = deps_sum
    if w.bounded:
        cov['bounded'] = w.bounded
    if rp:
        cov['replay'] = {k: rp[k] for k in ('built', 'cases', 'build_s', 'run_s')}
        cov['replay'].update(hard=len(rp['hard']), rounding_level=len(rp['soft']))
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': spec.assumptions, 'wall_s': round(t.s(), 2), 'violations': 1 if verdict else 0}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    return verdict
