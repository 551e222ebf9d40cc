"""Real-number normal form: rational functions over opaque atoms."""
from fractions import Fraction
from .terms import Term, num_val
from .mir import FLOATS
from .models import is_abs, is_fx


class TooBig(Exception):
    pass


_akey = {}


def nf(t, memo):
    r = memo.get(t)
    if r is None:
        r = _nf(t, memo)
        memo[t] = r
    return r


def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        v2 = r.get(k, 0) + s * v
        if v2:
            r[k] = v2
        else:
            r.pop(k, None)
    return r


def pmul(p, q):
    if len(p) * len(q) > 20000:
        raise TooBig()
    r = {}
    for k1, v1 in p.items():
        for k2, v2 in q.items():
            d = dict(k1)
            for a, e in k2:
                d[a] = d.get(a, 0) + e
            k = tuple(sorted(d.items()))
            v = r.get(k, 0) + v1 * v2
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


def _const(v):
    return {(): Fraction(v)} if v else {}


def _nf(t, memo):
    v = num_val(t)
    if v is not None:
        return _const(v), ONE
    op = t.op
    if op in ('add', 'sub', 'mul', 'div') and t.ty != 'bool':
        (n1, d1), (n2, d2) = nf(t.args[0], memo), nf(t.args[1], memo)
        if op == 'mul':
            return pmul(n1, n2), pmul(d1, d2)
        if op == 'div':
            return pmul(n1, d2), pmul(d1, n2)
        if d1 == d2:
            return padd(n1, n2, 1 if op == 'add' else -1), d1
        return padd(pmul(n1, d2), pmul(n2, d1), 1 if op == 'add' else -1), pmul(d1, d2)
    if op == 'neg':
        n, d = nf(t.args[0], memo)
        return {k: -v for k, v in n.items()}, d
    # atom, identified up to normal form of its arguments
    key = (op, str(t.ty), str(t.val), tuple(canon(nf(a, memo)) for a in t.args)) if t.args else ('leaf', t.id)
    a = _akey.setdefault(key, len(_akey))
    return {((a, 1),): Fraction(1)}, ONE


def canon(r):
    n, d = r
    if not d:
        return ('div0', tuple(sorted(n.items())))
    # scale so that the first denominator coefficient is 1
    c = d[min(d)]
    return (tuple(sorted((k, v / c) for k, v in n.items())), tuple(sorted((k, v / c) for k, v in d.items())))


def real_equal(a, b):
    """True when a and b are equal as real expressions (where defined)."""
    memo = {}
    try:
        (n1, d1), (n2, d2) = nf(a, memo), nf(b, memo)
        if not d1 or not d2:
            return False
        return pmul(n1, d2) == pmul(n2, d1)
    except (TooBig, RecursionError):
        return False
