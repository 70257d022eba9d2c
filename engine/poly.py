"""Emptiness of the polyhedron of a path: elimination of variables over the rationals.

Monomials are the variables; what is not linear is simply left free, so that
'empty' is always right and 'not empty' may be too cautious."""
from fractions import Fraction

LIMIT = 1500
_memo = {}


def empty(lits):
    """do the linear bounds of the path contradict each other?"""
    from .values import terms_of, is_nat
    if len(lits.bounds) < 2 or len(lits.bounds) > 40:
        return False
    key = frozenset((q, b) for q, b in lits.bounds.items())
    r = _memo.get(key)
    if r is None:
        r = _memo[key] = _empty(lits, terms_of, is_nat)
    return r


def _empty(lits, terms_of, is_nat):
    rows = []          # (dict monomial -> coefficient, bound, strict): sum < bound or <= bound
    monomials = set()
    sign = {}          # base -> 1: positive
    for q, (lo, ls, hi, hs) in lits.bounds.items():
        ts = dict(terms_of(q))
        c = ts.pop((), Fraction(0))
        if not ts:
            continue
        monomials.update(ts)
        if hi is not None:
            rows.append((ts, hi - c, hs))
        if lo is not None:
            rows.append(({m: -k for m, k in ts.items()}, c - lo, ls))
        if len(ts) == 1:
            (m, k), = ts.items()
            if len(m) == 1 and m[0][1] == 1:
                b = m[0][0]
                l, s = (lo, ls) if k > 0 else (hi, hs)
                if l is not None:
                    l = (l - c) / k
                    if l > 0 or l == 0 and s:
                        sign[b] = 1
    if len(monomials) > 14:
        return False
    for m in monomials:
        pos = all(b in sign for b, e in m)
        if len(m) >= 1 and pos and not (len(m) == 1 and m[0][1] == 1):
            rows.append(({m: Fraction(-1)}, Fraction(0), True))
        elif all(b in sign or is_nat(b) or isinstance(e, int) and e % 2 == 0 for b, e in m):
            rows.append(({m: Fraction(-1)}, Fraction(0), False))
    return _eliminate(rows)


def _eliminate(rows):
    while True:
        best = {}
        for r in rows:
            ts, b, s = r
            if not ts:
                if b < 0 or b == 0 and s:
                    return True
                continue
            # equal left sides: keep the tighter
            items = sorted(ts.items(), key=lambda x: id(x[0]))
            k = abs(items[0][1])
            key = tuple((m, c / k) for m, c in items)
            v = (b / k, not s)
            if key not in best or v < best[key]:
                best[key] = v
        rows = [(dict(k), v[0], not v[1]) for k, v in best.items()]
        if not rows:
            return False
        count = {}
        for ts, b, s in rows:
            for m, c in ts.items():
                p, n = count.get(m, (0, 0))
                count[m] = (p + 1, n) if c > 0 else (p, n + 1)
        m = min(count, key=lambda x: (count[x][0] * count[x][1] - count[x][0] - count[x][1], id(x)))
        p, n = count[m]
        if p * n + len(rows) - p - n > LIMIT:
            return False
        up, down, out = [], [], []
        for r in rows:
            c = r[0].get(m)
            (out if c is None else up if c > 0 else down).append(r)
        for ta, ba, sa in up:
            ca = ta[m]
            for tb, bb, sb in down:
                cb = -tb[m]
                ts = {}
                for x, c in ta.items():
                    ts[x] = c / ca
                for x, c in tb.items():
                    v = ts.get(x, 0) + c / cb
                    if v:
                        ts[x] = v
                    else:
                        ts.pop(x, None)
                ts.pop(m, None)
                out.append((ts, ba / ca + bb / cb, sa or sb))
        rows = out
