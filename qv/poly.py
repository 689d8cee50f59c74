"""Exact rational-function normal form over atoms, used to discharge equalities.

num/den pairs of polynomials with rational coefficients. Atoms are variables and
applications (sin(t), sqrt(t), ...), made canonical by recursively normalising
their arguments. Rewrites: sqrt(t)^2 -> t, cos(t)^2 -> 1 - sin(t)^2.
"""
from fractions import Fraction
from . import terms as T

MAXTERMS = 60000


class TooBig(Exception):
    pass


class Ctx:
    def __init__(self, subst=None):
        self.atoms = {}       # key -> index
        self.info = []        # index -> ('var', term) | ('uf', name, [ratfun]) ...
        self.memo = {}
        self.subst = subst or {}   # var id -> ratfun-able term

    def atom(self, key, info):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.info)
            self.atoms[key] = i
            self.info.append(info)
        return i


# polynomials: dict {exps tuple((atom, pow),...) sorted: Fraction}
def padd(a, b, s=1):
    r = dict(a)
    for m, k in b.items():
        n = r.get(m, 0) + s * k
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig
    r = {}
    for m1, k1 in a.items():
        for m2, k2 in b.items():
            m = mmul(m1, m2)
            n = r.get(m, 0) + k1 * k2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig
    return r


ONE = {(): Fraction(1)}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def pscale(p, k):
    return {m: c * k for m, c in p.items()}


class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else ONE

    def norm(self):
        if not self.n:
            return RF({}, ONE)
        # monomial content of both
        if is_const(self.d):
            k = self.d[()]
            return RF(pscale(self.n, 1 / k), ONE)
        if len(self.d) == 1:
            (dm, dk), = self.d.items()
            dd = dict(dm)
            common = dict(dd)
            for m in self.n:
                md = dict(m)
                for a in list(common):
                    common[a] = min(common[a], md.get(a, 0))
                    if common[a] == 0:
                        del common[a]
                if not common:
                    break
            if common:
                def sub(m):
                    md = dict(m)
                    for a, p in common.items():
                        md[a] -= p
                    return tuple(sorted((a, p) for a, p in md.items() if p))
                n = {sub(m): k / dk for m, k in self.n.items()}
                d = {sub(dm): Fraction(1)}
                return RF(n, d)
            return RF(pscale(self.n, 1 / dk), {dm: Fraction(1)})
        if self.n == self.d:
            return RF(ONE, ONE)
        # leading-coefficient normalisation
        lead = self.d[max(self.d)]
        if lead != 1:
            return RF(pscale(self.n, 1 / lead), pscale(self.d, 1 / lead))
        return self


def radd(a, b, s=1):
    if a.d == b.d:
        return RF(padd(a.n, b.n, s), a.d).norm()
    if is_const(a.d) and a.d[()] == 1:
        return RF(padd(pmul(a.n, b.d), b.n, s), b.d).norm()
    if is_const(b.d) and b.d[()] == 1:
        return RF(padd(a.n, pmul(b.n, a.d), s), a.d).norm()
    return RF(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d)).norm()


def rmul(a, b):
    if a.n == b.d:
        return RF(b.n, a.d).norm()
    if b.n == a.d:
        return RF(a.n, b.d).norm()
    return RF(pmul(a.n, b.n), pmul(a.d, b.d)).norm()


def key(rf):
    return (tuple(sorted(rf.n.items())), tuple(sorted(rf.d.items())))


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def reduce_poly(ctx, p):
    """apply sqrt/cos rewrites until fixpoint; returns (poly, denominator)."""
    den = ONE
    while True:
        best = None
        for m in p:
            for a, e in m:
                if e >= 2 and (best is None or a > best):
                    inf = ctx.info[a]
                    if inf[0] == "uf" and inf[1] in ("sqrt", "cos"):
                        best = a
        if best is None:
            return p, den
        inf = ctx.info[best]
        if inf[1] == "sqrt":
            rep = inf[2][0]
        else:
            s = ctx.atom(("uf", "sin", inf[3]), ("uf", "sin", inf[2], inf[3]))
            rep = RF(padd(ONE, {((s, 2),): Fraction(1)}, -1))
        parts = {}
        for m, k in p.items():
            e = dict(m).get(best, 0)
            h = e // 2
            rest = tuple((b, q) for b, q in m if b != best)
            if e % 2:
                rest = mmul(rest, ((best, 1),))
            q = parts.setdefault(h, {})
            n = q.get(rest, 0) + k
            if n:
                q[rest] = n
            else:
                q.pop(rest, None)
        top = max(parts)
        new = {}
        for h, q in parts.items():
            if not q:
                continue
            f = ppow(rep.n, h)
            if not is_const(rep.d):
                f = pmul(f, ppow(rep.d, top - h))
            else:
                f = pscale(f, Fraction(1) / rep.d[()] ** h)
            new = padd(new, pmul(q, f))
        if not is_const(rep.d):
            den = pmul(den, ppow(rep.d, top))
        p = new


def rreduce(ctx, rf):
    n, dn = reduce_poly(ctx, dict(rf.n))
    d, dd = reduce_poly(ctx, dict(rf.d))
    if not is_const(dn) or not is_const(dd):
        return RF(pmul(n, dd), pmul(d, dn)).norm()
    return RF(n, d).norm()


def nf(ctx, t):
    t = T.norm_num(t)
    if not T.is_term(t):
        t = Fraction(t)
        return RF({(): t} if t else {})
    r = ctx.memo.get(t.id)
    if r is not None:
        return r
    o = t.op
    if o == "lin":
        r = RF({(): Fraction(t.args[1])} if t.args[1] else {})
        groups = {}
        for m, k in t.args[0]:
            x = RF({(): Fraction(k)})
            for y, p in m:
                ny = nf(ctx, y)
                for _ in range(p):
                    x = rmul(x, ny)
            # sum terms with the same denominator first
            kd = tuple(sorted(x.d.items()))
            groups[kd] = radd(groups[kd], x) if kd in groups else x
        for x in groups.values():
            r = radd(r, x)
    elif o == "sum":
        r = nf(ctx, t.args[0])
    elif o == "toreal":
        r = nf(ctx, t.args[0])
    elif o == "inv":
        x = nf(ctx, t.args[0])
        r = RF(x.d, x.n).norm() if x.n else RF({((ctx.atom(("z", t.id), ("var", t)), 1),): Fraction(1)})
    elif o == "uf":
        args = [nf(ctx, a) for a in t.args[1:]]
        nm = t.args[0]
        sgn = 1
        if nm in ("sin", "cos") and args and args[0].n:
            # parity: canonical sign of the argument
            lead = args[0].n[max(args[0].n)]
            if lead < 0:
                args[0] = RF(pscale(args[0].n, -1), args[0].d)
                if nm == "sin":
                    sgn = -1
        kk = tuple(key(a) for a in args)
        i = ctx.atom(("uf", nm, kk), ("uf", nm, args, kk))
        r = RF({((i, 1),): Fraction(sgn)})
    else:
        if o == "var" and t.id in ctx.subst:
            r = nf(ctx, ctx.subst[t.id])
        else:
            i = ctx.atom(("t", t.id), ("var", t))
            r = RF({((i, 1),): Fraction(1)})
    r = rreduce(ctx, r)
    ctx.memo[t.id] = r
    return r


def is_zero(t, subst=None):
    """True if t normalises to 0 (sound); False: not shown."""
    try:
        return not nf(Ctx(subst), t).n
    except (TooBig, RecursionError, MemoryError):
        return False
