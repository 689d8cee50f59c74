"""Path-complete symbolic exploration and obligation discharge.

The function under contract is re-executed once per feasible path. `check`
obligations are discharged under the path condition by (1) polynomial normal
form, (2) z3, (3) cvc5. A satisfiable negation yields a model.
"""
from __future__ import annotations
import random
import time
from fractions import Fraction
import z3
from . import terms as T
from . import poly

_cur = [None]


def current():
    if _cur[0] is None:
        raise RuntimeError("no exploration running")
    return _cur[0]


def current_or_none():
    return _cur[0]


class PathEnd(Exception):
    """assume(False) or infeasible path."""


class Unsupported(Exception):
    """the engine cannot model a construct: undecided, never a violation."""


class Budget(Unsupported):
    pass


class Failure:
    def __init__(self, tag, model, detail, confirmed):
        self.tag, self.model, self.detail, self.confirmed = tag, model, detail, confirmed
        self.exact = False  # the query had no uninterpreted function


class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.by = {"normal-form": 0, "z3": 0, "cvc5": 0, "constant": 0}
        self.failures = []
        self.undecided = []
        self.tags = {}
        self.solver_s = 0.0
        self.error = None
        self.covered = set()

    def ok(self):
        return not self.failures and not self.undecided and self.error is None and self.discharged > 0

    def as_dict(self):
        return dict(paths=self.paths, obligations=self.obligations, discharged=self.discharged, by=self.by,
                    failures=[f.tag for f in self.failures], undecided=self.undecided, solver_s=round(self.solver_s, 3),
                    error=self.error, tags=self.tags)


class ToZ3:
    def __init__(self):
        self.axioms = []
        self.pending = []
        self.memo = {}
        self.ufs = {}

    def conv(self, t):
        t = T.norm_num(t) if not isinstance(t, bool) else t
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if isinstance(t, int):
            return z3.IntVal(t)
        if isinstance(t, Fraction):
            return z3.RealVal(str(t))
        r = self.memo.get(t.id)
        if r is None:
            r = self._conv(t)
            self.memo[t.id] = r
        return r

    def real(self, t):
        e = self.conv(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def _conv(self, t):
        o = t.op
        if o == "var":
            n = t.args[0]
            if t.sort == T.I:
                e = z3.Int(n)
                if t.lo is not None:
                    self.axioms.append(e >= t.lo)
                if t.hi is not None:
                    self.axioms.append(e <= t.hi)
                return e
            return z3.Real(n) if t.sort == T.R else z3.Bool(n)
        if o == "lin":
            es = []
            c = t.args[1]
            if c != 0 or not t.args[0]:
                es.append(z3.RealVal(str(c)) if t.sort == T.R else z3.IntVal(c))
            for m, k in t.args[0]:
                f = []
                if k != 1:
                    f.append(z3.RealVal(str(k)) if t.sort == T.R else z3.IntVal(k))
                for y, p in m:
                    ey = self.real(y) if t.sort == T.R else self.conv(y)
                    f.extend([ey] * p)
                e = f[0]
                for x in f[1:]:
                    e = e * x
                es.append(e)
            return es[0] if len(es) == 1 else z3.Sum(es)
        if o == "sum":
            return self.conv(t.args[0])
        if o == "toreal":
            return z3.ToReal(self.conv(t.args[0]))
        if o == "inv":
            x = self.real(t.args[0])
            e = z3.Real(f"inv!{t.id}")
            self.axioms.append(z3.Implies(x != 0, e * x == 1))
            return e
        if o == "div" or o == "mod":
            a, b = t.args
            ea, eb = self.conv(a), self.conv(b)
            if not T.is_term(b):
                # z3 integer div/mod: Euclidean, equals floor for positive divisor
                if b > 0:
                    return ea / eb if o == "div" else ea % eb
            q = z3.Int(f"q!{_kid(a)}!{_kid(b)}")
            r = z3.Int(f"r!{_kid(a)}!{_kid(b)}")
            self.axioms += [z3.Implies(eb != 0, ea == q * eb + r),
                            z3.Implies(eb > 0, z3.And(r >= 0, r < eb)),
                            z3.Implies(eb < 0, z3.And(r <= 0, r > eb))]
            return q if o == "div" else r
        if o == "floor":
            return z3.ToInt(self.real(t.args[0]))
        if o == "ite":
            c, a, b = t.args
            if t.sort == T.R:
                return z3.If(self.conv(c), self.real(a), self.real(b))
            return z3.If(self.conv(c), self.conv(a), self.conv(b))
        if o == "not":
            return z3.Not(self.conv(t.args[0]))
        if o == "and":
            return z3.And([self.conv(x) for x in t.args])
        if o == "lt":
            return self.conv(t.args[0]) < 0
        if o == "le":
            return self.conv(t.args[0]) <= 0
        if o == "eq0":
            return self.conv(t.args[0]) == 0
        if o == "uf":
            nm = t.args[0]
            args = [self.conv(a) for a in t.args[1:]]
            rs = {T.I: z3.IntSort(), T.R: z3.RealSort(), T.B: z3.BoolSort()}[t.sort]
            if not args:
                e = z3.Const(f"uf!{nm}", rs)
                if nm == "inf":
                    self.axioms.append(e > 10**30)
                if nm == "ninf":
                    self.axioms.append(e < -10**30)
                return e
            f = self.ufs.get((nm, len(args), t.sort))
            if f is None:
                f = z3.Function(nm, *[a.sort() for a in args], rs)
                self.ufs[(nm, len(args), t.sort)] = f
            e = f(*args)
            if nm == "sqrt":
                x = args[0]
                self.axioms.append(z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)))
            elif nm in ("sin", "cos"):
                x = args[0]
                other = "cos" if nm == "sin" else "sin"
                g = self.ufs.get((other, 1, t.sort))
                if g is None:
                    g = z3.Function(other, z3.RealSort(), z3.RealSort())
                    self.ufs[(other, 1, t.sort)] = g
                o2 = g(x)
                self.axioms += [e * e + o2 * o2 == 1, e <= 1, e >= -1]
            elif nm == "exp":
                self.axioms.append(e > 0)
            return e
        raise Unsupported("z3 conversion of " + o)


def _kid(x):
    return str(x.id) if T.is_term(x) else str(x).replace("-", "m")


class Explorer:
    def __init__(self, max_paths=2000, timeout_ms=8000, total_s=300.0, feas_ms=1500, stop_on_first=False):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.total_s = total_s
        self.res = Result()
        self.stop_on_first = stop_on_first
        self.vars = {}
        self.bad = {}
        self.rng = random.Random(7)

    # ---- running -------------------------------------------------------
    def run(self, f):
        t0 = time.time()
        self.deadline = t0 + self.total_s
        work = [[]]
        prev = _cur[0]
        _cur[0] = self
        try:
            while work:
                if self.res.paths >= self.max_paths:
                    raise Budget(f"more than {self.max_paths} paths")
                if time.time() > self.deadline:
                    raise Budget("time budget")
                prefix = work.pop()
                self.prefix, self.pos = prefix, 0
                self.pc = []
                self.tz = ToZ3()
                self._solver = None
                self.nax = 0
                self.taken = []
                self.new = []
                self.vars = {}
                self.ent_memo = {}
                self.path_info = []
                self.subst = {}
                self.unknown_branch = False
                completed = True
                try:
                    f()
                except PathEnd:
                    completed = False
                self.res.paths += 1
                if completed:
                    self.res.covered.add("path-end")
                work.extend(self.new)
                if self.stop_on_first and self.res.failures:
                    break
                if len(self.res.failures) > 300:
                    raise Budget("many obligations fail")
        except Unsupported as e:
            self.res.error = f"{type(e).__name__}: {e}"
        finally:
            _cur[0] = prev
        return self.res

    # ---- solver --------------------------------------------------------
    @property
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", self.feas_ms)
        return self._solver

    def _assert(self, c):
        self.pc.append(c)
        e = self.tz.conv(c)
        self._flush()
        self.solver.add(e)

    def _flush(self):
        while self.nax < len(self.tz.axioms):
            self.solver.add(self.tz.axioms[self.nax])
            self.nax += 1

    def _check(self, *extra):
        es = [self.tz.conv(x) for x in extra]
        self._flush()
        t = time.time()
        r = self.solver.check(*es)
        self.res.solver_s += time.time() - t
        return r

    def entails(self, c):
        if isinstance(c, bool):
            return c
        k = (c.id, len(self.pc))
        r = self.ent_memo.get(k)
        if r is None:
            if self.ent_memo.get((c.id, "yes")):
                return True
            r = self._check(T.Not(c)) == z3.unsat
            self.ent_memo[k] = r
            if r:
                self.ent_memo[(c.id, "yes")] = True
        return r

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self._assert(c)
        if self._check() == z3.unsat:
            raise PathEnd()

    def branch(self, c):
        if isinstance(c, bool):
            return c
        if time.time() > self.deadline:
            raise Budget("time budget")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            self._assert(c if d else T.Not(c))
            return d
        rt = self._check(c)
        rf = self._check(T.Not(c))
        if rt == z3.unknown or rf == z3.unknown:
            self.unknown_branch = True
        if rt == z3.unsat and rf == z3.unsat:
            raise PathEnd()
        if rt == z3.unsat:
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            d = True
            self.new.append(self.taken + [False])
            if self.res.paths + len(self.new) > self.max_paths * 4:
                raise Budget("path explosion")
        self.taken.append(d)
        self._assert(c if d else T.Not(c))
        self.pos += 1
        return d

    def concretize(self, t, limit=64):
        """fork over the (finitely many) values of an Int term."""
        if not T.is_term(t):
            return int(t)
        if t.sort != T.I:
            raise Unsupported("concretize a non-integer")
        lo, hi = T.bounds(t)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # replay: prefix entries store the candidate
                v = self.prefix[self.pos]
                if isinstance(v, tuple):
                    _, val, d = v
                    self.pos += 1
                    self.taken.append(v)
                    self._assert(T.eq(t, val) if d else T.Not(T.eq(t, val)))
                    if d:
                        return val
                    n += 1
                    continue
                raise Unsupported("replay mismatch")
            self.tz.conv(t)
            self._flush()
            if self._check() != z3.sat:
                raise PathEnd()
            m = self.solver.model()
            val = m.eval(self.tz.conv(t), model_completion=True).as_long()
            c = T.eq(t, val)
            if isinstance(c, bool):
                return val
            if self._check(T.Not(c)) != z3.unsat:
                self.new.append(self.taken + [("c", val, False)])
                n += 1
            if n > limit:
                raise Budget("unbounded concretisation of an integer")
            self.taken.append(("c", val, True))
            self.pos += 1
            self._assert(c)
            return val

    def choose(self, name, lo, hi):
        """an input that takes every value of [lo, hi], each on its own path"""
        if name in self.vars:
            return self.vars[name]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            if not (isinstance(v, tuple) and v[0] == "p" and v[1] == name):
                raise Unsupported("replay mismatch")
        else:
            if time.time() > self.deadline:
                raise Budget("time budget")
            v = ("p", name, lo)
            for k in range(hi, lo, -1):
                self.new.append(self.taken + [("p", name, k)])
        self.pos += 1
        self.taken.append(v)
        self.vars[name] = v[2]
        return v[2]

    # ---- inputs --------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        v = T.var(name, T.I, lo, hi)
        self.vars[name] = v
        return v

    def real(self, name):
        v = T.var(name, T.R)
        self.vars[name] = v
        return v

    def bool(self, name):
        v = T.var(name, T.B)
        self.vars[name] = v
        return v

    # ---- obligations ---------------------------------------------------
    def model_values(self, m):
        out = {}
        for n, v in self.vars.items():
            if not T.is_term(v):
                out[n] = v
                continue
            e = m.eval(self.tz.conv(v), model_completion=True)
            try:
                if v.sort == T.I:
                    out[n] = e.as_long()
                elif v.sort == T.B:
                    out[n] = z3.is_true(e)
                else:
                    if z3.is_algebraic_value(e):
                        e = e.approx(30)
                    out[n] = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            except Exception:
                out[n] = 0
        return out

    def path_model(self):
        if self._check() == z3.sat:
            return self.model_values(self.solver.model())
        return None

    def check_eq(self, a, b, tag):
        if T.is_term(a) and a.sort == T.B or isinstance(a, bool):
            return self.check(T.eq(a, b), tag)
        d = T.sub(a, b)
        if T.is_term(d) and not _has_ite(d):
            t = time.time()
            z = poly.is_zero(d, self.subst)
            self.res.solver_s += time.time() - t
            if z:
                self._count(tag)
                self.res.discharged += 1
                self.res.by["normal-form"] += 1
                return True
        elif T.is_term(d):
            # case split on the ite conditions
            return self._split_eq(a, b, d, tag)
        return self.check(T.eq(a, b), tag)

    def _split_eq(self, a, b, d, tag, depth=0):
        c = _first_ite(d)
        if c is None:
            if not T.is_term(d) and d == 0 or T.is_term(d) and poly.is_zero(d, self.subst):
                if depth == 0:
                    self._count(tag)
                    self.res.discharged += 1
                    self.res.by["normal-form"] += 1
                return True
            return None
        if depth == 0:
            t = time.time()
            ok = self._split_rec(d, 0)
            self.res.solver_s += time.time() - t
            if ok:
                self._count(tag)
                self.res.discharged += 1
                self.res.by["normal-form"] += 1
                return True
            return self.check(T.eq(a, b), tag)

    def _split_rec(self, d, depth):
        if not T.is_term(d):
            return d == 0
        c = _first_ite(d)
        if c is None:
            return poly.is_zero(d, self.subst)
        if depth > 10:
            return False
        for val, cond in ((True, c), (False, T.Not(c))):
            e = self.tz.conv(cond)
            self._flush()
            self.solver.push()
            self.solver.add(e)
            feas = self.solver.check() != z3.unsat
            ok = True
            if feas:
                d2 = T.rebuild(d, lambda t, c=c, v=val: (v if t is c else None), {})
                ok = self._split_rec(d2, depth + 1)
            self.solver.pop()
            # axioms flushed inside push are lost: re-add
            for ax in self.tz.axioms:
                self.solver.add(ax)
            self.nax = len(self.tz.axioms)
            if not ok:
                return False
        return True

    def _count(self, tag):
        self.res.obligations += 1
        self.res.tags[tag] = self.res.tags.get(tag, 0) + 1

    def check(self, c, tag):
        self._count(tag)
        if isinstance(c, bool):
            if c:
                self.res.discharged += 1
                self.res.by["constant"] += 1
                return True
            r = self._check()
            if r == z3.unsat:
                self.res.discharged += 1
                self.res.by["z3"] += 1
                return True
            m = self.model_values(self.solver.model()) if r == z3.sat else None
            self._fail(tag, m, "condition is false on a feasible path" if r == z3.sat else "false on a path of unknown feasibility", r == z3.sat)
            return False
        m = self._guess(c)
        if m is not None:
            self._fail(tag, m, f"counterexample to {T.show(c)}", True)
            return False
        bad = self.bad.get(tag, 0)
        # conjunctions: one query per conjunct
        self.solver.set("timeout", self.timeout_ms if bad < 4 else self.feas_ms)
        r = self._check(T.Not(c))
        self.solver.set("timeout", self.feas_ms)
        if r == z3.unsat:
            self.res.discharged += 1
            self.res.by["z3"] += 1
            return True
        if r == z3.sat:
            m = self.model_values(self.solver.model())
            self._fail(tag, m, f"counterexample to {T.show(c)}", True)
            return False
        self.bad[tag] = bad + 1
        r2 = self._cvc5(c) if bad < 4 else "unknown"
        if r2 == "unsat":
            self.res.discharged += 1
            self.res.by["cvc5"] += 1
            return True
        self.res.undecided.append(f"{tag}: solver gave no answer ({r2})")
        return None

    def _guess(self, c):
        """a counterexample among a few values of the real inputs (the others as in a model of the path)"""
        st = T.subterms(c).values()
        if not any(x.op == "var" and x.sort == T.R for x in st) or any(x.op == "uf" for x in st):
            return None
        if not any(x.op == "lin" and any(sum(p for _, p in m) > 1 for m, _ in x.args[0]) for x in st) or self._check() != z3.sat:
            return None
        base = self.model_values(self.solver.model())
        for k in range(4):
            env = {}
            for n, v in self.vars.items():
                x = base[n]
                if T.is_term(v) and v.sort == T.R:
                    x = Fraction(x) if k == 0 and not isinstance(x, bool) else Fraction(self.rng.randint(-24, 24), 8)
                env[n] = x
            try:
                memo = {}
                if not T.evaluate(c, env, memo) and all(T.evaluate(x, env, memo) for x in self.pc):
                    return {n: (float(x) if isinstance(x, Fraction) else x) for n, x in env.items()}
            except (KeyError, ZeroDivisionError, TypeError):
                return None
        return None

    def _cvc5(self, c):
        try:
            import cvc5
        except ImportError:
            return "no cvc5"
        s = z3.Solver()
        for x in self.solver.assertions():
            s.add(x)
        s.add(self.tz.conv(T.Not(c)))
        for ax in self.tz.axioms[self.nax:]:
            s.add(ax)
        txt = s.to_smt2()
        t = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(self.timeout_ms))
            slv.setOption("nl-ext-tplanes", "true")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
            sm = p.getSymbolManager()
            out = "unknown"
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                o = cmd.invoke(slv, sm)
                o = str(o).strip()
                if o in ("sat", "unsat", "unknown"):
                    out = o
            return out
        except Exception as e:  # noqa: BLE001
            return f"cvc5 error {type(e).__name__}"
        finally:
            self.res.solver_s += time.time() - t

    def _fail(self, tag, model, detail, confirmed):
        f = Failure(tag, model, detail + ("" if not self.path_info else " | " + "; ".join(self.path_info)), confirmed)
        f.exact = bool(confirmed) and not self.tz.ufs
        self.res.failures.append(f)


def _has_ite(t):
    return any(x.op == "ite" for x in T.subterms(t).values())


def _first_ite(t):
    if not T.is_term(t):
        return None
    best = None
    for x in T.subterms(t).values():
        if x.op == "ite" and (best is None or x.id < best.id):
            best = x
    if best is None:
        return None
    c = best.args[0]
    # an atom of the condition
    while c.op in ("not", "and"):
        c = c.args[0]
    return c
