"""Contracts on the real Python functions of /repo.

A harness is a Python function `h(e)`; it imports the real modules through
`qv.pyload` and calls the real functions on the values it gets from `e`.
Three explorers run the same harness:
  Symbolic   values are terms; the interpreter's own branches fork (path-complete);
  Replay     given inputs;
  Random     bounded search.
Naming: no prefix - all inputs; n_ - all inputs up to a stated size; b_ - random
search only (bounded)."""
from __future__ import annotations
import importlib
import pathlib
import random
import resource
import sys
import time
import traceback
from fractions import Fraction

VERIF = pathlib.Path(__file__).resolve().parent.parent


class Failed(Exception):
    pass


class Skip(Exception):
    pass


class Sym:
    """symbolic values; forwards to explore.Explorer"""
    symbolic = True

    def __init__(self, ex):
        self.ex = ex

    def int(self, name, lo=None, hi=None):
        return self.ex.int(name, lo, hi)

    def pick(self, name, lo, hi):
        """a value of [lo, hi], every one explored on its own path"""
        return self.ex.choose(name, lo, hi)

    def real(self, name):
        return self.ex.real(name)

    def bool(self, name):
        return self.ex.bool(name)

    def flag(self, name):
        return bool(self.ex.choose(name, 0, 1))

    def assume(self, c):
        self.ex.assume(c)

    def check(self, c, tag):
        import numpy as np
        if isinstance(c, np.bool_):
            c = bool(c)
        self.ex.check(c, tag)

    def check_eq(self, a, b, tag):
        import numpy as np
        a = a.item() if isinstance(a, np.generic) else a
        b = b.item() if isinstance(b, np.generic) else b
        if isinstance(a, (str, bytes, type(None))) or isinstance(b, (str, bytes, type(None))):
            return self.ex.check(a == b, tag)
        self.ex.check_eq(_exact(a), _exact(b), tag)


def _exact(x):
    return Fraction(x) if isinstance(x, float) else x


class Concrete:
    symbolic = False

    def __init__(self, given=None, seed=None):
        self.given, self.rng = given, random.Random(seed)
        self.used = {}
        self.checks = 0
        self.log = []

    def _take(self, name, gen):
        if name in self.used:
            return self.used[name]
        v = self.given[name] if self.given is not None and name in self.given else gen()
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        lo = -40 if lo is None else lo
        hi = 40 if hi is None else hi

        def gen():
            if hi - lo < 40:
                return self.rng.randint(lo, hi)
            k = self.rng.randrange(8)
            return lo + self.rng.randrange(8) if k < 4 else lo + self.rng.randrange(min(64, hi - lo)) if k < 6 else hi - self.rng.randrange(8) if k < 7 else self.rng.randint(lo, hi)
        v = int(self._take(name, gen))
        if v < lo or v > hi:
            raise Skip
        return v

    pick = int

    def flag(self, name):
        return bool(self.int(name, 0, 1))

    def has(self, name):
        return self.given is not None and name in self.given

    def real(self, name):
        return float(self._take(name, lambda: self.rng.choice([self.rng.uniform(-2, 2), self.rng.uniform(0, 1), self.rng.randrange(-16, 17) / 8.0])))

    def bool(self, name):
        return bool(self._take(name, lambda: self.rng.random() < 0.5))

    def assume(self, c):
        if not c:
            raise Skip

    def check(self, c, tag):
        self.checks += 1
        if not c:
            raise Failed(tag)

    def check_eq(self, a, b, tag):
        self.checks += 1
        if isinstance(a, float) or isinstance(b, float):
            if not abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b)):
                raise Failed(f"{tag} ({a!r} != {b!r})" if False else tag)
        elif not a == b:
            raise Failed(tag)


def module(name):
    if str(VERIF / "py") not in sys.path:
        sys.path.insert(0, str(VERIF / "py"))
    return importlib.import_module(name)


def harnesses(name):
    m = module(name)
    return [n[2:] for n in vars(m) if n.startswith("h_")]


def prove(name, harness, max_paths=100000, total_s=240.0, timeout_ms=8000):
    from . import terms as T, explore as X
    T.reset()
    ex = X.Explorer(max_paths=max_paths, timeout_ms=timeout_ms, total_s=total_s)
    try:
        f = getattr(module(name), "h_" + harness)
    except Exception as e:  # noqa: BLE001
        ex.res.error = f"import: {type(e).__name__}: {e} {traceback.format_exc()[-800:]}"
        return ex.res
    e = Sym(ex)

    def run():
        try:
            f(e)
        except (X.PathEnd, X.Unsupported):
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as err:  # the code under contract raised (or the engine cannot run it)
            n = traceback.extract_tb(err.__traceback__)
            where = "; ".join(f"{pathlib.Path(t.filename).name}:{t.lineno}" for t in n[-4:])
            raise X.Unsupported(f"raised {type(err).__name__}: {err} at {where}") from err
    try:
        ex.run(run)
    except X.Unsupported as err:
        ex.res.error = str(err)
        ex.res.error_model = _model(ex)
    except Exception as err:  # noqa: BLE001
        ex.res.error = f"engine: {type(err).__name__}: {err} {traceback.format_exc()[-1200:]}"
    finally:
        X._cur[0] = None
    return ex.res


def _model(ex):
    try:
        return ex.path_model()
    except Exception:  # noqa: BLE001
        return None


def _once(f, e):
    """None, or the violated tag; raises Skip"""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
    try:
        return _once1(f, e)
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def _once1(f, e):
    try:
        f(e)
        return None
    except Failed as x:
        return str(x)
    except Skip:
        raise
    except MemoryError:
        raise Skip from None
    except Exception as x:  # noqa: BLE001
        n = traceback.extract_tb(x.__traceback__)
        c = x
        while c is not None:  # a stand-in is not enough: says nothing about the code
            if type(c).__name__ == "StubMissing":
                raise
            c = c.__cause__ or c.__context__
        # an exception out of the code under contract, on inputs that meet the precondition
        if any("/python/qugar/" in t.filename for t in n):
            return f"raises {type(x).__name__}: {x}"
        raise


def _import_fault(x):
    """a fault of the code under contract that does not let it be imported; None if it can be one of the stand-ins"""
    n = traceback.extract_tb(x.__traceback__)
    if isinstance(x, (AssertionError, NameError, ValueError, LookupError, ArithmeticError)) and n and "/python/qugar/" in n[-1].filename:
        return f"importing raises {type(x).__name__}: {x}"
    return None


def replay(name, harness, inputs):
    try:
        module(name)
    except Exception as x:  # noqa: BLE001
        if _import_fault(x):
            return True, _import_fault(x), ""
    try:
        f = getattr(module(name), "h_" + harness)
        tag = _once(f, Concrete(given=dict(inputs)))
        return tag is not None, tag, ""
    except Skip:
        return False, None, "skipped (precondition)"
    except Exception as x:  # noqa: BLE001
        return None, None, traceback.format_exc()[-1500:]


def search(name, harness, n, seed, seconds):
    try:
        f = getattr(module(name), "h_" + harness)
    except Exception as x:  # noqa: BLE001
        if _import_fault(x):
            return dict(status="fail", tag=_import_fault(x), inputs={}, out="", runs=1, checks=1)
        return dict(status="build", out=traceback.format_exc()[-1500:], runs=0, checks=0)
    t0 = time.time()
    runs = skipped = checks = 0
    sample = None
    for i in range(n):
        if time.time() - t0 > seconds:
            break
        e = Concrete(seed=seed * 1000003 + i)
        try:
            tag = _once(f, e)
        except Skip:
            skipped += 1
            continue
        except Exception:  # noqa: BLE001
            return dict(status="error", out=traceback.format_exc()[-1500:], runs=runs, checks=checks)
        runs += 1
        checks += e.checks
        sample = e.used
        if tag is not None:
            return dict(status="fail", tag=tag, inputs=e.used, out="", runs=runs, checks=checks)
        if not e.used and i >= 0:  # no inputs: one run is all there is
            break
    return dict(status="ok", runs=runs, skipped=skipped, checks=checks, out="", sample={k: str(v) for k, v in list((sample or {}).items())[:12]})


if __name__ == "__main__":
    name = sys.argv[1]
    import os
    if sys.argv[2:3] == ["search"]:
        print(search(name, sys.argv[3], 10 ** 6, 1, float(sys.argv[4]) if len(sys.argv) > 4 else 5))
        sys.exit()
    for h in sys.argv[2:] or harnesses(name):
        t0 = time.time()
        if h.startswith("b_"):
            r = search(name, h, 10 ** 6, 1, float(os.environ.get("QV_B", "5")))
            print(f"{h}: {r['status']} runs={r['runs']} checks={r['checks']} {r.get('tag','')} {r.get('inputs','')} {r.get('out','')}")
            continue
        r = prove(name, h, total_s=float(os.environ.get("QV_T", "120")))
        print(f"{h}: {'PROVED' if r.ok() else 'NOT PROVED'} paths={r.paths} obl={r.obligations} dis={r.discharged} by={r.by} solver={r.solver_s:.1f}s wall={time.time()-t0:.1f}s")
        if r.error:
            print("   error:", r.error[:1500], getattr(r, "error_model", None))
        seen = set()
        for f in r.failures:
            if f.tag in seen:
                continue
            seen.add(f.tag)
            print("   FAIL", f.tag, "|", f.detail[:300], "|", f.model)
            if f.model is not None:
                print("     replay:", replay(name, h, f.model)[:2])
        for u in r.undecided[:5]:
            print("   undecided", u[:200])
