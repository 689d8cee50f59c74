"""Compile C++ contract harnesses (which #include the real sources of /repo) to
LLVM IR for symbolic execution, and to a native program for replay/search."""
from __future__ import annotations
import fcntl
import hashlib
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("QV_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("QV_BUILD", VERIF / ".build"))
WRAP = REPO / "python/nanobind_wrappers"
CXX = "clang++-18"
INC = ["-I", str(VERIF / "cxx/stub"), "-I", str(VERIF / "cxx"), "-I", str(REPO / "cpp/include"), f"-DQV_REPO={REPO}"]
COMMON = ["-std=gnu++20", "-w", "-fcx-limited-range"] + INC
IRFLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno",
           "-fno-threadsafe-statics", "-fno-exceptions", "-S", "-emit-llvm"]
NATFLAGS = ["-O1", "-ffp-contract=off", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
            "-D_GLIBCXX_ASSERTIONS", "-rdynamic"]


class BuildError(Exception):
    pass


def _hash():
    h = hashlib.sha256()
    for base in (REPO / "cpp", REPO / "python/qugar/dolfinx/_shim", REPO / "python/nanobind_wrappers", VERIF / "cxx"):
        for p in sorted(base.rglob("*")):
            if p.suffix in (".cpp", ".hpp", ".h", ".inl") and p.is_file():
                h.update(str(p).encode())
                h.update(p.read_bytes())
    return h.hexdigest()[:16]


_H = [None]


def tree_hash():
    if _H[0] is None:
        _H[0] = _hash()
    return _H[0]


def gens(name):
    """generator of a harness file: '// GEN: x.py' is run (with /repo's Python sources) and its C is linked too"""
    m = re.search(r"^// GEN: *(\S+)", (VERIF / f"cxx/{name}.cpp").read_text(), re.M)
    return m and m.group(1)


_GH = []


def _gen_hash():
    if not _GH:
        h = hashlib.sha256()
        for base in (REPO / "python/qugar", VERIF / "gen", VERIF / "qv/pyload.py"):
            for p in sorted(base.rglob("*")) if base.is_dir() else [base]:
                if p.suffix == ".py" and p.is_file():
                    h.update(str(p).encode())
                    h.update(p.read_bytes())
        _GH.append(h.hexdigest()[:10])
    return _GH[0]


def key(name):
    return tree_hash() + ("." + _gen_hash() if gens(name) else "")


def gen_dir(name):
    """runs the generator; the folder with what it wrote"""
    g = gens(name)
    if not g:
        return None
    out = BUILD / f"gen_{name}.{key(name)}"
    with open(BUILD / "lock.gen", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not out.is_dir():
            tmp = BUILD / f"{out.name}.{os.getpid()}.tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            r = subprocess.run([sys.executable, str(VERIF / g), str(tmp)], capture_output=True, text=True, timeout=600, env=dict(os.environ, QV_REPO=str(REPO)))
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError(f"{g}: " + (r.stdout + r.stderr)[-1500:])
            os.replace(tmp, out)
    return out


def _run(cmd, timeout=420):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError(p.stderr[-3000:])


def links(name):
    """sources of /repo that a harness file is linked with: '// LINK: *' (all), or '// LINK: a.cpp b.cpp'"""
    out = []
    for l in (VERIF / f"cxx/{name}.cpp").read_text().splitlines():
        if l.startswith("// LINK:"):
            out += l[8:].split()
    if out and out[0] == "*":  # '* -a.cpp': all but a.cpp (which the harness file includes)
        out = sorted(p.name for p in (REPO / "cpp/qugar").glob("*.cpp") if "-" + p.name not in out)
    if any(l.startswith("// WRAP") for l in (VERIF / f"cxx/{name}.cpp").read_text().splitlines()):  # and all the bindings
        out += sorted(map(str, WRAP.glob("*.cpp")))
    return out


def sources(names):
    return sorted({x for n in names for x in links(n)})


def _obj(src, kind, tag="", inc=()):
    """one source -> bitcode ('bc') or native object ('o'); cached"""
    p = REPO / "cpp/qugar" / src if not str(src).startswith("/") else pathlib.Path(src)
    out = BUILD / f"{p.stem}.{'h' if str(VERIF) in str(p) else 'w' if WRAP in p.parents else 's'}.{tag or tree_hash()}.{kind}"
    if not out.exists():
        tmp = BUILD / f"{out.name}.{os.getpid()}.tmp"
        fl = [*IRFLAGS[:-2], "-c", "-emit-llvm"] if kind == "bc" else [*NATFLAGS, "-c"]
        if str(VERIF) in str(p) and p.suffix == ".cpp" and "\n// EXCEPTIONS" in p.read_text():
            fl = [x for x in fl if x != "-fno-exceptions"]
        if p.suffix == ".c":
            _run(["clang-18", "-x", "c", "-std=gnu17", "-w", "-fcx-limited-range", *[x for x in fl if x != "-D_GLIBCXX_ASSERTIONS"], *(["-fno-sanitize=alignment"] if kind == "o" else []), *inc, str(p), "-o", str(tmp)])
        else:
            _run([CXX, *COMMON, *fl, *inc, str(p), "-o", str(tmp)])
        os.replace(tmp, out)
    return out


def objs(srcs, kind):
    """all of them, in parallel; one process at a time does it"""
    if not srcs:
        return []
    with open(BUILD / f"lock.{kind}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
            return list(ex.map(lambda x: _obj(x, kind), srcs))


def harness_objs(name, kind):
    """the harness file itself, and what its generator wrote"""
    g = gen_dir(name)
    inc = ["-I", str(g)] if g else []
    srcs = [VERIF / f"cxx/{name}.cpp"] + (sorted(g.glob("*.c")) if g else [])
    with open(BUILD / f"lock.{kind}.{name}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
            return list(ex.map(lambda x: _obj(x, kind, key(name), inc), srcs))


def compile_ir(name):
    BUILD.mkdir(parents=True, exist_ok=True)
    out = BUILD / f"{name}.{key(name)}.ll"
    if not out.exists():
        tmp = out.with_suffix(f".{os.getpid()}.tmp")
        bcs = harness_objs(name, "bc") + objs(links(name), "bc")
        one = len(bcs) == 1
        _run(["llvm-link-18", *(["-S"] if one else []), *map(str, bcs), "-o", str(tmp)])
        if not one:  # keep what the harnesses reach
            hs = ",".join("h_" + h for h in re.findall(r"^HARNESS\((\w+)\)", (VERIF / f"cxx/{name}.cpp").read_text(), re.M))
            t2 = out.with_suffix(f".{os.getpid()}.tmp2")
            _run(["opt-18", "-S", "-passes=internalize,globaldce", f"-internalize-public-api-list={hs}", str(tmp), "-o", str(t2)])
            os.replace(t2, tmp)
        os.replace(tmp, out)
    return out


def compile_native(name):
    BUILD.mkdir(parents=True, exist_ok=True)
    out = BUILD / f"{name}.{key(name)}.exe"
    if not out.exists():
        tmp = out.with_suffix(f".{os.getpid()}.tmp")
        obs = harness_objs(name, "o") + [_obj(VERIF / "cxx/qvc_native.cpp", "o")]
        lib = objs(links(name), "o")
        if lib:
            ar = out.with_suffix(f".{os.getpid()}.a")
            _run(["llvm-ar-18", "rcs", str(ar), *map(str, lib)])
            obs.append(ar)
        _run([CXX, *NATFLAGS, *map(str, obs), "-o", str(tmp), "-ldl"])
        if lib:
            ar.unlink()
        os.replace(tmp, out)
    return out


def bindings():
    """what the Python module 'cpp' holds, as its real sources say: classes, and functions with the names, kinds and defaults of their arguments"""
    BUILD.mkdir(parents=True, exist_ok=True)
    out = BUILD / f"bindings.{tree_hash()}.json"
    with open(BUILD / "lock.bindings", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not out.exists():
            tmp = BUILD / f"bindings.{os.getpid()}.tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            tmp.mkdir()
            srcs = sorted(WRAP.glob("*.cpp")) + [VERIF / "cxx/bind_table.cc"]
            with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
                os_ = list(ex.map(lambda p: (_run([CXX, *COMMON, "-O0", "-c", str(p), "-o", str(tmp / (p.stem + ".o"))]), tmp / (p.stem + ".o"))[1], srcs))
            # the functions that are bound are never called: what they need may be missing
            _run([CXX, "-no-pie", "-Wl,--unresolved-symbols=ignore-all", *map(str, os_), "-o", str(tmp / "table")])
            r = subprocess.run([str(tmp / "table")], capture_output=True, text=True, timeout=60)
            if r.returncode:
                raise BuildError("table of the bindings: " + r.stderr[-1000:])
            (tmp / "t.json").write_text(r.stdout)
            os.replace(tmp / "t.json", out)
            shutil.rmtree(tmp)
    return json.loads(out.read_text())


def clean_build(keep_current=True):
    if BUILD.is_dir():
        for p in BUILD.iterdir():
            if not keep_current or tree_hash() not in p.name:
                shutil.rmtree(p) if p.is_dir() else p.unlink()


_mods = {}


def load_module(name):
    from . import ir
    m = _mods.get(name)
    if m is None:
        p = compile_ir(name)
        m = ir.Module(p.read_text())
        _mods[name] = m
    return m


def prove(name, harness, max_paths=3000, total_s=240.0, timeout_ms=8000, stop_on_first=False, max_steps=3_000_000, overflow=True):
    """symbolically execute one harness; returns explore.Result"""
    import z3
    from . import terms as T, explore as X, irexec
    T.reset()
    ex = X.Explorer(max_paths=max_paths, timeout_ms=timeout_ms, total_s=total_s, stop_on_first=stop_on_first)
    try:
        mod = load_module(name)
    except BuildError as e:
        ex.res.error = "build: " + str(e)[-1500:]
        return ex.res

    def name_of(m, p):
        return m.cstr(p)

    def i_real(m, a):
        return m.ex.real(name_of(m, a[0]))

    def i_int(m, a):
        return m.ex.int(name_of(m, a[0]), a[1], a[2])

    def i_bool(m, a):
        return m.ex.bool(name_of(m, a[0]))

    def i_assume(m, a):
        m.ex.assume(a[0])

    def i_check(m, a):
        m.ex.check(a[0], name_of(m, a[1]))

    def i_check_eq(m, a):
        m.ex.check_eq(a[0], a[1], name_of(m, a[2]))

    def i_deriv(m, a):
        val, var, der, tag = a
        if not T.is_term(var) or var.op != "var":
            raise X.Unsupported("qv_check_deriv: not an input variable")
        try:
            d = T.diff(val, var) if T.is_term(val) else Fraction(0)
        except NotImplementedError as e:
            raise X.Unsupported(str(e))
        m.ex.check_eq(d, der, name_of(m, tag))

    def i_trunc(m, a):  # concrete values only: nearest multiple of 2^-140
        if not isinstance(a[0], Fraction):
            raise X.Unsupported("qv_trunc of a symbolic value")
        return Fraction(round(a[0] * (1 << 140)), 1 << 140)

    def i_each(m, a):
        v = m.ex.int(name_of(m, a[0]), a[1], a[2])
        return m.ex.concretize(v, limit=a[2] - a[1] + 1) if T.is_term(v) else v

    intr = {"qv_each": i_each, "qv_trunc": i_trunc, "qv_real": i_real, "qv_int": i_int, "qv_bool": i_bool, "qv_assume": i_assume, "qv_check": i_check,
            "qv_check_eq": i_check_eq, "qv_check_deriv": i_deriv, "qv_symbolic": lambda m, a: True}

    def f():
        m = irexec.Machine(mod, ex, intr, max_steps=max_steps, check_overflow=overflow)
        m.run_ctors()
        try:
            m.call("h_" + harness, [])
        except irexec.Throw as t:
            ex.check(False, "exception thrown: " + (t.ti if isinstance(t.ti, str) else t.ti.obj.name))

    try:
        ex.run(f)
    except X.Unsupported as e:
        ex.res.error = type(e).__name__ + ": " + " in ".join(map(str, e.args))
    except (RecursionError, z3.Z3Exception, KeyError, TypeError, AttributeError, NotImplementedError, ValueError, AssertionError, IndexError, ZeroDivisionError) as e:
        import traceback
        ex.res.error = f"engine: {type(e).__name__}: {e} {traceback.format_exc()[-1200:]}"
    finally:
        X._cur[0] = None
    return ex.res


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0")


def _parse(out):
    tag, inputs = None, {}
    for l in out.splitlines():
        if l.startswith("FAIL "):
            tag, inputs = l[5:], {}
        elif l.startswith("INPUT "):
            _, n, v = l.split()
            inputs[n] = float(v)
    return tag, inputs


def replay(name, harness, inputs, timeout=60):
    """(violates?, tag, output)"""
    try:
        exe = compile_native(name)
    except BuildError as e:
        return None, None, str(e)
    p = BUILD / f"in.{os.getpid()}.txt"
    p.write_text("".join(f"{k} {float(v)!r}\n" for k, v in inputs.items()))
    try:
        r = subprocess.run([str(exe), "--replay", harness, str(p)], capture_output=True, text=True, timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return None, None, "timeout"
    finally:
        p.unlink(missing_ok=True)
    tag, _ = _parse(r.stdout)
    if r.returncode not in (0, 2) and tag is None:
        tag = "program stops: " + r.stderr[:300]
    return r.returncode not in (0, 2), tag, (r.stdout + r.stderr)[-3000:]


def search(name, harness, n, seed, seconds):
    """random search; returns dict(status, tag, inputs, runs, out)"""
    try:
        exe = compile_native(name)
    except BuildError as e:
        return dict(status="build", out=str(e)[-1500:], runs=0, checks=0)
    try:
        r = subprocess.run([str(exe), "--search", harness, str(n), str(seed), str(seconds)], capture_output=True, text=True,
                           timeout=seconds * 3 + 60, env=ENV)
    except subprocess.TimeoutExpired:
        return dict(status="timeout", out="", runs=0, checks=0)
    if r.returncode == 0:
        w = r.stdout.split()
        return dict(status="ok", runs=int(w[2]), skipped=int(w[4]), checks=int(w[6]), out=r.stdout)
    tag, inputs = _parse(r.stdout)
    if tag is None:
        tag = "program stops: " + r.stderr[:300]
    return dict(status="fail", tag=tag, inputs=inputs, out=(r.stdout + r.stderr)[-3000:], runs=0, checks=0)


if __name__ == "__main__":
    import sys
    name = sys.argv[1]
    t = time.time()
    try:
        if sys.argv[2:3] == ["search"]:
            print(search(name, sys.argv[3], 100000, 1, float(sys.argv[4]) if len(sys.argv) > 4 else 5))
            sys.exit()
        mod = load_module(name)
    except BuildError as e:
        print(e)
        sys.exit(1)
    hs = sys.argv[2:] or sorted(n[2:] for n in mod.funcs if n.startswith("h_"))
    for h in hs:
        t0 = time.time()
        r = prove(name, h, total_s=float(os.environ.get("QV_T", "120")))
        print(f"{h}: {'PROVED' if r.ok() else 'NOT PROVED'} paths={r.paths} obl={r.obligations} dis={r.discharged} by={r.by} solver={r.solver_s:.1f}s wall={time.time()-t0:.1f}s")
        if r.error:
            print("   error:", r.error[:1500])
        seen = set()
        for f in r.failures:
            if f.tag in seen:
                continue
            seen.add(f.tag)
            print("   FAIL", f.tag, "|", f.detail[:300], "|", f.model)
            if f.model is not None and os.environ.get("QV_REPLAY"):
                print("     replay:", replay(name, h, f.model)[:2])
        for u in r.undecided[:5]:
            print("   undecided", u[:200])
