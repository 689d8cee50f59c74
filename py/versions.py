"""Contracts of the detection of dependencies: releases within the supported ranges, and only those."""
import sys
import types
import numpy as np
from qv.pyload import load, setup
setup()
UT = load("utils")
PU = load("dolfinx.parsing_utils")
PARTS = (0, 2, 9, 10, 11)
SUFFIX = ("", ".post0", ".post12", "rc1", ".dev0", ".0")


def version(e, k, suffix=True, parts=PARTS):
    v = tuple(parts[e.pick(f"{k}{i}", 0, len(parts) - 1)] for i in range(3))
    return v, ".".join(map(str, v)) + (SUFFIX[e.pick(f"suffix{k}", 0, len(SUFFIX) - 1)] if suffix else "")


def h_n_range(e):
    """any two versions; the third of the range from a few"""
    v, s = version(e, "v")
    lo, lo_s = version(e, "lo", False, (0, 2, 10))
    hi = [(0, 11, 0), (2, 10, 9), (10, 0, 2)][e.pick("hi", 0, 2)]
    e.check(UT.check_version_in_range(s, lo_s, ".".join(map(str, hi))) == (lo <= v < hi), "versions are in a range if they are not before its first and before its end")


MODULES = {"dolfinx": ("dolfinx.cpp", "check_DOLFINx", (0, 10), (0, 11)), "basix": ("basix", "check_Basix", (0, 10), (0, 11)),
           "ffcx": ("ffcx", "check_FFCx", (0, 10), (0, 11)), "ufl": ("ufl", "check_UFL", (2025, 2), (2025, 3))}


def h_n_found(e):
    """what is installed, or not"""
    name = list(MODULES)[e.pick("package", 0, 3)]
    mod, fn, lo, hi = MODULES[name]
    v = ((0, 9, 9), (0, 10, 0), (0, 10, 7), (0, 11, 0), (1, 10, 0), (2024, 9, 9), (2025, 1, 3), (2025, 2, 0), (2025, 2, 4), (2025, 3, 0), (2026, 1, 0))[e.pick("version", 0, 10)]
    s = ".".join(map(str, v)) + SUFFIX[e.pick("suffix", 0, len(SUFFIX) - 1)]
    missing = e.flag("missing")
    saved = {k: sys.modules[k] for k in list(sys.modules) if k == "basix" or k.split(".")[0] in ("dolfinx", "ffcx", "ufl")}
    try:
        parts = mod.split(".")
        for i in range(len(parts)):
            k = ".".join(parts[:i + 1])
            sys.modules[k] = None if missing else types.ModuleType(k)
            if not missing:
                sys.modules[k].__path__ = []
        if not missing:
            sys.modules[mod].__version__ = s
        got = getattr(UT, fn)()
    finally:
        for k in parts and list(sys.modules):
            if k in saved or k == mod:
                sys.modules.pop(k)
        sys.modules.update(saved)
    e.check(got == (not missing and lo <= v[:2] < hi), "packages are found if they are installed and in their range")


def h_n_types(e):
    """names of types in C"""
    t = [np.float32, np.float64, float, np.complex64, np.complex128][e.pick("type", 0, 4)]
    s = PU.dtype_to_C_str(t)
    e.check(np.dtype(PU.parse_dtype_C(s)) == np.dtype(t), "types are recovered from their names in C")
    names = {"float": np.float32, "float32": np.float32, "double": np.float64, "float64": np.float64, "complex float": np.complex64, "float _Complex": np.complex64,
             "complex64": np.complex64, "complex double": np.complex128, "double _Complex": np.complex128, "complex128": np.complex128}
    k = list(names)[e.pick("name", 0, len(names) - 1)]
    e.check(PU.parse_dtype_C(k) is names[k], "names of types in C")
    try:
        r = PU.parse_real_dtype_from_C(k)
        e.check(r is names[k] and np.dtype(r).kind == "f", "names of real types in C")
    except ValueError:
        e.check(np.dtype(names[k]).kind == "c", "real types are recognized")
    bad = ["int", "", "float ", "doublefloat", "long double"][e.pick("bad", 0, 4)]
    try:
        PU.parse_dtype_C(bad)
        e.check(False, "other types are refused")
    except ValueError:
        pass
    try:
        PU.dtype_to_C_str([np.int32, np.int64, bool, np.uint8, np.int32][e.pick("bad", 0, 4)])
        e.check(False, "other types are refused")
    except ValueError:
        pass


def h_n_brackets(e):
    """the first bracket and the one that closes it"""
    n = e.pick("n", 2, 8)
    s = "".join("{}x"[e.pick(f"c{i}", 0, 2)] for i in range(n))
    depth, start, want = 0, None, None
    for i, c in enumerate(s):
        if c == "{":
            start = i if start is None else start
            depth += 1
        elif c == "}":
            depth -= 1
            e.assume(depth >= 0)
            if depth == 0:
                want = (start, i + 1)
                break
    e.assume(want is not None)
    e.check(PU.get_pairing_brackets(s) == want, "a bracket is paired with the one that closes it")
    t = s.replace("{", "(").replace("}", ")")
    e.check(PU.get_pairing_brackets(t, "(", ")") == want, "a bracket is paired with the one that closes it")
