"""Contracts of the compilation of forms: the kernel is the one that the current code generation writes for the form and
options asked for, whatever was compiled before and however it ended. Stand-ins: FFCx's analysis, formatting, signatures
and cache (with their contracts), cffi, and the code generation (P20) and the build of the tabulation library (P28)."""
import atexit
import contextlib
import hashlib
import io
import logging
import os
import pathlib
import shutil
import sys
import sysconfig
import tempfile
import types
import numpy as np
from qv.pyload import REPO, StandIn, setup
setup()
import cffi  # noqa: E402
import dolfinx.jit  # noqa: E402
import ffcx.analysis  # noqa: E402
import ffcx.codegeneration.C.file_template  # noqa: E402
import ffcx.codegeneration.jit as FJ  # noqa: E402
import ffcx.formatting  # noqa: E402
import ffcx.ir.representation  # noqa: E402
import ffcx.naming  # noqa: E402
import ffcx.options  # noqa: E402
import ufl  # noqa: E402

TMP = pathlib.Path(tempfile.mkdtemp(prefix="qv_jit"))
OWNER = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == OWNER:
        shutil.rmtree(TMP, ignore_errors=True)


class Form(StandIn):
    def __repr__(self):
        return f"<{self.name}>"


class Stop(Exception):
    """what makes a compilation fail"""


W = types.SimpleNamespace(fail=None, shim=None, version=None, compiled=[], modules={}, shims=0)
ROOT = logging.getLogger()
DEFAULTS = {"scalar_type": np.float64, "sum_factorization": False, "table_rtol": 1e-6, "verbosity": 30}


def sha(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()


def text(o):
    """options, but for what only tells modules apart"""
    return sorted((k, str(v)) for k, v in o.items() if k in DEFAULTS)


def generate(analysis, ir, options):
    if W.fail == "code":
        raise Stop("code")
    assert ir[0] is analysis
    return ("blocks", ir, text(options), W.version), [StandIn(of=analysis[1], prefix=ir[1], options=text(options), version=W.version)]


class FFI(StandIn):
    def set_source(self, name, code, **k):
        self.name, self.code, self.args = name, code, k

    def cdef(self, decl):
        self.decl = decl

    def compile(self, tmpdir=".", verbose=False, debug=False, target=None):
        print("words of the compiler")
        logging.getLogger("of the compiler").error("words of the log")
        tmpdir = pathlib.Path(tmpdir)
        (tmpdir / f"{self.name}.c").write_text(self.code)
        W.compiled.append(StandIn(name=self.name, dir=tmpdir, linker=os.environ.get("LDSHARED"), **self.args))
        if W.fail == "compile":
            raise Stop("compile")
        lib = StandIn()
        for line in self.decl.splitlines():
            if line.startswith("extern ufcx_form "):
                n = line.split()[2].strip(";")
                setattr(lib, n, StandIn(name=n))
        W.modules[str(tmpdir), self.name] = StandIn(lib=lib, code=self.code, decl=self.decl, args=self.args, debug=debug)


def load_objects(cache_dir, module_name, object_names):
    m = W.modules[str(pathlib.Path(cache_dir)), module_name]
    return [getattr(m.lib, n) for n in object_names], m


def get_cached_module(module_name, object_names, cache_dir, timeout):
    """FFCx: whoever creates the file compiles it, the others wait until it is ready"""
    d = pathlib.Path(cache_dir)
    c = d / (module_name + ".c")
    d.mkdir(exist_ok=True, parents=True)
    try:
        with open(c, "x"):
            return None, None
    except FileExistsError:
        pass
    if not c.with_suffix(".c.cached").exists():
        raise TimeoutError("nobody finishes this module")
    return load_objects(d, module_name, object_names)


def ensure_built():
    W.shims += 1
    if W.fail == "shim":
        raise Stop("shim")
    return W.shim, "qugar_basix_shim"


ufl.Form = Form
cffi.FFI = FFI
ffcx.analysis.analyze_ufl_objects = lambda objects, scalar_type: ("analysis", list(objects), str(scalar_type))
ffcx.ir.representation.compute_ir = lambda analysis, names, prefix, options, visualise: (analysis, prefix, text(options))
ffcx.formatting.format_code = lambda code: (f"h {code!r}", f"c {code!r}")
ffcx.options.get_options = lambda o=None: {**DEFAULTS, **(o or {})}
ffcx.naming.compute_signature = lambda forms, tag: sha([f.name for f in forms], tag)
ffcx.naming.form_name = lambda form, i, prefix: f"form_{sha(form.name, i, prefix)}"
ffcx.codegeneration.get_include_path = lambda: "/include/of/ffcx"
ffcx.codegeneration.C.file_template.libraries = ["m"]
FJ.UFC_HEADER_DECL, FJ.UFC_INTEGRAL_DECL, FJ.UFC_FORM_DECL = "header {}\n", "integral\n", "form\n"
FJ._compute_option_signature = lambda o: str(sorted(o.items()))
FJ._compilation_signature = lambda args, debug: str(args) + str(debug)
FJ.get_cached_module, FJ._load_objects, FJ.logger, FJ.root_logger = get_cached_module, load_objects, logging.getLogger("ffcx"), ROOT
JIT_DEFAULTS = {"timeout": 10, "cffi_extra_compile_args": ["-O2"], "cffi_verbose": False, "cffi_debug": False, "cffi_libraries": None}


def get_options(o=None):
    return {**JIT_DEFAULTS, "cache_dir": W.cache, **(o or {})}


dolfinx.jit.get_options = get_options
VERSIONS = {}


def version(k):
    """the package, as it is and with another code generation"""
    if k not in VERSIONS:
        d = TMP / f"version{k}/python/qugar/dolfinx"  # (errors out of it are those of the code under contract)
        shutil.copytree(f"{REPO}/python/qugar/dolfinx", d)
        if k:
            f = d / ("codegeneration.py", "fe_table.py", "_kernel_body.py", "integral_data.py")[k - 1]
            f.write_text(f.read_text() + "\n_ANOTHER = True\n")
        pkg = sys.modules["qugar.dolfinx"]
        saved = {n: m for n, m in sys.modules.items() if n.startswith("qugar.dolfinx.")}
        path = pkg.__path__
        attrs = dict(vars(pkg))
        for n in saved:
            del sys.modules[n]
        pkg.__path__ = [str(d)]
        shim = types.ModuleType("qugar.dolfinx._shim")
        shim.ensure_built, shim.LIB_NAME = ensure_built, "qugar_basix_shim"
        sys.modules["qugar.dolfinx._shim"] = shim
        try:
            import importlib
            jit = importlib.import_module("qugar.dolfinx.jit")
            comp = importlib.import_module("qugar.dolfinx.compiler")
            cg = importlib.import_module("qugar.dolfinx.codegeneration")
        finally:
            for n in [n for n in sys.modules if n.startswith("qugar.dolfinx.")]:
                del sys.modules[n]
            sys.modules.update(saved)
            pkg.__path__ = path
        cg.generate_code = generate
        if "generate_code" in vars(comp):
            comp.generate_code = generate
        mods = {n: m for n, m in vars(pkg).items() if isinstance(m, types.ModuleType)}
        for n in [n for n in vars(pkg) if n not in attrs]:
            delattr(pkg, n)
        VERSIONS[k] = jit, mods
    return VERSIONS[k]


@contextlib.contextmanager
def world(k, cache, shim, fail):
    W.version, W.cache, W.shim, W.fail = k, cache, pathlib.Path(shim), fail
    jit, mods = version(k)
    pkg = sys.modules["qugar.dolfinx"]
    old = {n: getattr(pkg, n) for n in mods if n in vars(pkg)}
    for n, m in mods.items():
        setattr(pkg, n, m)
    try:
        yield jit
    finally:
        for n in mods:
            if n in old:
                setattr(pkg, n, old[n])
            else:
                delattr(pkg, n)


FORMS = Form(name="a"), Form(name="b")
WAYS = [({}, {}), ({"scalar_type": np.complex128}, {}), ({}, {"cffi_extra_compile_args": ["-O3"]}), ({"table_rtol": 1e-3}, {"cffi_debug": True})]


def request(e, cache, form, way, k, shim, fail, done):
    opts, jopts = WAYS[way]
    before = len(W.compiled)
    env, handlers, out = os.environ.get("LDSHARED"), list(ROOT.handlers), io.StringIO()
    key = form, way, k, shim
    r = err = None
    with world(k, cache, shim, fail) as jit, contextlib.redirect_stdout(out):
        mine = sys.stdout
        try:
            r = jit.ffcx_jit(FORMS[form], dict(opts) or None, dict(jopts) or None)
        except Stop as x:
            err = str(x)
        except TimeoutError:
            err = "waiting"
        e.check(err != "waiting", "nobody waits for a compilation that failed")
        e.check(sys.stdout is mine, "what is written goes where it went before")
    e.check(os.environ.get("LDSHARED") == env, "the environment is as before")
    e.check(list(ROOT.handlers) == handlers, "the loggers are as before")
    e.check(ffcx.codegeneration.C.file_template.libraries == ["m"] and dict(DEFAULTS) == ffcx.options.get_options(), "the lists and options of FFCx are as before")
    e.check(out.getvalue() == "", "the words of the compiler are not shown unless asked for")
    new = W.compiled[before:]
    if err is not None:
        e.check(err == fail, "errors are not hidden, and there are no others")
        return
    e.check(fail is None or key in done and fail in ("compile",), "errors are not hidden")
    data, ufcx, module, code = r
    O = text({**DEFAULTS, **opts})
    names = [n for n in vars(module.lib) if n.startswith("form_")]
    e.check(names == [ufcx.name], "the form of the module")
    src = module.code
    own = [m for (d, n), m in W.modules.items() if m is module]
    name = [n for (d, n), m in W.modules.items() if m is module][0]
    ir = (("analysis", [FORMS[form]], str(dict(O) and {**DEFAULTS, **opts}["scalar_type"])), name, O)
    e.check(len(own) == 1 and src == f"c {('blocks', ir, O, k)!r}", "the code is what the code generation writes for this form and these options")
    e.check(module.decl.startswith(f"header {np.dtype({**DEFAULTS, **opts}['scalar_type']).name}\n"), "with the type of numbers of the form")
    e.check(len(data) == 1 and (data[0].of, data[0].prefix, data[0].options, data[0].version) == ([FORMS[form]], name, O, k), "the data of the integrals are of the same code")
    a = module.args
    e.check("qugar_basix_shim" in a["libraries"] and [str(x) for x in a["library_dirs"]] == [str(W.shim)] and any(str(x).endswith(f"-rpath,{W.shim}") for x in a["extra_link_args"]), "linked to the tabulation library in use")
    e.check("m" in a["libraries"] and "/include/of/ffcx" in [str(x) for x in a["include_dirs"]], "with the libraries and headers of FFCx")
    want = {**JIT_DEFAULTS, **jopts}
    e.check(all(x in a["extra_compile_args"] for x in want["cffi_extra_compile_args"]) and any("17" in x for x in a["extra_compile_args"]) and module.debug == want["cffi_debug"], "with the options of the compiler asked for")
    e.check(W.shims > 0, "the tabulation library is there")
    if cache is not None:
        e.check(len(new) == (0 if key in done else 1), "compiled once while nothing changes")
        done.add(key)
    else:
        e.check(len(new) == 1, "compiled, without a cache")


def history(e, n, again):
    d = TMP / f"cache{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    cache = d if e.flag("cache") else None
    tempfile.tempdir, old = str(TMP), tempfile.tempdir
    W.compiled.clear()
    W.modules.clear()
    done, first = set(), None
    try:
        for i in range(n):
            form, way = e.pick(f"form{i}", 0, 1 if i else 0), e.pick(f"options{i}", 0, len(WAYS) - 1)
            k, shim = e.pick(f"version{i}", 0, 4 if i else 0), f"/shim/{e.pick(f'shim{i}', 0, 1 if i else 0)}"
            fail = (None, "code", "compile", "shim")[e.pick(f"fails{i}", 0, 3)]
            W.shims = 0
            request(e, cache, form, way, k, shim, fail, done)
            first = first or (form, way, k, shim)
        if again:
            W.shims = 0
            request(e, cache, *first, None, done)
    finally:
        tempfile.tempdir = old
        for x in TMP.glob("tmp*"):
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


def h_n_history(e):
    """two requests, that can fail, and the first of them once more"""
    history(e, 2, True)


def h_n_others(e):
    """only forms"""
    what = (None, 3, "a", StandIn(name="a"), [FORMS[0]])[e.pick("what", 0, 4)]
    with world(0, None, "/shim/0", None) as jit:
        before = len(W.compiled)
        try:
            jit.ffcx_jit(what)
            ok = False
        except ValueError:
            ok = len(W.compiled) == before
    e.check(ok, "what is not a form is refused")


WORDS = ["-L/a", "-Wl,-rpath,/a", "-arch", "x", "-shared"]


def h_n_linker(e):
    """the command of the linker: any words, also if set by the user"""
    n = e.pick("words", 0, 4)
    words = ["cc"] * (n > 0) + [WORDS[e.pick(f"word{i}", 0, len(WORDS) - 1)] for i in range(n)]
    user = e.pick("user", 0, 2)
    own, env = " ".join(words), os.environ.pop("LDSHARED", None)
    get = sysconfig.get_config_var
    sysconfig.get_config_var = lambda k: (own if user != 1 else "ld -of -python") if k == "LDSHARED" else get(k)
    if user:
        os.environ["LDSHARED"] = own if user == 1 else "ld -of -user"
    before = len(W.compiled)
    tempfile.tempdir, old = str(TMP), tempfile.tempdir
    fails = e.flag("fails")
    try:
        with world(0, None, "/shim/0", "compile" if fails else None) as jit:
            try:
                jit.ffcx_jit(FORMS[0])
            except Stop:
                pass
        after = os.environ.get("LDSHARED")
    finally:
        tempfile.tempdir = old
        sysconfig.get_config_var = get
        os.environ.pop("LDSHARED", None)
        if env is not None:
            os.environ["LDSHARED"] = env
        for x in TMP.glob("tmp*"):
            shutil.rmtree(x, ignore_errors=True)
    e.check(after == (None if not user else own if user == 1 else "ld -of -user"), "the environment is as before")
    got = W.compiled[before].linker
    want = (own if user < 2 else "ld -of -user") or ("" if user == 0 else "ld -of -python")
    if not want:
        e.check(not got, "no command of the linker")
        return
    w, g = want.split(), (got if got is not None else want).split()
    rep = ("-L", "-Wl,-rpath,")
    e.check([x for x in g if not x.startswith(rep)] == [x for x in w if not x.startswith(rep)], "the linker gets all the words of its command")
    e.check(list(dict.fromkeys(x for x in g if x.startswith(rep))) == list(dict.fromkeys(x for x in w if x.startswith(rep))), "and the directories of libraries, in their order")


def h_n_platforms(e):
    """libraries of the user, words of the compiler, and platforms; twice"""
    libs = (None, [], ["x"], ["x", "y"])[e.pick("libraries", 0, 3)]
    args = ["-O1", "-g"][:e.pick("arguments", 0, 2)]
    show, debug, win = e.flag("verbose"), e.flag("debug"), e.flag("windows")
    scalar = (np.float64, np.complex128, "complex64", np.float32, None)[e.pick("scalar", 0, 4)]
    user = {"cffi_libraries": libs and list(libs), "cffi_extra_compile_args": list(args), "cffi_verbose": show, "cffi_debug": debug}
    if libs == []:
        user["cffi_libraries"] = []
    opts = {} if scalar is None else {"scalar_type": scalar}
    platform, tempfile.tempdir, old = sys.platform, str(TMP), tempfile.tempdir
    bad = win and scalar is not None and "complex" in str(scalar)
    try:
        for i in range(2):
            before, out = len(W.compiled), io.StringIO()
            given, given_opts = {k: list(v) if isinstance(v, list) else v for k, v in user.items()}, dict(opts)
            with world(0, None, "/shim/0", None) as jit, contextlib.redirect_stdout(out):
                try:
                    if win:
                        sys.platform = "win32"
                    jit.ffcx_jit(FORMS[i], given_opts, given)
                    ok = True
                except NotImplementedError:
                    ok = False
                finally:
                    sys.platform = platform
            e.check(ok == (not bad), "complex numbers are refused where the compiler has not them, and only there")
            e.check(given == user and given_opts == opts, "the options of the user are as before")
            e.check(ffcx.codegeneration.C.file_template.libraries == ["m"], "the lists of FFCx are as before")
            if not ok:
                e.check(len(W.compiled) == before, "what is refused is not compiled")
                continue
            c = W.compiled[before]
            e.check(sorted(c.libraries) == sorted(["m", "qugar_basix_shim"] + (libs or [])), "the libraries of FFCx, of the user, and the one that tabulates")
            e.check(list(c.extra_compile_args) == [("-std:c17" if win else "-std=c17")] + args, "the words of the compiler")
            e.check(("words of the compiler" in out.getvalue()) == show, "the words of the compiler are shown if asked for")
    finally:
        sys.platform = platform
        tempfile.tempdir = old
        for x in TMP.glob("tmp*"):
            shutil.rmtree(x, ignore_errors=True)
