"""Contracts of linear and nonlinear problems: what is assembled, with which coefficients, in which order."""
import numpy as np
from qv.pyload import StandIn, load, setup
setup()
import sys
import types
import dolfinx
import dolfinx.fem
import dolfinx.fem.bcs
import dolfinx.fem.function
import dolfinx.fem.petsc
import dolfinx.la.petsc
import petsc4py
import petsc4py.PETSc
import qugar.utils
qugar.utils.has_PETSc = True
import qugar
qugar.has_PETSc = True

LOG = []


def log(*a):
    LOG.append(a)


class CustomForm(StandIn):
    """coefficients: a part of the custom integrals, that only packing computes, and the values of functions"""

    def pack_coefficients(self):
        self.packs[0] += 1
        return {"of": self, "custom": "packed", "values": self.world["values"]}

    def update_coefficients(self, old):
        if not isinstance(old, dict) or old["of"] is not self:
            raise AssertionError("coefficients of another form")
        return {"of": self, "custom": old["custom"], "values": self.world["values"]}


WORLD = {"values": 0}
CREATED = []


def form_custom(form, dtype=None, form_compiler_options=None, jit_options=None, entity_maps=None):
    if isinstance(form, list):
        return [form_custom(f, dtype, form_compiler_options, jit_options) for f in form]
    f = CustomForm(form=form, world=WORLD, packs=[0])
    CREATED.append((f, dtype, form_compiler_options, jit_options))
    return f


class Vec(StandIn):
    def localForm(self):
        v = self

        class L:
            def __enter__(self):
                return StandIn(set=lambda x: log("zero" if x == 0 else "set", v.name))

            def __exit__(self, *a):
                return False
        return L()

    def ghostUpdate(self, addv=None, mode=None):
        log("ghost", self.name, addv, mode)

    prefix, taken = "", None

    def setOptionsPrefix(self, p):
        self.prefix = p

    def setFromOptions(self):
        self.taken = {k[len(self.prefix):]: v for k, v in OPTIONS.items() if k.startswith(self.prefix)}

    @property
    def array_w(self):
        return ("array", self.name)


class Mat(Vec):
    def zeroEntries(self):
        log("zero", self.name)

    def assemble(self):
        log("finish", self.name)


class Solver(StandIn):
    def create(self, comm):
        return self

    def setOperators(self, A):
        self.A = A

    setOptionsPrefix, setFromOptions, prefix, taken = Vec.setOptionsPrefix, Vec.setFromOptions, "", None

    def solve(self, b, x):
        log("solve", self.A.name, b.name, x.of)


P = petsc4py.PETSc
petsc4py.PETSc = sys.modules["petsc4py.PETSc"] = P
P.ScalarType = np.float64
P.KSP = lambda: Solver()


# the database of options, that all the objects share, and the prefixes pushed
OPTIONS, PREFIXES = {}, []


class Options(StandIn):
    def __init__(self, prefix=""):
        self.prefix = prefix or ""

    def prefixPush(self, p):
        PREFIXES.append(p)

    def prefixPop(self):
        PREFIXES.pop()

    def __setitem__(self, k, v):
        OPTIONS["".join(PREFIXES) + self.prefix + k] = v

    setValue = __setitem__

    def __getitem__(self, k):
        return OPTIONS["".join(PREFIXES) + self.prefix + k]

    def __delitem__(self, k):
        del OPTIONS["".join(PREFIXES) + self.prefix + k]

    delValue = __delitem__


P.Options = Options
P.InsertMode = StandIn(ADD="add", INSERT="insert")
P.ScatterMode = StandIn(REVERSE="reverse", FORWARD="forward")
P.Vec, P.Mat = Vec, Mat


class Base:
    pass


dolfinx.fem.petsc.LinearProblem = type("LinearProblem", (), {k: property(lambda self, k=k: getattr(self, "_" + k)) for k in ("u", "solver", "A", "b")})
dolfinx.fem.petsc.NewtonSolverNonlinearProblem = type("NewtonSolverNonlinearProblem", (), {})
dolfinx.fem.petsc.create_matrix = lambda a: Mat(name="A", form=a)
dolfinx.fem.petsc.create_vector = lambda s: Vec(name="b", spaces=s)
dolfinx.la.petsc.create_vector_wrap = lambda x: StandIn(of=x.of)
dolfinx.fem.extract_function_spaces = lambda f: ("spaces", f)
dolfinx.fem.petsc.assemble_matrix = lambda A, a, bcs=None, coeffs=None: log("matrix", A.name, a, list(bcs), coeffs)
dolfinx.fem.petsc.assemble_vector = lambda b, f, coeffs=None: log("vector", b.name, f, coeffs)
dolfinx.fem.petsc.apply_lifting = lambda b, a, bcs=None, x0=None, alpha=1, coeffs=None: log("lift", b.name, list(a), [list(c) for c in bcs], x0, alpha, coeffs)
dolfinx.fem.petsc.set_bc = lambda b, bcs, x0=None, alpha=1: log("bc", b.name, list(bcs), x0, alpha)
sys.modules["qugar.dolfinx"].CustomForm, sys.modules["qugar.dolfinx"].form_custom = CustomForm, form_custom


class Function(StandIn):
    def __init__(self, space, name="u"):
        self.function_space, self.name = space, name
        self.x = StandIn(of=self, scatter_forward=lambda: log("scatter", self))


dolfinx.fem.function.Function = Function
PT = load("dolfinx.petsc")


class Bc(StandIn):
    def set(self, a, *r):
        log("bcset", self, a)


SPACE = StandIn(mesh=StandIn(comm="comm"))


class UflForm(StandIn):
    def arguments(self):
        return [StandIn(ufl_function_space=lambda: "test"), StandIn(ufl_function_space=lambda: SPACE)]


def fresh(c, f):
    return isinstance(c, dict) and c["of"] is f and c["custom"] == "packed" and c["values"] == WORLD["values"]


def h_n_linear(e):
    LOG.clear()
    CREATED.clear()
    WORLD["values"] = 0
    bcs = [Bc(name=k) for k in range(e.pick("bcs", 0, 2))]
    u = None if e.flag("new") else Function(SPACE)
    OPTIONS.clear()
    PREFIXES.clear()
    opts = [None, {}, {"ksp_type": "preonly"}, {"ksp_type": "cg", "mat_type": "dense", "vec_type": "cuda", "ksp_monitor": None}][e.pick("options", 0, 3)]
    # options of others, that are not for this problem
    others = {"ksp_type": "gmres", "other_ksp_type": "bicg"}
    OPTIONS.update(others)
    fo, jo = {"f": 1}, {"j": 1}
    a, L = UflForm(name="a"), UflForm(name="L")
    p = PT.LinearProblem(a, L, bcs, u, petsc_options=opts, form_compiler_options=fo, jit_options=jo)
    e.check([c[0].form for c in CREATED] == [a, L] and all(c[1] is np.float64 and c[2] is fo and c[3] is jo for c in CREATED), "forms are compiled with the options given")
    A, B = CREATED[0][0], CREATED[1][0]
    for o, what in ((p.solver, "solver"), (p.A, "matrix"), (p.b, "vector")):
        e.check(o.taken == (opts or {}) and o.prefix != "", f"the {what} takes the options of the problem, and no others")
    e.check(not PREFIXES and all(OPTIONS.get(k) == v for k, v in others.items()), "the options of others stay as they are")
    q = PT.LinearProblem(a, L, bcs, u, petsc_options={"ksp_rtol": 1.0})
    e.check(q.solver.prefix != p.solver.prefix and q.solver.taken == {"ksp_rtol": 1.0}, "problems do not share their options")
    del CREATED[2:]
    for k in range(e.pick("solves", 1, 3)):
        WORLD["values"] = 5 + k if e.flag(f"changed{k}") else WORLD["values"]
        LOG.clear()
        r = p.solve()
        ops = [x[0] for x in LOG]
        at = {o: ops.index(o) for o in ("matrix", "finish", "vector", "lift", "ghost", "solve", "scatter") if ops.count(o) == 1}
        e.check(len(at) == 7, "a solve assembles once")
        e.check(LOG.index(("zero", "A")) < at["matrix"] < at["finish"] < at["solve"] and LOG.index(("zero", "b")) < at["vector"] < at["lift"] < at["ghost"] < at["solve"] < at["scatter"], "matrix and vector are zeroed, assembled, lifted, completed and solved in order")
        m, v, l = LOG[at["matrix"]], LOG[at["vector"]], LOG[at["lift"]]
        e.check(m[1] == "A" and m[2] is A and m[3] == bcs and fresh(m[4], A), "the matrix is that of the bilinear form with the current coefficients")
        e.check(v[1] == "b" and v[2] is B and fresh(v[3], B), "the vector is that of the linear form with the current coefficients")
        e.check(l[1] == "b" and l[2] == [A] and l[3] == [bcs] and l[4] is None and l[5] == 1 and isinstance(l[6], (list, tuple)) and len(l[6]) == 1 and fresh(l[6][0], A), "lifting uses the bilinear form with the current coefficients")
        e.check(LOG[at["ghost"]] == ("ghost", "b", "add", "reverse"), "contributions to ghosts are added")
        sets = [x[1:] for x in LOG if x[0] == "bcset"]
        e.check(sets == [(b, ("array", "b")) for b in bcs] and all(at["ghost"] < LOG.index(x) < at["solve"] for x in LOG if x[0] == "bcset"), "boundary values are set after adding")
        e.check((r is u or u is None) and r is p.u and LOG[at["solve"]] == ("solve", "A", "b", r) and LOG[at["scatter"]][1] is r and r.function_space is SPACE, "the solution is in the function asked for")


def h_n_nonlinear(e):
    """every sequence of residuals and jacobians, while values change"""
    LOG.clear()
    CREATED.clear()
    WORLD["values"] = 0
    bcs = [Bc(name=k) for k in range(e.pick("bcs", 0, 1))]
    F, J = UflForm(name="F"), UflForm(name="J")
    u = Function(SPACE)
    fo, jo = {"f": 1}, {"j": 1}
    import ufl
    ufl.TrialFunction = lambda V: ("trial", V)
    ufl.derivative = lambda f, w, d: ("derivative", f, w, d)
    given = e.flag("given")
    p = PT.NonlinearProblem(F, u, bcs, J if given else None, form_compiler_options=fo, jit_options=jo)
    e.check(len(CREATED) == 2 and CREATED[0][0].form is F and (CREATED[1][0].form is J if given else CREATED[1][0].form == ("derivative", F, u, ("trial", SPACE))), "the jacobian is that given, or the derivative")
    e.check(all(c[1] is np.float64 and c[2] is fo and c[3] is jo for c in CREATED), "forms are compiled with the options given")
    L, A = CREATED[0][0], CREATED[1][0]
    x, b, M = object(), Vec(name="b"), Mat(name="M")
    for k in range(e.pick("calls", 1, 4)):
        WORLD["values"] = 5 + k
        LOG.clear()
        if e.flag(f"call{k}"):
            p.J(x, M)
            ops = [o[0] for o in LOG]
            e.check(ops == ["zero", "matrix", "finish"], "the jacobian is zeroed, assembled and completed")
            m = LOG[1]
            e.check(m[1] == "M" and m[2] is A and m[3] == bcs and fresh(m[4], A), "jacobians have the current coefficients")
        else:
            p.F(x, b)
            ops = [o[0] for o in LOG]
            e.check(ops == ["zero", "vector", "lift", "ghost", "bc"], "the residual is zeroed, assembled, lifted, completed and constrained")
            v, l = LOG[1], LOG[2]
            e.check(v[1] == "b" and v[2] is L and fresh(v[3], L), "residuals have the current coefficients")
            e.check(l[1] == "b" and l[2] == [A] and l[3] == [bcs] and l[4] == [x] and l[5] == -1.0 and isinstance(l[6], (list, tuple)) and len(l[6]) == 1 and fresh(l[6][0], A), "lifting of residuals: the jacobian with the current coefficients, minus the difference")
            e.check(LOG[3] == ("ghost", "b", "add", "reverse") and LOG[4] == ("bc", "b", bcs, x, -1.0), "contributions to ghosts are added, and constraints set")
    e.check(L.packs[0] <= 1 and A.packs[0] <= 1, "custom quadratures are computed once")


def nested(e, k, depth):
    if depth == 0 or e.flag(f"form{k}"):
        return CustomForm(name=k, world=WORLD, packs=[0])
    return [nested(e, f"{k}{i}", depth - 1) for i in range(e.pick(f"n{k}", 0, 2))]


def h_n_lists(e):
    """coefficients of lists of forms have their structure"""
    form = nested(e, "f", 2)
    WORLD["values"] = 1

    def match(c, f):
        if isinstance(f, list):
            return isinstance(c, list) and len(c) == len(f) and all(match(a, b) for a, b in zip(c, f))
        return fresh(c, f)
    c = PT._pack_coefficients(form)
    e.check(match(c, form), "packed coefficients have the structure of the forms")
    WORLD["values"] = 2
    e.check(match(PT._update_coefficients(form, c), form), "updated coefficients have the structure of the forms")


def h_n_problems(e):
    """problems one after the other, some of them gone: the database of options stays"""
    LOG.clear()
    OPTIONS.clear()
    PREFIXES.clear()
    alive = []
    for k in range(4):
        opts = (None, {f"opt_{k}": k}, {"ksp_type": k})[e.pick(f"options{k}", 0, 2)]
        CREATED.clear()
        p = PT.LinearProblem(UflForm(name="a"), UflForm(name="L"), [], Function(SPACE), petsc_options=opts)
        for o, what in ((p.solver, "solver"), (p.A, "matrix"), (p.b, "vector")):
            e.check(o.taken == (opts or {}), f"the {what} does not take the options of problems that are gone")
        if e.flag(f"kept{k}"):
            alive.append(p)
        del p, o
    prefixes = [p.solver.prefix for p in alive]
    e.check(len(set(prefixes)) == len(prefixes), "problems do not share their options")


def h_n_scalars(e):
    """integrals of forms: with the constants and coefficients given, or those of the form"""
    import dolfinx.cpp.fem
    import dolfinx.fem.assemble as fa
    v = ("0.10.0", "0.10.0.post5", "0.10.9", "0.11.0", "0.100.0", "1.0.1")[e.pick("version", 0, 5)]
    broken = v.startswith("0.10.")
    made = []

    def cpp(M, constants, coeffs):
        made.append((M, constants, coeffs))
        return ("scalar", M)

    def assemble_scalar(M, constants=None, coeffs=None):
        """as in DOLFINx 0.10, or as in those that follow"""
        constants = fa.pack_constants(M) if constants is None else constants
        coeffs = fa.pack_coefficients(M) if coeffs is None else (constants if broken else coeffs)
        return cpp(M._cpp_object, constants, coeffs)
    saved = dolfinx.__dict__.get("__version__")
    dolfinx.__version__ = v
    fa.pack_constants, fa.pack_coefficients = lambda M: ("constants", M), lambda M: ("coefficients", M)
    fa.assemble_scalar = dolfinx.fem.assemble_scalar = assemble_scalar
    dolfinx.cpp.fem.assemble_scalar = cpp
    dolfinx.fem.assemble = fa
    try:
        D = load("dolfinx._dolfinx_patches")
        for _ in range(e.pick("times", 1, 3)):
            D.apply_patches()
        M = StandIn(_cpp_object="cpp")
        k, c = {}, {}
        con = k if e.flag("constants") else None
        coe = c if e.flag("coefficients") else None
        for f in (dolfinx.fem.assemble_scalar, fa.assemble_scalar):
            made.clear()
            r = f(M, con, coe) if e.flag("positional") else f(M, constants=con, coeffs=coe)
            e.check(r == ("scalar", "cpp") and len(made) == 1 and made[0][0] == "cpp", "the integral of the form")
            x, y = made[0][1:]
            e.check((x is k) if con is not None else x == ("constants", M), "with the constants given, or those of the form")
            e.check((y is c) if coe is not None else y == ("coefficients", M), "with the coefficients given, or those of the form")
    finally:
        if saved is None:
            dolfinx.__dict__.pop("__version__", None)
        else:
            dolfinx.__version__ = saved
