"""Contracts of the creation of custom forms: which entities each integral of a form is computed over, and that the
form given stays as it is."""
import enum
import itertools
from types import SimpleNamespace
import numpy as np
import uflfakes as U
from qv.pyload import StandIn, load, setup
setup()
U.install()
import dolfinx
import dolfinx.cpp
import dolfinx.fem
import dolfinx.fem.forms
import dolfinx.mesh

IT = enum.Enum("IntegralType", "cell exterior_facet interior_facet vertex ridge")
dolfinx.fem.IntegralType = IT
dolfinx.default_scalar_type = np.float64


class Form(StandIn):
    """DOLFINx's form"""

    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module

    @property
    def ufcx_form(self):
        return self._ufcx_form

    @property
    def module(self):
        return self._module


class CppForm(StandIn):
    def __init__(self, *a):
        self.args = a


def form_cpp_class(dtype):
    return lambda *a: CppForm(np.dtype(dtype), *a)


def get_integration_domains(kind, subdomain, ids):
    if subdomain is None:
        return []
    if isinstance(subdomain, Tags):
        return [(i, np.array(subdomain.of(kind, i), dtype=np.int32)) for i in ids]
    return [(s[0], np.array(s[1])) for s in subdomain]


dolfinx.fem.forms.Form, dolfinx.fem.forms.form_cpp_class = Form, form_cpp_class
dolfinx.fem.forms.get_integration_domains = get_integration_domains
dolfinx.fem.forms._ufl_to_dolfinx_domain = {t.name: t for t in IT}
UD = load("mesh.unfitted_domain_abc")
MF = load("mesh.mesh_facets")
# the compiler and the packer have contracts of their own (P19, P20)
import sys
import types
sys.modules["qugar.dolfinx.jit"] = types.ModuleType("qugar.dolfinx.jit")
sys.modules["qugar.dolfinx.jit"].ffcx_jit = None
FO = load("dolfinx.forms")


class Tags(StandIn):
    """DOLFINx's mesh tags: a different list of entities for every id"""

    def of(self, kind, i):
        return [1000 * kind.value + 10 * i, 1000 * kind.value + 10 * i + 1]


class Unf(UD.UnfittedDomainABC):
    def __init__(self):
        self.facets = {True: MF.MeshFacets(np.array([4, 2, 9], dtype=np.int32), np.array([1, 0, 3], dtype=np.int32)),
                       False: MF.MeshFacets(np.array([5, 6], dtype=np.int32), np.array([1, 1], dtype=np.int32))}

    def get_all_facets(self, ext_integral=True):
        return self.facets[bool(ext_integral)]


Unf.__abstractmethods__ = frozenset()


class Domain(StandIn):
    def ufl_cargo(self):
        return self.mesh


class Terminal(StandIn):
    def ufl_function_space(self):
        return self.space


class Integrand(StandIn):
    pass


class Packer(StandIn):
    def __init__(self, form, domain, data):
        self.form, self.domain, self.data = form, domain, data

    def pack_coefficients(self):
        return {"packed": self.form}

    def update_coefficients(self, old):
        return {"updated": old}


FO.CustomCoeffsPacker = Packer


def world():
    w = SimpleNamespace(unf=Unf(), comm=object(), jits=[])
    w.mesh = StandIn(comm=w.comm)
    w.domain = Domain(unf_domain=w.unf, mesh=w.mesh)
    w.args = [Terminal(kind="argument", number=k, space=StandIn(_cpp_object=f"V{k}")) for k in range(2)]
    w.coeffs = [Terminal(kind="coefficient", number=k, _cpp_object=f"w{k}") for k in range(3)]
    w.consts = [Terminal(kind="constant", number=k, _cpp_object=f"c{k}") for k in range(2)]
    w.fail = False
    w.order = [2, 0, 1]

    def ffcx_jit(comm, form, form_compiler_options=None, jit_options=None):
        if w.fail:
            raise RuntimeError("no compiler")
        n = len(form.coefficients())
        ufcx = StandIn(num_coefficients=n, original_coefficient_positions=[k for k in w.order if k < n])
        module = StandIn(ffi=StandIn(cast=lambda t, a: ("cast", t, a), addressof=lambda f: ("address", f)))
        r = ([f"data {len(w.jits)}"], ufcx, module, (f"code {len(w.jits)}", "impl"))
        # the form as it is compiled
        w.jits.append(SimpleNamespace(comm=comm, integrals=[(i.integral_type(), i.subdomain_id(), i.integrand(), dict(i.metadata())) for i in form.integrals()],
                                      options=dict(form_compiler_options or {}), jit=jit_options, r=r, ufcx=ufcx, module=module))
        return r
    FO.ffcx_jit = ffcx_jit
    return w


TYPES = ["cell", "exterior_facet", "interior_facet"]


def integral(e, w, k, types, data, metas):
    """one integral of a form"""
    t = TYPES[types[e.pick(f"type{k}", 0, len(types) - 1)]]
    sid = ["everywhere", 0, 1, 5, -1][e.pick(f"id{k}", 0, 4 if t == "exterior_facet" else 3)]
    md = metas[e.pick(f"meta{k}", 0, len(metas) - 1)]
    f = Integrand(name=f"f{k}", terminals=[w.args[0], w.coeffs[(k + 1) % 3], w.consts[k % 2], w.coeffs[0]])
    return U.Integral(f, t, w.domain, sid, md, data[t])


def datas(e, w, used=TYPES):
    """subdomain data of each type of integral: none, tags or lists of entities"""
    r = {}
    for t in TYPES:
        v = e.pick(f"data_{t}", 0, 2) if t in used else 0
        kind = IT[t]
        r[t] = [None, Tags(), [(i, np.array(Tags().of(kind, i), dtype=np.int32)) for i in (0, 1, 2, 7)]][v]
    return r


def state(form):
    return [(i, i._integrand, i._integral_type, i._ufl_domain, i._subdomain_id, id(i._metadata), dict(i._metadata), i._subdomain_data) for i in form.integrals()]


def same(e, form, before, tag="forms given do not change"):
    after = state(form)
    e.check(len(after) == len(before) and all(a[0] is b[0] and a[1] is b[1] and a[2:7] == b[2:7] and a[7] is b[7] for a, b in zip(after, before)), tag)


def entities(w, i):
    """what an integral is computed over, as the form is written; None: DOLFINx's default for its type"""
    t, s, d = i.integral_type(), i.subdomain_id(), i.subdomain_data()
    if s in ("everywhere", -1):
        return [int(x) for x in w.unf.facets[True].as_array()] if t == "exterior_facet" else None
    if d is None:
        return []
    if isinstance(d, Tags):
        return d.of(IT[t], s)
    return [int(x) for k, ents in d if k == s for x in ents]


def check_form(e, w, f, form, jit, cast=True):
    dtype, addr, V, coeffs, consts, subdomains, emaps, mesh = f._cpp_object.args
    e.check(mesh is w.mesh and jit.comm is w.comm, "the mesh of the form")
    e.check(addr == [("cast", "uintptr_t", ("address", jit.ufcx))], "the compiled form")
    args, cs = form.arguments(), form.coefficients()
    n = len(cs)
    e.check(V == [a.space._cpp_object for a in args], "spaces of the arguments in their order")
    e.check(coeffs == [cs[k]._cpp_object for k in w.order if k < n], "coefficients in the order of the compiled form")
    e.check(consts == [c._cpp_object for c in form.constants()], "constants in their order")
    # every integral over its entities
    got = []
    for t, sid, g, md in jit.integrals:
        subs = subdomains.get(IT[t], [])
        ids = [k for k, _ in subs]
        e.check(ids == sorted(ids), "subdomains are sorted by their ids")
        if sid in ("everywhere", -1):
            got.append((t, id(g), None))
        else:
            at = [list(map(int, ents)) for k, ents in subs if k == sid]
            e.check(all(a == at[0] for a in at), "one list of entities for each id")
            got.append((t, id(g), at[0] if at else []))
    want = [(i.integral_type(), id(i.integrand()), entities(w, i)) for i in form.integrals()]
    e.check(sorted(map(str, got)) == sorted(map(str, want)), "every integral is computed over the entities of its subdomain")
    e.check(f._code is jit.r[3] and f._ufcx_form is jit.ufcx and f._module is jit.module, "the form keeps its code and module")
    p = f.pack_coefficients()
    e.check(p == {"packed": f} and f._coeffs_packer.domain is w.unf and f._coeffs_packer.data is jit.r[0], "coefficients are packed for the unfitted domain with the data of the integrals")
    old = {"a": 1}
    e.check(f.update_coefficients(old)["updated"] is old, "coefficients are updated from those given")


def one(e, n, types, tag_types=None):
    w = world()
    used = [TYPES[t] for t in types]
    data = datas(e, w, used)
    metas = [U.EmptyDict, {"quadrature_degree": 3}]
    itgs = [integral(e, w, k, types, data, metas) for k in range(n)]
    form = U.Form(itgs)
    before, m1 = state(form), dict(metas[1])
    dtype = np.float32 if e.flag("single") else np.float64
    f = FO.form_custom(form, dtype=dtype)
    e.check(len(w.jits) == 1 and isinstance(f, FO.CustomForm), "a form is compiled once")
    same(e, form, before)
    e.check(metas[1] == m1 and not U.EmptyDict, "metadata of measures does not change")
    e.check(f._cpp_object.args[0] == np.dtype(dtype) and np.dtype(w.jits[0].options["scalar_type"]) == np.dtype(dtype), "type of the form")
    check_form(e, w, f, form, w.jits[0])


def h_n_cell(e):
    one(e, 2, (0, 2))


def h_n_exterior(e):
    one(e, 2, (1,))


def h_n_mixed(e):
    one(e, 2, (1, 0))


def h_n_three(e):
    """three integrals over exterior facets"""
    w = world()
    data = datas(e, w, ["exterior_facet"])
    form = U.Form([integral(e, w, k, (1,), data, [U.EmptyDict]) for k in range(3)])
    before = state(form)
    f = FO.form_custom(form)
    same(e, form, before)
    check_form(e, w, f, form, w.jits[0])


def h_n_twice(e):
    """forms that share integrals, compiled one after the other, and again"""
    w = world()
    data = datas(e, w, ["exterior_facet"])
    metas = [U.EmptyDict, {"quadrature_degree": 3}]
    shared = integral(e, w, 0, (1,), data, metas)
    other = integral(e, w, 1, (1,), data, metas)
    A, Bf = U.Form([shared]), U.Form([shared]) + U.Form([other])
    a, b = state(A), state(Bf)
    seq = [(A, Bf), (Bf, A), (Bf, Bf)][e.pick("sequence", 0, 2)]
    for k, form in enumerate(seq):
        f = FO.form_custom(form)
        same(e, A, a)
        same(e, Bf, b)
        check_form(e, w, f, form, w.jits[k])


def h_n_failed(e):
    """a form that could not be compiled stays as it was"""
    w = world()
    data = datas(e, w, ["exterior_facet"])
    form = U.Form([integral(e, w, k, (0, 1), data, [U.EmptyDict, {"quadrature_degree": 3}]) for k in range(2)])
    before = state(form)
    w.fail = True
    try:
        FO.form_custom(form)
        e.check(False, "errors of the compiler are not hidden")
    except RuntimeError:
        pass
    same(e, form, before)


def h_n_lists(e):
    """lists of forms, with empty ones"""
    w = world()
    data = {t: None for t in TYPES}

    def some(k):
        if e.flag(f"empty{k}"):
            return U.Form([])
        return U.Form([integral(e, w, k, (0,), data, [U.EmptyDict])])
    n = e.pick("n", 0, 3)
    forms = [some(k) for k in range(n)]
    opts = {"part": ["full", "diagonal"][e.pick("part", 0, 1)]}
    # what is given: one form, a list, a tuple or nested lists
    how = e.pick("how", 0, 3)
    if how == 0 and n == 1:
        got = [FO.form_custom(forms[0], form_compiler_options=dict(opts))]
    else:
        given = [forms, tuple(forms), [forms[:1], forms[1:]], [forms[:1]] + forms[1:]][how]
        got = FO.form_custom(given, form_compiler_options=dict(opts))

    def flat(x):
        return [z for y in x for z in (flat(y) if isinstance(y, (list, tuple)) else [y])]
    got = flat(got)
    e.check(len(got) == n, "one custom form for each form of the list")
    jits = iter(w.jits)
    for f, form in zip(got, forms):
        e.check((f is None) == form.empty(), "empty forms give None")
        if f is None:
            continue
        j = next(jits)
        e.check(j.integrals[0][2] is form.integrals()[0].integrand(), "custom forms are in the order of the forms")
        e.check(j.options.get("part") == opts["part"], "options are passed on")
        if opts["part"] == "full":
            check_form(e, w, f, form, j)


def h_n_maps(e):
    """maps of entities between meshes, options of the compiler"""
    w = world()
    form = U.Form([integral(e, w, 0, (0, 1), {t: None for t in TYPES}, [U.EmptyDict])])
    maps = [None, [], [StandIn(_cpp_object="m0")], [StandIn(_cpp_object="m0"), StandIn(_cpp_object="m1")]][e.pick("maps", 0, 3)]
    jo = [None, {"timeout": 3}][e.pick("options", 0, 1)]
    f = FO.form_custom(form, entity_maps=maps, jit_options=jo)
    e.check(f._cpp_object.args[6] == [m._cpp_object for m in maps or []], "maps of entities are passed on")
    e.check(w.jits[0].jit is jo, "options are passed on")
