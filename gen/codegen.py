"""Runs the code generation of qugar (the real modules) on integrals given by their statements and writes, for
cxx/codegen.cpp, the generated C and what it must compute (spec_*: the same statements over the points, weights and
normals of the custom quadrature, with the values of the elements at them; orig_*: over the rules and tables of FFCx)."""
import os
import pathlib
import re
import subprocess
import sys
import traceback

sys.path[:0] = [str(pathlib.Path(__file__).resolve().parent.parent), str(pathlib.Path(__file__).resolve().parent)]
import kernelgen as K
K.setup()
import basix
import basix.ufl as bu
from qv import pyload

OUT = pathlib.Path(sys.argv[1])


def resolve(el, comp):
    """basix element that has a component, its value size there and the component in it"""
    if isinstance(el, bu._MixedElement):
        for s in el.sub_elements:
            if comp < s.reference_value_size:
                return resolve(s, comp)
            comp -= s.reference_value_size
    if getattr(el, "block_size", 1) > 1:
        return el.sub_elements[0].basix_element, 1, 0
    return el.basix_element, el.reference_value_size, comp


def params(b):
    return (int(b.family), int(b.cell_type), b.degree, int(b.lagrange_variant), int(b.dpc_variant), int(b.discontinuous))


class Reg:
    """elements that the kernels may tabulate"""

    def __init__(self):
        self.els = {}

    def of(self, b, vs):
        k = params(b)
        if k not in self.els:
            self.els[k] = (len(self.els) + 1, b.dim, vs, K.TDIM[b.cell_type.name])
        return self.els[k][0]


REG = Reg()


def spec(it):
    """the C++ functions that say what a kernel computes"""
    D, C = it.dtype, it.coef_dtype
    tdim = K.TDIM[it.cell]
    sig = f"({C} *A, const {C} *w, const {C} *c, const {D} *coordinate_dofs, const int *entity_local_index, const uint8_t *quadrature_permutation"
    o = []
    for q in it.quads:
        for t in q.tables.values():
            o.append(t.decl(D).replace(t.name, "S_" + it.full + t.name, 1))
    norm = None
    if "normal" in it.consts:
        norm = sum(tdim if n == "normal" else n for n in it.consts[:it.consts.index("normal")])
    o.append(f"static void spec_{it.full}{sig}, const Quad<{D}> *Q)\n{{")
    for j, q in enumerate(it.quads):
        def acc(t, s, k):
            if t.constant():
                return "S_" + it.full + t.access(s, "0", k)
            b, vs, comp = resolve(t.el, t.comp)
            h = REG.of(b, vs)
            facet = t.dim < tdim
            two = it.type == "interior_facet" and not facet
            x = f"Q[{j}].facet" if facet else f"Q[{j}].x[{s if two else 0}]"
            return f"({D})value({h}, {basix.index(*t.der)}, {k}, {comp}, {x} + iq * {t.dim}, {t.dim})"
        o.append(f"for (int iq = 0; iq < Q[{j}].n; ++iq) {{")
        for l in it.text(q, q.pre + q.body, acc, q.name):
            l = l.replace(f"weights_{q.name}[iq]", f"Q[{j}].w[iq]")
            if norm is not None and q.unfitted:
                for d in range(tdim):
                    l = re.sub(rf"\bc\[{norm + d}\]", f"Q[{j}].normal[iq * {tdim} + {d}]", l)
            o.append(l)
        o.append("}")
    o.append("}")
    o.append(f"static void orig_{it.full}{sig})\n{{")
    for q in it.quads:
        if q.unfitted:
            continue
        o.append("{ static const " + D + f" weights_{q.name}[] = {{" + ", ".join(repr(round(float(x) * 4096) / 4096) for x in q.rule.weights) + "};")
        o.append(f"for (int iq = 0; iq < {len(q.rule.weights)}; ++iq) {{")
        o += it.text(q, q.pre + q.body, lambda t, s, k: "S_" + it.full + t.access(s, "iq", k), q.name)
        o.append("} }")
    o.append("}")
    return "\n".join(o) + "\n"


UFCX = """#pragma once
#include <stddef.h>
typedef struct ufcx_integral { const void *enabled_coefficients; void *tabulate_tensor_float32, *tabulate_tensor_float64, *tabulate_tensor_complex64, *tabulate_tensor_complex128; } ufcx_integral;
"""


def main():
    OUT.mkdir(parents=True, exist_ok=True)
    (OUT / "ufcx.h").write_text(UFCX)
    head = ["#pragma once"]
    import scenarios
    for name, its in scenarios.all().items():
        err = None
        src = OUT / f"k_{name}.c"
        try:
            CG = pyload.load("dolfinx.codegeneration")
            ufl, ir, opts = K.all_of(its)
            blocks, data = CG.generate_code(ufl, ir, opts)
            assert len(blocks.integrals) == len(its) == len(data)
            src.write_text(blocks.file_pre[0][1] + "".join(h + b for h, b in blocks.integrals))
            r = subprocess.run(["clang-18", "-x", "c", "-std=gnu17", "-fsyntax-only", "-w", "-I", str(OUT), str(src)], capture_output=True, text=True)
            if r.returncode:
                err = "the generated code compiles: " + " ".join(r.stderr.split("error:")[1].split()[:12] if "error:" in r.stderr else [r.stderr[:80]])
            orders = []
            for it, d in zip(its, data):
                want = [q.name for q in it.quads]
                got = [q.name for q in d.quad_data_FE_tables]
                if sorted(want) != sorted(got):
                    err = f"the data of {it.full} has its quadratures"
                for q in it.quads:
                    m = [g for g in d.quad_data_FE_tables if g.name == q.name]
                    if m and (m[0].degree, bool(m[0].unfitted_boundary)) != (q.degree, q.unfitted):
                        err = f"the data of {it.full} has the degree and the kind of its quadratures"
                orders.append([want.index(g) for g in got] if not err else list(range(len(want))))
                if (d.integral_type, d.tdim, bool(d.is_mixed_dim)) != (it.type, K.TDIM[it.cell], it.mixed):
                    err = f"the data of {it.full} has the type of the integral"
                i = its.index(it)
                if list(d.subdomain_ids) != [-1 if i == 0 else i]:
                    err = f"the data of {it.full} has the subdomains of the integral"
        except pyload.StubMissing as x:
            print(f"{name}: no stand-in for {x}")
            sys.exit(3)
        except Exception as x:
            if not any("/python/qugar/" in f.filename for f in traceback.extract_tb(x.__traceback__)):
                raise
            err = f"the code is generated: {type(x).__name__} {str(x)[:80]}"
        if err:
            src.write_text("")
            head.append(f"#define ERR_{name} {quote(err)}")
            orders = [list(range(len(it.quads))) for it in its]
        for it, order in zip(its, orders):
            D, C = it.dtype, it.coef_dtype
            head.append(f'extern "C" void tabulate_tensor_integral_{it.full}({C} *, const {C} *, const {C} *, const {D} *, const int *, const uint8_t *, void *);')
            if err:
                head.append(f'extern "C" void tabulate_tensor_integral_{it.full}({C} *, const {C} *, const {C} *, const {D} *, const int *, const uint8_t *, void *) {{}}')
            head.append(spec(it))
            ncoef = sum(el.dim for el in it.coeffs) * (2 if it.type == "interior_facet" else 1)
            tdim = K.TDIM[it.cell]
            nconst = sum(tdim if n == "normal" else n for n in it.consts)
            head.append(f"struct I_{it.full} {{ using T = {D}; using C = {C}; static constexpr int tdim = {tdim}, size = {it.size}, coeffs = {ncoef}, consts = {nconst}, quads = {len(it.quads)}, "
                        f"coords = {max(it.coords, 1)}, facets = {len(it.facets) if it.entity == 'facet' else 0}, sides = {2 if it.type == 'interior_facet' else 1}, perms = {8 if tdim == 3 else 2}; static constexpr bool facet_points = {str(it.mixed).lower()}; "
                        f"static constexpr bool unfitted[] = {{{', '.join(str(q.unfitted).lower() for q in it.quads)}}}; static constexpr int order[] = {{{', '.join(map(str, order))}}}; "
                        f"static constexpr auto kernel = tabulate_tensor_integral_{it.full}; static constexpr auto spec = spec_{it.full}; static constexpr auto orig = orig_{it.full}; }};")
    els = ["struct El { int family, cell, degree, lv, dv, disc, dofs, vs, dim; };", "static constexpr El elements[] = {"]
    for k, (h, n, vs, dim) in REG.els.items():
        els.append("  { " + ", ".join(map(str, k + (n, vs, dim))) + " },")
    els.append("};")
    (OUT / "scenarios_elements.h").write_text("\n".join(els) + "\n")
    (OUT / "scenarios.h").write_text("\n".join(head) + "\n")


def quote(s):
    return '"' + s.replace("\\", "/").replace('"', "'").replace("\n", " ") + '"'


main()
