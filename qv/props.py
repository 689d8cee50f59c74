"""Which harness files decide which property, and what each takes for granted."""
ENGINE_CXX = [
    "clang 18 front end and -O1 IR of the real sources; the IR executor in qv/ir.py, qv/irexec.py",
    "z3 and cvc5 answers; the polynomial normal form in qv/poly.py",
]
ENGINE_PY = ["CPython executing the real modules; qv/terms.py, qv/explore.py as the symbolic values", "z3 and cvc5 answers"]
REALS = "C++ floating point is treated as real arithmetic (rounding is not modelled); machine integers keep their width and overflow is an obligation"
PYNP = "numpy integer arrays are unbounded integers in symbolic runs; external packages (dolfinx, ffcx, ufl, mpi4py, qugar.cpp) are stand-ins with the documented behaviour"
STUB = "algoim is replaced by the stub headers of cxx/stub (uvector is a plain array; integration itself is not modelled)"

PROPS = {
    "P01": dict(cxx=["tensor_index"], functions=["TensorIndexTP (all arithmetic, comparison, flat conversion)", "TensorSizeTP", "TensorIndexRangeTP and its iterator", "std::hash<TensorIndexTP>"], note="Proof for all inputs over the IR of the real sources; machine integers exact; loops over the dimension only."),
    "P02": dict(cxx=["cart_grid", "cart_grid_int"], functions=["Tolerance", "BoundBox", "CartGridTP", "SubCartGridTP"], note="Proof for all inputs; where breaks are stored, for every grid up to the stated number of cells (n_ harnesses), break values symbolic."),
    "P04": dict(cxx=["funcs", "funcs_bzr"], slow=("n_torus",), functions=["primitive_funcs_lib.cpp: all general primitives", "impl_funcs_lib.cpp: DimLinear, TransformedFunction, Add/Subtract/Negative, Square", "tpms_lib.cpp: all functions"], note="Proof for all inputs in real arithmetic; derivatives by symbolic differentiation of the value the code computes; sin, cos, sqrt by their algebraic laws."),
    "P05": dict(cxx=["poly", "lagrange"], level="other", functions=["BezierTP (all members)", "MonomialsTP (all members)", "PolynomialTP", "evaluate_Bernstein", "Bezier_product", "Bezier_composition", "evaluate_Lagrange_basis*", "evaluate_Lagrange_derivative"], note="For every polynomial of the stated orders (1D up to order 6, 2D up to 4, 3D up to 3), with all coefficients and points symbolic: obligations discharged in real arithmetic. The order of the polynomial is bounded, so nothing is counted as proved.", slow=("n_bezier31", "n_algebra31", "n_algebra21", "n_monomials31")),
    "P06": dict(cxx=["quad"], functions=["Gauss::get_abscissa/get_weight and the table", "TanhSinh::get_abscissa/get_weight and the table", "Quadrature<1,2,3> (all members)"], note="Every entry of both tables, exactly; every domain (real arithmetic). 1D rules for every number of points, 2D up to 4 and 3D up to 3 points per direction (n_ harnesses). The tanh-sinh map (transcendental) is checked natively at every entry (b_ harness)."),
    "P07": dict(cxx=["unf_domain"], level="other", functions=["UnfittedImplDomain (construction by recursive bisection, facet classification)", "UnfittedDomain (all queries)", "UnfittedBinaryPart"], note="For every state of the cells of grids up to 6 cells (2D, 3D), every set of target cells, every sequence of branchings up to depth 2 and every outcome of the measurement of a facet: all paths, obligations discharged. The size of the grid is bounded, so nothing is counted as proved."),
    "P08": dict(cxx=["cut_quad"], level="other", functions=["create_quadrature", "create_unfitted_bound_quadrature", "create_facets_quadrature_interior_integral", "create_facets_quadrature_exterior_integral", "create_cell_quadrature", "create_cell_unfitted_bound_quadrature", "create_facet_quadrature", "purge_facet_points", "add_unf_bdry_quad"], note="Maps of points, weights and normals: proof for all cells, nodes, weights and gradients (one node). Which entities get which points: every state of two cells and of the facets of one of them, every list up to three entries, so the property as a whole is not counted as proved.", slow=("bezier2", "n_boundary3", "n_facets3"), trusted=["P07: states of cells and facets", "algoim: any nodes and weights (stand-in)"]),
    "P09": dict(cxx=["roots"], level="other", functions=["get_facet_constant_dir", "get_facet_side", "get_local_facet_id", "get_edge_constant_dirs", "get_edge_sides", "RootsIntervals (all members)"], note="Facets and edges: proof for all. Lists of roots: every list of up to four roots (sorting) and three (adjusting), any interval; the length is bounded, so the property as a whole is not counted as proved."),
    "P10": dict(cxx=["points"], level="other", functions=["find_coincident_points", "make_points_unique"], note="Every list of two or three points with symbolic coordinates in 1D to 3D, the tolerance fixed. The number of points is bounded, so nothing is counted as proved."),
    "P11": dict(cxx=["reparam_mesh"], level="other", functions=["ReparamMesh (all members but the files)", "ImplReparamMesh (all members)"], note="Orientation: any position of the points of two cells (in 3D, some coordinates fixed). Cells, wires and merging: every order two to four, grids of up to four cells, edges with ends at any position relative to the domain. The number of cells is bounded, so nothing is counted as proved.", slow=("n_wires22", "n_wires33", "n_wires23", "n_wires22_quadratic", "oriented_facet3")),
    "P12": dict(cxx=["vtk"], level="other", functions=["create_VTU_conn_mask", "get_VTK_cell_type", "write_reparam_to_VTK_cells", "ReparamMesh::write_VTK_file"], note="Every node of cells up to order 10, 8, 6: obligations discharged. The files themselves are written natively and read back (bounded, b_ harnesses).", trusted=["VTK's node layout of Lagrange cells in files of version 0.1"]),
    "P13": dict(py=["tp_index"], level="other", functions=["TensorProdIndex (all functions)"], note="Corners, faces, edges, internal indices, flat and tensor indices: proof for every number of indices per direction (32-bit sizes, up to 2^50 indices in all), with overflow of every product an obligation. The unions get_all_faces and get_all_edges are built in a loop and are decided for every size up to 7 (2D), 5 (3D), so the property as a whole is not counted as proved."),
    "P14": dict(py=["orderings"], level="other", functions=["mesh/utils.py (all maps)"], note="For every degree up to 10 (1D, 2D) and 6 (3D), against the points and topology of basix and VTK's documented node layout. The degree is bounded, so nothing is counted as proved."),
    "P15": dict(py=["tp_mesh"], level="other", functions=["_create_first_cell_conn_Cartesian", "_create_tensor_prod_mesh_conn", "_create_Cartesian_mesh_nodes_from_points/cells", "TensorProductMesh", "CartesianMesh", "create_Cartesian_mesh"], note="For every grid up to the stated sizes, with renumberings by a stand-in of DOLFINx; coordinates of nodes symbolic. The size is bounded, so nothing is counted as proved."),
    "P16": dict(py=["facets"], level="other", functions=["MeshFacets (all methods)", "create_facets_from_ids", "create_exterior_mesh_facets", "create_interior_mesh_facets", "create_all_mesh_facets"], note="Every list of up to three pairs (all equality patterns), every mesh up to the stated sizes. The size is bounded, so nothing is counted as proved."),
    "P17": dict(py=["ids"], level="other", functions=["_find_in_array", "_merge_coincident_points_in_mesh", "Mesh (all maps of ids)"], note="Every mesh, renumbering, part and active set up to the stated sizes. The size is bounded, so nothing is counted as proved."),
    "P18": dict(py=["unfitted"], level="other", functions=["UnfittedDomain (all methods)", "UnfittedDomainABC.get_all_facets, create_cell_meshtags, create_facet_tags", "UnfittedCartMesh", "create_unfitted_impl_Cartesian_mesh"], note="Every kind of facet and state of cell, every order of calls, on grids of up to four cells. The size is bounded, so nothing is counted as proved.", slow=("n_facets", "n_facet_tags", "n_cells"), trusted=["P07: the states and kinds that the C++ domain reports"]),
    "P19": dict(py=["coeffs"], level="other", functions=["CustomCoeffsPacker (pack, update)", "_CustomCoeffsPackerIntegral (all methods)"], note="Every mixture of classes of up to four entities, numbers of points and quadratures up to the stated sizes, through the public packer. The size is bounded, so nothing is counted as proved.", trusted=["the layout of coefficients of FFCx and DOLFINx 0.10 as documented"]),
    "P20": dict(cxx=["codegen"], level="other", functions=["generate_code", "_IntegralModifier", "KernelBody", "FETable", "create_quadrature_data"], note="The real modules generate the kernels; the generated C is compiled and executed symbolically: all values, up to two points per quadrature, the integrals of gen/scenarios.py. The number of integrals is bounded, so nothing is counted as proved.", trusted=["gen/kernelgen.py: the form of the code and the tables of FFCx 0.10", "contracts of the functions of the basix shim (register, tabulate, scratch)"]),
    "P23": dict(py=["forms"], level="other", functions=["form_custom", "CustomForm", "_process_exterior_integrals and what they call"], note="Every form of up to three integrals with any mixture of ids, subdomain data and custom domains; lists of forms. The number of integrals is bounded, so nothing is counted as proved.", trusted=["stand-ins of UFL's forms and of DOLFINx's creation of forms (py/uflfakes.py, py/forms.py)"]),
    "P24": dict(py=["measure"], level="other", functions=["ds_bdry_unf", "mapped_normal"], note="Every Jacobian of positive determinant and every normal, symbolic, in 2D, 3D and on surfaces (harnesses without n_ hold for all of them); integrands, ids and sums of measures are enumerated, so the property is not counted as proved.", slow=("unit3", "unit_surface"), trusted=["stand-ins of UFL's measures and operators evaluate to what UFL documents"]),
    "P25": dict(py=["quaddata"], level="other", functions=["extract_quadrature_data", "_extract_single_quadrature_data", "_get_integral_subdomain_ids"], note="Up to three rules per integral; the number is bounded, so nothing is counted as proved.", trusted=["FFCx's create_quadrature_points_and_weights, replaced by tokens"]),
    "P26": dict(py=["problems"], level="other", functions=["LinearProblem (all)", "NonlinearProblem (all)", "coefficients of lists of forms", "assemble_scalar"], note="Problems of one form each and lists of forms; sequences of three calls. Bounded, so nothing is counted as proved.", trusted=["stand-ins of PETSc and DOLFINx's assembly record what they are given"]),
    "P27": dict(py=["versions"], level="other", functions=["check_version_in_range", "_compare_version_le", "check_DOLFINx, check_Basix, check_FFCx, check_UFL", "dtype_to_C_str", "parse_dtype_C", "parse_real_dtype_from_C", "get_pairing_brackets"], note="Components of versions from a set with every order relation. Bounded, so nothing is counted as proved.", trusted=[]),
    "P28": dict(cxx=["shim"], py=["shimbuild"], level="other", functions=["ensure_built", "_find_cxx", "_file_lock", "register_impl", "shape_impl", "tabulate_impl", "get_scratch_impl", "the extern C functions"], note="The C++ source is executed symbolically with its exceptions; basix is a stand-in. Builds run on scratch copies of the sources with a stand-in compiler that fails or is killed at any step. Sequences are bounded, so nothing is counted as proved.", trusted=["basix's elements (cxx/stub/basix)", "libstdc++'s rebalancing of std::map", "flock and rename are atomic"], slow=("n_tables2", "n_register3")),
    "P29": dict(cxx=["bind_funcs", "bind_common", "bind_domain", "bind_cut_quad", "bind_quad", "bind_reparam"], level="other", functions=["every function bound in python/nanobind_wrappers", "wrapper_utils.hpp"], note="The real sources of the bindings over a stand-in of nanobind that keeps what is bound; each bound function is then called with symbolic arguments and compared with the C++ function (harnesses without n_ hold for all values). Grids, domains and lists are of fixed sizes, so the property as a whole is not counted as proved.", trusted=["cxx/stub/nanobind: arguments, ownership and layout of arrays as nanobind documents them"], slow=("torus",)),
    "P30": dict(py=["implfuncs", "calls"], level="other", functions=["all create_* of qugar.impl", "ImplicitFunc", "create_Cartesian_mesh, create_unfitted_impl_Cartesian_mesh", "UnfittedDomain.create_quad_*", "create_reparam_mesh", "UnfDomainReparamMesh.create_mesh", "identity_partitioner"], note="Calls go to a stand-in of the module whose functions, overloads and defaults are read from the real bindings on every run (qv/cppmod.py). Values are enumerated, so nothing is counted as proved.", trusted=["qv/cppmod.py: the choice of overloads and conversions of nanobind"]),
    "P31": dict(py=["plots"], level="other", functions=["all of qugar.plot.pyvista_tools"], note="The C++ module is the stand-in of P30; grids have up to eight cells, so nothing is counted as proved.", trusted=["py/pvfakes.py: the operations of PyVista, and VTK's order of the sides of cells", "dolfinx.plot.vtk_mesh"]),
    "P32": dict(py=["jitcache"], level="other", functions=["ffcx_jit", "compile_forms", "_compile_objects", "_deduped_ldshared", "_codegen_signature", "compile_ufl_objects"], note="Sequences of three requests, any of the first two failing in any stage, for two forms, four sets of options, five versions of the code generation and two tabulation libraries; linker commands of up to five words. Bounded, so nothing is counted as proved.", trusted=["FFCx's analysis, formatting, signatures and cache of modules, and cffi, as their documentation describes them (stand-ins in py/jitcache.py)"]),
    "P21": dict(py=["quadperm"], level="other", functions=["_create_permutation_operators", "permute_facet_points", "map_facets_points"], note="Every facet of every cell type, every permutation, symbolic coordinates; lists of two points. The length of the list is bounded, so nothing is counted as proved.", slow=("n_sides",), trusted=["FFCx's permutation of facet points (permute_quadrature_interval, permute_quadrature_scaled_reference_simplex, permute_quadrature_quadrilateral)"]),
    "P22": dict(cxx=["reparam", "reparam_domain"], level="other", functions=["create_reparameterization (all)", "reparam_general", "reparam_general_facet", "reparam_Bezier", "ImplicitGeneralReparam (all members)", "ImplicitPolyReparam (all members)"], note="Any half-plane in 2D (normal and offset symbolic), half-spaces and strips of several directions with symbolic offset in 2D and 3D, through corners or not; the box and the orders are fixed, so nothing is counted as proved. Domains: grids of four (2D) and two (3D) cells. Scaled functions and balls are searched natively (bounded, b_ harnesses).", trusted=["roots along a line are exact (algoim's root finder is a stand-in); elimination of an axis of linear polynomials by their restrictions to the sides and resultants"], slow=("n_domain3", "n_domain3_boundary", "n_bezier_some_lines", "n_line", "n_bezier_plane")),
    "P03": dict(cxx=["affine", "refsys"], functions=["AffineTransf", "RefSystem", "create_reference_system_around_axis"], note="Proof for all inputs in real arithmetic (rounding not modelled)."),
}


def level(P):
    return P.get("level", "proof")


def trusted(P):
    return (ENGINE_CXX if P.get("cxx") else []) + (ENGINE_PY if P.get("py") else []) + P.get("trusted", [])


def assumptions(P):
    return ([REALS, STUB] if P.get("cxx") else []) + ([PYNP] if P.get("py") else []) + P.get("assumptions", [])
