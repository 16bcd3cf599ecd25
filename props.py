"""Single source of properties.jsonl and MANIFEST.json (python3 props.py rewrites both)."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
CLAIMED = [
 dict(id="F01", title="Formatted output matches its arguments and its buffer",
  statement="Whenever the software formats text with a printf-style format, every conversion in the format receives exactly one argument of the type the conversion names, and a format of bounded width never produces more characters than its buffer holds. A format that comes from the user is accepted only if it is certain to consume exactly the argument passed; any other is rejected as a HIL exception.",
  over=["inputs", "programs"], qtext="Every formatting call reachable in any configuration, with every argument value and every user-defined format.",
  why="Tests never print most messages (error texts, reports, file names) and never with hostile formats; a mismatch is undefined behaviour that often prints plausible text.",
  files=["include/utils.hpp", "src/utils.cpp", "src/Case.cpp", "src/Interpreter.cpp", "src/Iteration_status.cpp", "src/Stopwatch_tree.cpp"],
  mech=[("format_str wrapper", "include/utils.hpp"), ("column formatter", "include/Iteration_status.hpp format"), ("user-defined number format", "src/Interpreter.cpp _general_add"), ("assertion messages", "include/assert.hpp")],
  technique="constant propagation of format texts through wrappers, conversion/argument type matching, regular-language inclusion for user formats",
  note="Every printf-family call site is resolved to its constant format text through wrapper functions (up to 4 levels) or to a dominating regular-expression check; assumes the libc semantics of conversions. Formats printed with iostreams are outside the rule."),
 dict(id="I01", title="User text cannot drive the HIL interpreter into undefined behaviour",
  statement="No HIL program, structured expression, case variable or CSV text makes the software dereference an absent value, divide an integer by zero, access an empty or out-of-range text, or parse past the end of the program text. A failed check while evaluating a HIL program raises the HIL exception that HIL's own exception handling can catch.",
  over=["inputs", "programs"], qtext="Every program text, structured expression, CSV file and set of case variables; every dereference of an optional in the code base.",
  why="Tests run a few dozen well-formed programs and a handful of expected failures; malformed operands, truncated programs and degenerate options are unbounded.",
  files=["src/Interpreter.cpp", "include/Interpreter.hpp", "src/Struct_expr.cpp", "src/read_csv.cpp", "src/Case.cpp", "src/History_monitor.cpp", "include/Namespace.hpp"],
  mech=[("character list ending in a null", "src/Interpreter.cpp exec, _pop, _more"), ("operand checks", "src/Interpreter.cpp operators"), ("statement splitting", "src/Struct_expr.cpp"), ("row parsing", "src/read_csv.cpp"), ("option handling", "src/Case.cpp")],
  technique="path-condition dataflow with interprocedural guard recognition and class invariants",
  note="Obligations are proven from facts that dominate the use (branches, assertions, early exits, helpers, class invariants). Integer overflow and exceptions thrown by the standard library are not covered; variables of a namespace are assumed never removed."),
 dict(id="R01", title="Parallel loops are free of data races",
  statement="Iterations of an OpenMP-parallel loop never touch memory that another iteration of the same loop writes, unless every access is atomic or is made while holding a lock of the accessed object or in a critical section. Variables combined over a loop are declared as reductions and are updated only with the operator of the reduction, and locks are never nested so that two threads (or one) could block forever.",
  over=["schedules", "inputs"], qtext="Every parallel loop in every template instantiation, every assignment of iterations to threads, every mesh.",
  why="A race shows up only in certain interleavings on meshes with certain shared vertices, elements and hanging faces; tests run tiny meshes and compare with tolerances.",
  files=["src/Accessible_mesh.cpp", "src/Solver.cpp", "src/Solver_snap_faces.cpp", "src/Linearized.cpp", "include/Spatial.hpp", "src/stabilizing_art_visc.cpp", "include/Element_container.hpp"],
  mech=[("kernel loops", "include/Spatial.hpp"), ("vertex locks", "src/Accessible_mesh.cpp update, reset_verts, id_boundary_verts"), ("atomic element records", "src/Accessible_mesh.cpp deform, delete_bad_extrusions, needs_refine"), ("vertex data exchange", "src/Element.cpp push/fetch_shareable_value, src/Hanging_vertex_matcher.cpp"), ("reductions", "include/Spatial.hpp Max_dt; src/Solver.cpp; src/Linearized.cpp inner")],
  technique="interprocedural access-path effect analysis of parallel regions with ownership, lock and atomicity tracking",
  note="Access paths are followed through calls, virtual dispatch, lambdas, views and smart pointers. Relies on listed facts about data structures (containers hold distinct objects, an element face belongs to one connection, Mutual_ptr is one to one). Code of libraries, and callbacks whose target is unknown, are assumed to write only what they are given."),
 dict(id="W01", title="Observing the simulation does not change it",
  statement="Evaluating output variables, integrals, bounds and samples, visualizing fields or surfaces, writing the mesh or the state to files, checking admissibility and querying the status leave the flow state, artificial viscosity, time steps and mesh exactly as they were. Vertices moved to their nominal positions for a visualization are all put back afterwards.",
  over=["inputs", "programs"], qtext="Every output variable, output function and output command; every mesh and state on which they are evaluated.",
  why="Tests compare the output, not everything the observation could have touched; a side effect shows up only in the later course of a simulation.",
  files=["src/Solver.cpp", "src/Case.cpp", "src/Accessible_mesh.cpp", "src/Qpoint_func.cpp", "src/Element_func.cpp", "src/Boundary_func.cpp", "src/Vis_data.cpp", "src/hil_properties.cpp", "include/Mesh.hpp"],
  mech=[("output functions", "src/Solver.cpp"), ("output commands", "src/Case.cpp"), ("output variables", "include/Output_data.hpp and its implementations"), ("temporary nominal positions", "include/Mesh.hpp Reset_vertices; src/Accessible_mesh.cpp reset_verts, restore_verts")],
  technique="interprocedural effect analysis of observation entry points against an allow list of bookkeeping",
  note="Everything reachable from each observation entry point is analysed for memory it may write. Bookkeeping which is defined not to belong to the simulation is exempt: stopwatches, Element::record and Vertex::record, HIL variables, files, face storage recomputed by the Write_face kernel. vis_lts_constraints and the residual computations are documented to overwrite storage and are no observation in this sense."),
 dict(id="H01", title="The input language interface of a case is complete and consistent",
  statement="Every parameter, output variable and command documented for input scripts exists with its documented type and default value, every documented option name selects the documented boundary condition, and operators have their documented precedence. Built-in macros, output expressions and the solver refer only to variables that are defined where they are evaluated, and never read or assign them with an incompatible type. Whichever permitted combination of quantities the user gives to specify the freestream, all documented freestream quantities are defined afterwards.",
  over=["inputs", "programs"], qtext="Every variable that built-in HIL code or C++ code accesses by name, every documented variable, every subset of the optional freestream quantities and every documented combination of thermal boundary condition keys.",
  why="The interface is made of strings: a misspelled or missing variable compiles, and shows up only in the one macro, option or input combination that needs it.",
  files=["include/Case.hil", "include/builtin.hil", "include/interactive.hil", "src/Case.cpp", "src/Solver.cpp", "src/Interpreter.cpp", "src/hil_properties.cpp", "src/Struct_expr.cpp", "include/Namespace.hpp", "doc/parameters.dox", "doc/hil.dox", "doc/boundary_conditions.dox"],
  mech=[("commands and parameters", "src/Case.cpp; include/Case.hil"), ("solver parameters", "src/Solver.cpp constructor"), ("variables of output expressions", "src/hil_properties.cpp"), ("operators", "src/Interpreter.cpp")],
  technique="abstract interpretation of the HIL library, string-pattern evaluation of every namespace access in C++, and definite-assignment analysis over all input combinations",
  note="User-written HIL code is outside the analysis; values of variables are analysed flow-insensitively except for the presence of the quantities that specify the freestream and the thermal boundary condition. Numerical correctness of the derived values is not decided."),
 dict(id="N01", title="Nothing is read before it has been given a value",
  statement="No local number, flag, pointer or fixed-size array is read on a path on which it has not been assigned, and no local object's member is read, directly or by one of its methods, before something has set it. Every constructor gives a value to all number, flag, pointer and array members that are ever read, and no member initialiser uses a member whose own initialisation comes later.",
  over=["inputs", "programs"], qtext="Every path through every function and constructor, in all template instantiations; every construction of every class.",
  why="An indeterminate value is often zero or left over from an earlier call with the same inputs, so that tests pass; the wrong value appears with another compiler, allocator or call order.",
  files=["src/Accessible_mesh.cpp", "src/Vertex.cpp", "include/pde.hpp", "include/Spatial.hpp", "include/connection.hpp", "src/Solver.cpp", "src/Element.cpp"],
  mech=[("pointwise flux computations", "include/pde.hpp Computation; include/Spatial.hpp"), ("mesh construction", "src/Accessible_mesh.cpp"), ("connections", "include/connection.hpp"), ("vertex values", "src/Vertex.cpp")],
  technique="definite-assignment dataflow with member typestate of local objects, initialiser-order check and element coverage",
  note="Buffers of dynamic size held as members (element and face storage) are outside the rule. Loops are taken to run at least once, and functions given a non-const reference or pointer are taken to assign it."),
 dict(id="M01", title="Mesh and state files restore what was written",
  statement="Every attribute, table and column a mesh or state file is read from is one that writing it fills, with the same type, shape and meaning: each element, vertex position, tree node, connection (with its elements in order, dimensions, face signs, stretching and orientation), boundary condition number and face warping is restored to the object it was written from. Object numbers in the tables name the row where that object is written. The documented list of attributes, tables, shapes, types and entries is the one that is written.",
  over=["inputs", "histories"], qtext="Every mesh that can be written (any dimension, refinement, deformed or Cartesian, reversed or stretched connections), every column of every table.",
  why="Tests compare a few aggregate values of small meshes; a swapped column, a reversed order or a wrong row shows up only with certain connections, refinement patterns or element orders.",
  files=["src/Accessible_mesh.cpp", "src/Solver.cpp", "include/connection.hpp", "include/Tree.hpp", "doc/mesh_io.dox"],
  mech=[("mesh writer", "src/Accessible_mesh.cpp write"), ("mesh reader", "src/Accessible_mesh.cpp read_file, read_params, read_root_sz"), ("state files", "src/Solver.cpp write_state, read_state"), ("connection classes", "include/connection.hpp"), ("format description", "doc/mesh_io.dox")],
  technique="value-provenance abstract interpretation of writers and readers for each dimension, comparison of the provenance of what is read with what is written",
  note="Writers and readers are evaluated with symbolic meshes for n_dim 1, 2, 3 and both values of each orientation flag; an obligation is only decided where the provenance of both sides is exact. Layers of extrusion connections and solver parameters other than the stored attributes are not part of the file format. The HDF5 library is assumed to return what was written."),
 dict(id="U01", title="Physical formulas are independent of units and mirror images",
  statement="Changing the unit of mass, length, time or temperature, reversing the direction of a coordinate axis, or enlarging a deformed element together with its mesh changes every flux, residual, ghost state, time step limit, transport coefficient, output variable and freestream quantity only by the factor its physical dimension, its direction or its area or volume weighting prescribes. So no formula in the conversion of inputs, the pointwise flow equations, the artificial viscosity equations, the boundary conditions, the standard atmosphere or the output variables adds, compares or stores quantities of different dimension or of different behaviour under reflection.",
  over=["inputs", "programs"], qtext="Every flow state, geometry and parameter value; 1 to 3 dimensions, Cartesian and deformed elements, all documented combinations of freestream quantities and thermal boundary conditions.",
  why="Tests evaluate formulas at a few states in SI units, where a missing factor can be near one, or hidden by a tolerance or by a term that is zero on the test's state or mesh.",
  files=["include/pde.hpp", "include/Spatial.hpp", "include/Transport_model.hpp", "src/Boundary_condition.cpp", "src/Domain_func.cpp", "src/Qpoint_func.cpp", "src/Boundary_func.cpp", "src/hil_properties.cpp", "src/Case.cpp", "src/Solver.cpp", "src/stabilizing_art_visc.cpp", "src/standard_atmosphere.cpp", "include/constants.hpp"],
  mech=[("pointwise equations", "include/pde.hpp Navier_stokes, Advection, Smooth_art_visc, Fix_therm_admis"), ("kernels", "include/Spatial.hpp"), ("ghost states", "src/Boundary_condition.cpp"), ("output variables", "src/Qpoint_func.cpp, src/Domain_func.cpp, src/Boundary_func.cpp, src/hil_properties.cpp"), ("reference conditions", "src/Case.cpp init_solver"), ("artificial viscosity", "src/Solver.cpp; src/stabilizing_art_visc.cpp")],
  technique="abstract interpretation of the type-checked program in the algebra of physical dimensions, reflection parities and area scaling",
  note="Every kernel, boundary condition, output function and command is evaluated with storage slots that carry a specified dimension and parity; a violation is a sum, comparison or store whose two sides are both known and differ. Dimensionless factors and signs that are even under reflection (such as 2 or gamma - 1) are not decided; the evaluated row sizes are 2 (quick) and 2, 3 (thorough)."),
 dict(id="C01", title="The discretization is conservative and consistent",
  statement="The flux computed for a face leaves one of the two elements and enters the other at the same points (in every orientation of the two elements and with every arrangement of finer elements on one side), the state averages used for viscous terms agree on both sides likewise, and between equal states the two are the flux of the Euler equations and the state itself. The update (or residual) of an element changes the integral of mass, momentum and energy by exactly the flux through its faces, in Cartesian and deformed elements, with and without viscosity and in both stages (modal filter off), and a deformed element of Cartesian shape, however rotated, gets the same update as a Cartesian one. Face values are those of the polynomials in the element, and no mass passes through solid walls, nor energy through slip walls; a complete update applies these steps to all elements and connections, in an order in which each finds its inputs, with the options it was given.",
  over=["inputs", "programs"], qtext="Every state, geometry, time step and parameter value; 1 to 3 dimensions, all face orientations, all combinations of stretching.",
  why="Tests run convergence problems with tolerances on a few meshes; an error in one orientation, stretching combination or formula changes results slightly or only on particular meshes.",
  files=["include/Spatial.hpp", "include/pde.hpp", "include/Derivative.hpp", "include/Row_rw.hpp", "include/Row_index.hpp", "include/Kernel_connection.hpp", "src/connection.cpp", "src/Boundary_condition.cpp", "src/kernels_convective.cpp", "src/kernels_diffusive.cpp"],
  mech=[("numerical flux and its two sides", "include/Spatial.hpp Neighbor, Neighbor_reconcile, Face_permutation"), ("update of elements", "include/Spatial.hpp Local, Reconcile_ldg_flux, Write_face"), ("faces of different size", "include/Spatial.hpp Prolong_refined, Restrict_refined"), ("matching of vertices", "src/connection.cpp vertex_inds"), ("walls", "src/Boundary_condition.cpp Nonpenetration, No_slip"), ("sequence of kernels", "src/kernels_convective.cpp, src/kernels_diffusive.cpp compute_*, src/Solver.cpp _kernel_mesh")],
  technique="abstract interpretation of the kernels in a domain of exact normal forms (polynomials over inputs and uninterpreted functions); conservation as equality of forms",
  note="Decided for all inputs at row size 2 (thorough: also 3). Uses the documented properties of the basis matrices as axioms; modal filtering, pseudo-time factors of the artificial viscosity equations and rounding are not covered."),
 dict(id="B01", title="Boundary conditions impose the documented ghost state and flux",
  statement="At every point of a boundary face, on either side of an element and in 1 to 3 dimensions, the ghost state or flux that a boundary condition writes is the documented function of the inside values, the surface normal (of any length), the position and the parameters. Prescribed states are copied as given; slip walls mirror velocity in the wall and no-slip walls reverse it, keeping mass, with the energy or heat flux of the chosen thermal condition; the pressure outflow imposes its pressure unless the flow leaves faster than sound. Riemann invariants takes each wave from inside or from the freestream by the sign of its speed out of the domain, for the state and the viscous flux, and advection ghost values mirror, reverse or copy the velocity and the advected scalars according to the kind of boundary.",
  over=["inputs"], qtext="Every inside state, flux, normal, position and parameter value, every face point, both face signs, 1 to 3 dimensions, every boundary condition class and thermal condition.",
  why="Tests evaluate a few conditions at one or two states on one face; conditions that depend on the direction of a wave, the length of the normal or the side of the element need inputs they do not try.",
  files=["src/Boundary_condition.cpp", "include/Boundary_condition.hpp", "include/pde.hpp", "include/constants.hpp"],
  mech=[("prescribed states", "src/Boundary_condition.cpp Freestream, Function_bc, Cache_bc"), ("walls", "src/Boundary_condition.cpp Nonpenetration, No_slip; include/Boundary_condition.hpp Thermal_bc"), ("outflow", "src/Boundary_condition.cpp Outflow, Pressure_outflow, Copy"), ("characteristics", "src/Boundary_condition.cpp apply_char, Riemann_invariants; include/pde.hpp Characteristics"), ("smoothness indicator", "src/Boundary_condition.cpp apply_advection")],
  technique="abstract interpretation of the boundary conditions in a domain of exact normal forms; comparison with the documented ghost values as forms",
  note="Forms that differ syntactically are separated by an exact identity test on the polynomial and on gated values; conditions are compared as the predicate each value is gated on. Geometry boundary conditions (moving vertices onto surfaces) and the spatially varying functions themselves are not covered."),
 dict(id="K01", title="Kernels stay inside the storage of their elements and faces",
  statement="For every dimension and row size, the arrays of an element or connection (states, residuals, artificial viscosity, advection, Jacobian, face data, normals, caches) have the room their accessors promise, do not overlap unless documented, and lie inside the allocation, and the offsets the equations use agree with the accessors. Each face and normal pointer, including those of mortar faces between coarse and fine elements in any orientation, stretching and order, is that of the element side it belongs to. Every index that kernels, boundary conditions and element functions compute from dimension, row size, face and point is inside the array it refers to, and operands of matrix operations have matching sizes.",
  over=["inputs", "programs"], qtext="1 to 3 dimensions, row sizes 2 to 8 for the layout and 2 (thorough: 3) for the kernels, Cartesian and deformed elements, all orientations, stretching and orders of connections, all options of the kernels.",
  why="Overlapping or short arrays corrupt neighboring data silently and only for some dimension, row size or orientation; tests run one row size and a few orientations.",
  files=["include/connection.hpp", "include/Boundary_face.hpp", "src/Element.cpp", "include/Element.hpp", "src/Deformed_element.cpp", "src/Storage_params.cpp", "include/Spatial.hpp", "include/pde.hpp", "src/Boundary_condition.cpp", "src/Solver.cpp"],
  mech=[("storage of elements", "src/Element.cpp, src/Deformed_element.cpp, src/Storage_params.cpp"), ("storage of connections", "include/connection.hpp Face_connection, Typed_bound_connection, Refined_connection"), ("offsets", "include/pde.hpp *_offset"), ("accesses", "include/Spatial.hpp kernels, src/Boundary_condition.cpp, src/Solver.cpp")],
  technique="abstract interpretation with allocation regions: constructors and accessors evaluated to concrete sizes and offsets, every known index checked against its array",
  note="Sizes, offsets and indices that follow from dimension and row size are evaluated exactly; indices that depend on flow data are not checked, nor is running from one array into the next inside one allocation by pointer arithmetic in a kernel."),
 dict(id="E01", title="Failures to open, read or write files are reported as exceptions",
  statement="Whenever a file that hexed was asked to read or write (meshes, CSV tables, programs, geometry, log, images, OpenFOAM files) cannot be opened or created, or reading or writing it fails, the operation ends with an exception. It never continues with empty or partial data as if nothing had happened.",
  over=["inputs", "crash_points"], qtext="Every file name, file content, permission and input/output error at any point.",
  why="Silent failures show up as empty tables, empty programs or truncated meshes in a later run; tests only use files that work.",
  files=["src/read_csv.cpp", "src/Interpreter.cpp", "src/Accessible_mesh.cpp", "src/Case.cpp", "src/Occt.cpp", "src/Solver.cpp"],
  mech=[("file streams", "src/read_csv.cpp read_csv, src/Interpreter.cpp `read`, src/Accessible_mesh.cpp write_polymesh_file, src/Case.cpp output file"), ("geometry and images", "src/Occt.cpp execute_reader, write_image"), ("exceptions of HDF5 and std::filesystem", "every try block in src")],
  technique="typestate analysis of file streams over all paths (fresh, open, dirty, flushed, clean), followed through helper functions; use of library results that report success; exception handlers",
  note="HDF5, XDMF and std::filesystem report errors as exceptions by default, which must not be caught and dropped; what is printed to the log after it was opened is not tested."),
]
NA = [
 dict(id="A01", title="Solutions converge at the design order of accuracy",
  statement="For a smooth exact solution, the error of the computed solution decreases with the mesh size at the order given by the row size, for Cartesian and deformed meshes.",
  over=["inputs"], qtext="Every smooth flow, mesh family and row size.", why="Tests observe a few mesh families with tolerances.",
  files=["include/Spatial.hpp", "src/Gauss_legendre.cpp", "src/Gauss_lobatto.cpp"], mech=[("basis and kernels", "include/Spatial.hpp, src/Basis.cpp")],
  reason="An asymptotic statement about numerical solutions; the algebraic part that source code decides (conservation, consistency, exactness on Cartesian shapes) is C01, the rest needs a limit over solutions that no static argument in reach bounds."),
 dict(id="S01", title="The time integration is stable and keeps the flow admissible",
  statement="With the default safety factors, time steps stay stable and density and pressure stay positive, and the limiter restores admissibility where they would not.",
  over=["inputs", "histories"], qtext="Every initial state, mesh and number of iterations.", why="Tests run a few cases for a few iterations.",
  files=["src/Solver.cpp", "src/kernels_max_dt.cpp", "include/pde.hpp"], mech=[("time step", "include/Spatial.hpp Max_dt"), ("limiter", "src/Solver.cpp fix_admissibility")],
  reason="Depends on eigenvalues of operators that depend on the evolving solution; no sound static bound is in reach, and the code itself treats it as heuristic (it iterates and asserts)."),
 dict(id="G01", title="Generated meshes are valid and fit the surface geometry",
  statement="Tree meshing with any geometry yields elements with positive Jacobian everywhere, no gaps, refinement levels that differ by at most one across faces, and boundary faces that lie on the geometry.",
  over=["inputs", "histories"], qtext="Every geometry, refinement criterion and sequence of refinements.", why="Tests mesh a few shapes.",
  files=["src/Accessible_mesh.cpp", "src/Tree.cpp", "src/Simplex_geom.cpp"], mech=[("refinement and extrusion", "src/Accessible_mesh.cpp"), ("projection", "src/Surface_geom.cpp, src/Simplex_geom.cpp")],
  reason="Quantifies over real geometry and over unbounded sequences of refinements of a pointer-linked tree whose invariants are numerical (distances, intersection tests); a static analysis that proves them is out of reach. Wiring of the resulting connections is in K01, their file representation in M01."),
 dict(id="D01", title="Results do not depend on the number of threads beyond rounding",
  statement="The same case run with a different number of threads gives the same results up to the rounding of sums.",
  over=["schedules"], qtext="Every schedule and number of threads.", why="Tests run with one number of threads.",
  files=["src/Solver.cpp", "include/Spatial.hpp"], mech=[("parallel loops", "#pragma omp in src, include")],
  reason="What the source decides, absence of data races and of order-dependent shared updates, is claimed as R01; how far rounding differences of reductions grow in a nonlinear iteration is a runtime quantity."),
 dict(id="P01", title="Convergence to steady state takes a bounded number of iterations",
  statement="For attached flows the pseudo-time iteration reduces the residual by the requested factor within the configured number of iterations.",
  over=["inputs", "histories"], qtext="Every case.", why="Tests run few cases.",
  files=["src/Solver.cpp", "src/Case.cpp"], mech=[("iteration", "src/Case.cpp, src/Solver.cpp update")],
  reason="A performance property of a nonlinear iteration; nothing in the source bounds it."),
]

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in CLAIMED + NA:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
               "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in CLAIMED]
    json.dump({"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
               "notes": "Static analysis of /repo's sources; nothing of /repo is executed. check.py builds the clang-based fact extractor on demand (about 20 s), extracts every translation unit and runs rules/<id>.py."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

if __name__ == "__main__": main()
