"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
S = "solidspy/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": [S + f for f in files],
                  "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                  "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                  "observe_at": observe, "hook_needed": None}})

prop("C01", "Quadrature rules integrate exactly up to their advertised degree",
 "Every integration rule offered (n-point Gauss-Legendre for n = 2..10 on the interval and its tensor products on hypercubes, triangle rules of order 1..7, tetrahedron rules of order 1..10) integrates every polynomial up to its advertised degree (2n-1 per direction, or the order) exactly to table precision, with one weight per point and all points inside the domain. A request outside the offered range is refused with a ValueError, never answered with some other rule.",
 ["inputs", "configurations"], "every rule and dimension, every polynomial of the advertised degree, every out-of-range order",
 "the tests integrate a few chosen polynomials with a few rules; most tabulated digits are never touched",
 ["gaussutil.py"], [("point/weight tables", "gaussutil.gauss_1d/gauss_tri/gauss_tet"), ("tensor product", "gaussutil.gauss_nd")],
 ["points and weights returned for each rule"])
prop("C02", "Shape functions are the nodal interpolation basis and match their derivatives",
 "For each element family (3- and 6-node triangle, 4-, 8- and 9-node quadrilateral, 4-node tetrahedron, 8-node hexahedron) and at every evaluation point, the shape functions are one at their own node and zero at the others, sum to one, and reproduce every polynomial of the family's complete degree. The derivatives returned with them are the derivatives of those same functions, at every point.",
 ["inputs"], "every element family, every point (vertices, edges, interior, outside), integer or float arguments",
 "tests evaluate the functions at nodes and the derivatives at one or two points only; an error vanishing there is invisible",
 ["femutil.py"], [("closed-form polynomials", "femutil.shape_*")], ["(N, dNdr) returned at each point"])
prop("C03", "Strain-displacement matrices give the true strain of the interpolated field",
 "For every admissible element geometry (plane, axisymmetric, three-dimensional) and every point, the interpolation matrix applied to nodal displacements gives the interpolated displacement and the strain matrix gives its exact strain in the documented component order with engineering shear (and hoop strain u/r when axisymmetric), with the returned determinant being that of the geometric map. In particular every rigid motion has zero strain and every linear field its constant strain, however distorted, small, large or far from the origin the element is; a negative radius is refused.",
 ["inputs"], "all elements, geometries, points, displacement fields, user-supplied shape functions",
 "tests call the strain matrices only indirectly, on a unit square or a reference triangle",
 ["femutil.py"], [("B, H assembly", "femutil.elast_diff_2d/axi/3d"), ("Jacobian", "femutil.jacoper")], ["(H, B, det)"])
prop("C04", "Inverted or degenerate elements are rejected, valid ones accepted at any scale",
 "An element that is turned inside out or collapsed (non-positive Jacobian at an integration point) is refused with a ValueError by every route that uses its geometry, wherever it sits in the mesh, instead of contributing silently to the result. A well-oriented element is accepted and processed whatever length unit, position or orientation its coordinates have.",
 ["inputs", "configurations"], "all 2D, axisymmetric and 3D elements, any scale, any position of the bad element in the mesh",
 "one test feeds one degenerate Jacobian; no test varies scale, family or position",
 ["femutil.py", "uelutil.py", "assemutil.py"], [("degeneracy and orientation test", "femutil.jacoper")], ["exceptions raised by element, assembly and strain routines"])
prop("C05", "Constitutive matrices are restrictions of one isotropic elastic law",
 "For all admissible Young modulus and Poisson ratio, the plane-stress, plane-with-out-of-plane-stress, axisymmetric and three-dimensional constitutive matrices describe the same isotropic Hooke material: their entries equal those of the general law under the corresponding restriction, the plane-stress one being its condensation to zero normal stress. They are symmetric, positive definite, proportional to the modulus and invariant under rotation of the axes.",
 ["inputs"], "all E > 0 over many decades and -1 < nu < 0.5, any container type",
 "one doctest checks plane stress for one material; the other three matrices have no test",
 ["femutil.py"], [("constitutive matrices", "femutil.umat/elast_mat_2d/elast_mat_axi/elast_mat")], ["matrix returned"])
prop("C06", "Element stiffness: symmetric, semidefinite, exactly the rigid motions free",
 "For every continuum element with admissible geometry and material, the stiffness matrix is symmetric and positive semidefinite, and the displacements that cost no energy are exactly the rigid motions (3 in the plane, 6 in space, axial translation when axisymmetric): no spurious modes and no missing ones. It is frame indifferent (rotating or translating the element only rotates the matrix), covariant under admissible renumbering of its nodes, proportional to Young's modulus and scales with size as the dimension requires.",
 ["inputs"], "all continuum families, distorted and curved geometries, all materials, rotations, translations, scales, node renumberings",
 "tests compare one element of four families in one canonical position with stored numbers",
 ["uelutil.py", "femutil.py", "gaussutil.py"], [("numerical integration of B^T C B", "uelutil.elast_*")], ["stiffness returned by each element routine"])
prop("C07", "Element stiffness equals the weak form of elasticity",
 "For every continuum element the stiffness matrix equals the integral of the elastic energy bilinear form over the element (plane stress of unit thickness in 2D, full revolution when axisymmetric, volume in 3D): exactly whenever the geometry map is affine, and to the element's full integration rule on distorted geometries. Consequently the nodal forces for any linear displacement field are the exact consistent forces of its constant stress on every geometry.",
 ["inputs"], "all continuum families, geometries, materials, parameter containers, integer coordinates",
 "tests store four matrices for canonical shapes; the 8/9-node, axisymmetric and 3D elements are never compared with anything",
 ["uelutil.py", "femutil.py", "gaussutil.py"], [("numerical integration", "uelutil.elast_*")], ["stiffness returned by each element routine"])
prop("C08", "Consistent mass matrices carry the right mass, inertia and density",
 "For every continuum element the mass matrix is the consistent one: symmetric, positive definite, equal to the integral of density times products of shape functions, so that the kinetic energy of every rigid translation is half the element's true mass times speed squared. It is proportional to the density, which is one when an optional density is not given, and does not depend on the elastic constants.",
 ["inputs"], "all continuum families, geometries, densities given or omitted, rotations and scales",
 "only the mass of the unit 4-node square is tested",
 ["uelutil.py"], [("integration of N^T N", "uelutil.elast_*")], ["mass returned by each element routine"])
prop("C09", "Springs and trusses act along their axis only, in any orientation",
 "For every placement of its two nodes, a spring or truss resists only elongation along its axis: the force on each end is the stiffness (k, or EA/L) times the projected elongation, along the axis, equal and opposite, so rigid motions and transverse displacements cost nothing. Reversing the ends or rotating the member changes only the frame; the truss mass is the consistent one (total rho A L in each direction, default density one), the spring's is zero, and a spring reads only the first entry of its material profile.",
 ["inputs"], "all end positions (any quadrant, tiny and huge lengths), parameters, containers",
 "each element is tested once, horizontal and of unit length",
 ["uelutil.py"], [("axis projection", "uelutil.spring/truss2D")], ["(stiffness, mass)"])
prop("C10", "Beam elements are exact Euler-Bernoulli members in any orientation",
 "For every orientation and length, the beam elements (with and without axial stiffness) have the exact stiffness of an Euler-Bernoulli member: rigid translations and the rigid rotation cost no energy, end forces and moments are in equilibrium, and rotating the member only rotates the matrices. Their mass is the consistent one of Hermite (and linear axial) interpolation with total mass rho A L, the optional area and density taking their documented defaults, for tuples, lists and arrays alike.",
 ["inputs"], "all orientations, lengths, parameter lists and containers for both beam elements",
 "tests use horizontal beams and one vertical one for the transverse part",
 ["uelutil.py"], [("local matrices and rotation", "uelutil.beam2DU/beam2D")], ["(stiffness, mass)"])
prop("C11", "Equation numbering is a bijection with the free degrees of freedom",
 "For every set of constraints, the free degrees of freedom and only they receive distinct equation numbers 0..neq-1, with neq their count, and constrained ones are marked -1, whatever the mixture, the number of degrees of freedom per node, and whether a node belongs to any element. The element-to-equation table lists, for every element, the numbers of its own nodes in connectivity and direction order; the element catalogue gives each type its node and freedom count and refuses unknown types with ValueError.",
 ["inputs", "configurations"], "all constraint patterns, 1-3 dof per node, all built-in and user element types, all connectivities",
 "tests use one hand-written mesh of nine nodes",
 ["assemutil.py", "femutil.py"], [("numbering loop", "assemutil.eqcounter"), ("gather", "assemutil.DME"), ("catalogue", "femutil.eletype")],
 ["neq, boundary-condition array, assembly operator"], [("bc_array", "equation number per node and direction", "assemutil.eqcounter")])
prop("C12", "Global matrices are the scatter-sum of element matrices, dense and sparse alike",
 "For every model, each entry of the global stiffness and mass matrices is the sum over elements of that element's local entries for the two equations, with each element computed from its own coordinates and its own material profile; constrained degrees of freedom contribute nothing and nothing else is present. Dense and sparse assembly give the same matrices, for built-in and user-supplied elements, independent of element order, unused materials and extra columns in the node table.",
 ["inputs", "configurations"], "all meshes, element types, materials, constraint patterns, storage schemes, user elements, container dtypes",
 "tests assemble one four-element mesh with one material",
 ["assemutil.py"], [("scatter loops", "assemutil.dense_assem/sparse_assem"), ("element retrieval", "assemutil.retriever")],
 ["global matrices", "arguments seen by a user element"])
prop("C13", "The load vector holds exactly the loads on free degrees of freedom",
 "For every load table, each entry of the right-hand side is the sum of all loads given for that node and direction (repeated rows add up, in any order), loads on constrained directions are dropped, and all other entries are zero. The vector is linear in the loads and no load is lost or duplicated, for one, two or three degrees of freedom per node, including empty tables.",
 ["inputs"], "all load tables (repeated nodes, zero, constrained, empty, int or float) and constraint patterns",
 "tests apply distinct loads on one mesh",
 ["assemutil.py"], [("accumulation", "assemutil.loadasem")], ["right-hand side"])
prop("C14", "The static solver solves the system it is given",
 "For every non-singular system, real or complex, stored dense or as compressed sparse rows, the returned vector satisfies the equations to backward-stable accuracy, whatever the scaling, ordering, symmetry or sparsity pattern, and both storage schemes agree. Other matrix types are refused with TypeError.",
 ["inputs", "configurations"], "systems of any size, structure, scaling, dtype",
 "one test solves one system",
 ["solutil.py"], [("dispatch to LAPACK/SuperLU", "solutil.static_sol")], ["solution returned"])
prop("C15", "Complete displacements put each solved value at its own node and direction",
 "For every numbering of the equations, the completed displacement table has the solved value of equation k at exactly the node and direction that own k, and zero at every constrained one, for any number of degrees of freedom per node. Gathering the free entries back returns the solution vector unchanged.",
 ["inputs"], "all boundary-condition arrays (any numbering order), 1-3 dof per node, any solution",
 "only seen implicitly on tests' small meshes",
 ["postprocesor.py"], [("scatter", "postprocesor.complete_disp")], ["completed displacement table"])
prop("C16", "Patch test: constant-stress states are solved exactly on any mesh",
 "For every mesh of any continuum element type, however irregular, distorted, curved or numbered, a model loaded by the consistent nodal forces of a uniform stress and supported just enough to prevent rigid motion returns exactly the corresponding linear displacement field, up to round-off. The same holds for the 8-node quadrilateral, axisymmetric and 3D elements used as user elements.",
 ["inputs", "configurations"], "all meshes, uniform stress states, statically determinate supports, materials, unit scales",
 "tests compare two regular meshes with stored displacements",
 ["assemutil.py", "uelutil.py", "femutil.py", "solutil.py", "postprocesor.py"], [("whole pipeline", "assemutil, solutil, postprocesor.complete_disp")], ["completed displacements"])
prop("C17", "Solutions are in equilibrium, linear, reciprocal and energy-consistent",
 "For every stable model, the nodal forces recovered from the computed displacements equal the applied loads at free directions, and the support reactions balance the applied forces and moments globally. Responses superpose and scale linearly, satisfy reciprocity (work of one load set on the other's displacements is symmetric), are deterministic, and the reported potential energy is minus half the work of the loads and never positive.",
 ["inputs"], "all stable models (2D continuum, truss, frame), all load pairs and factors",
 "tests look at stored displacement values for a couple of load cases",
 ["assemutil.py", "solutil.py", "postprocesor.py", "solids_GUI.py"], [("pipeline", "solids_GUI.solids_auto"), ("energy", "postprocesor.energy")], ["displacements", "energy value"])
prop("C18", "Results do not depend on how the model is described",
 "Renumbering nodes, adding nodes nothing uses, reordering elements or materials, rotating an element's node list admissibly, splitting or permuting loads, translating the model, rotating or reflecting it with its loads, or changing units of length and force transforms the displacement, strain and stress results exactly accordingly. None of these re-descriptions changes the physical answer.",
 ["inputs", "configurations"], "all models and all the listed transformations, composed",
 "no test solves the same problem twice",
 ["assemutil.py", "postprocesor.py", "solids_GUI.py"], [("pipeline", "solids_GUI.solids_auto")], ["displacements, nodal strains and stresses"])
prop("C19", "Trusses, springs and frames match exact structural mechanics",
 "For every stable two-dimensional truss, spring network or frame, the displacements equal those of classical matrix structural analysis; the reported axial stress of each truss member is its Young modulus times its elongation over its length (positive in tension), and member forces equilibrate every free joint. Beam results at existing nodes do not change when a member is subdivided.",
 ["inputs", "configurations"], "all stable trusses, spring networks and frames, member orientations, areas, load and support patterns",
 "tests hold a handful of textbook trusses with unit properties and horizontal/vertical beams",
 ["uelutil.py", "assemutil.py", "postprocesor.py", "solids_GUI.py"], [("member stress", "postprocesor.stress_truss"), ("member matrices", "uelutil.truss2D/beam2D/beam2DU/spring")], ["displacements", "member stresses"])
prop("C20", "Recovered nodal strains and stresses belong to the right place and material",
 "For every mesh of 3- or 6-node triangles or 4-node (or 9-node) quadrilaterals and every displacement field, the reported strain at a node is the average, over the elements sharing it, of that element's own strain at its integration point nearest that node, so a linear field gives its exact strain everywhere; integration-point locations are reported correctly. The reported stress averages each element's plane-stress law with its own material applied to those same strains, with engineering shear.",
 ["inputs"], "all meshes (distorted, mixed materials, material tables with or without density), all displacement fields",
 "the only test checks one uniform strain state on one mesh",
 ["postprocesor.py", "femutil.py"], [("element strains", "femutil.str_el3/str_el4/str_el6"), ("averaging", "postprocesor.strain_nodes")], ["nodal strains and stresses, integration-point positions"])
prop("C21", "Principal values and directions are the spectral decomposition of the tensor",
 "For every symmetric plane tensor, the two principal values and unit orthogonal directions returned satisfy the eigenvalue equations, reconstruct the tensor, and are ordered by decreasing magnitude, regardless of the tensor's magnitude or how close it is to diagonal or isotropic (within the tolerance given or the default one); the zero tensor gives zero values. For tensor fields this holds row by row, independently of the other rows.",
 ["inputs"], "all symmetric 2x2 tensors over many decades, fields of any length",
 "one doctest decomposes one matrix",
 ["postprocesor.py"], [("closed-form eigenpairs", "postprocesor.eigvals"), ("row loop", "postprocesor.principal_dirs")], ["eigenpairs"])
prop("C22", "All workflows give the same answer for the same model",
 "The same model solved through the data dictionary, through input files in a folder, or by calling the pre-processing, assembly, solution and post-processing steps one by one gives the same displacements, strains and stresses. Asking for plots, strains or dense storage never changes the displacements, and the reported numbers of nodes, elements and equations are the model's. The program started from a terminal (python -m solidspy) does the same work and shows its plots.",
 ["inputs", "configurations"], "all models accepted by each workflow, all option combinations",
 "no test runs the file workflow or the strain and plotting options",
 ["solids_GUI.py", "__main__.py", "preprocesor.py", "assemutil.py", "postprocesor.py"], [("drivers", "solids_GUI.solids_GUI/solids_auto"), ("program", "__main__")], ["return values and printed summary"])
prop("C23", "A solution that violates equilibrium is announced, a valid one is not",
 "Whenever the displacements a workflow returns do not balance the applied loads (mechanisms, missing supports, a failed or corrupted linear solve), it prints its not-in-equilibrium warning or raises, for any units of stiffness and load. When they do balance the loads to solver accuracy, no such warning is printed.",
 ["inputs", "fault_sequences"], "all models stable or not, all unit scales, injected solver faults of any size and location",
 "no test triggers or looks for the warning",
 ["solids_GUI.py"], [("residual test", "solids_GUI.solids_GUI/solids_auto")], ["standard output, exceptions, residual recomputed from returned displacements"])
prop("C24", "The rectangular grid generator tiles the rectangle exactly",
 "For all lengths, heights and numbers of divisions, the generated grid has (nx+1)(ny+1) distinct nodes evenly spaced over the centred rectangle and nx*ny four-node elements numbered consecutively, each counter-clockwise over its own cell, together covering the rectangle exactly once. Every node is used, neighbouring elements share their two edge nodes, and the mesh is directly accepted by assembly.",
 ["inputs"], "all lengths, heights (any scale) and division counts, including 1, odd, even and unequal ones",
 "tests check two square grids",
 ["preprocesor.py"], [("index arithmetic", "preprocesor.rect_grid")], ["x, y, element table"])
prop("C25", "Mesh import keeps every element, constraint and load of each physical group",
 "For every imported mesh, the element table of a physical group contains exactly the cells tagged with it, once, in order, with the requested type, material and consecutive ids that continue over several groups; the node table keeps every point in order. Constraints and loads given on a physical line reach exactly the nodes of its segments, the total load being exactly the one requested, and the shipped template script yields input files that describe its mesh.",
 ["inputs", "histories"], "all meshes, tags, element kinds and call sequences",
 "no test calls the import helpers",
 ["preprocesor.py"], [("extraction helpers", "preprocesor.ele_writer/node_writer/boundary_conditions/loading"), ("template", "docs/tutorials/template_input.py")], ["element, node and load tables; files written"])
prop("C26", "Bloch reduction numbers and phases tie image freedoms to their references",
 "For every periodic pairing of image and reference freedoms, the new numbering gives independent freedoms distinct consecutive numbers and each image the number of its reference. The transformation matrix maps every reduced vector to a full one in which independent freedoms keep their value and each image equals its reference times exp(i k.(x_image - x_reference)), with one column per independent freedom.",
 ["inputs"], "all pairings (any order, corners referring to one node), dof per node, wavevectors, dimensions",
 "two doctests and one test with images numbered after their references",
 ["blochutil.py"], [("renumbering", "blochutil.reassign_dof_bloch"), ("transformation", "blochutil.bloch_transform_mat")], ["new numbering, transformation matrix"])
prop("C27", "Bloch-reduced problems reproduce wave physics of the periodic medium",
 "The reduced stiffness and mass matrices of every periodic cell are Hermitian and semidefinite, and the resulting frequencies are even and periodic over the reciprocal lattice, vanish for rigid translation at zero wavevector, and contain the modes of the corresponding finite periodic ring. They do not depend on which cell represents the medium: a supercell gives exactly the folded frequencies, and one-dimensional chains their closed-form dispersion.",
 ["inputs"], "all periodic cells (chains, frames, 2D continua), wavevectors, supercell sizes",
 "the tests check only the entries of two transformation matrices",
 ["blochutil.py", "assemutil.py", "uelutil.py"], [("transformation", "blochutil.bloch_transform_mat"), ("assembly", "assemutil.assembler")], ["eigenvalues of the reduced pencil"])
prop("C28", "Plots show the computed field on exactly the mesh",
 "For every continuum mesh the plotting triangulation covers exactly the mesh: same nodes, each element's area covered once without overlap or gaps, using all of its nodes, so curves drawn through it honour the computed nodal values. The requested figures are produced, one per field component, with the given titles and each saved in its own file, for every plotting option, leaving figures that were open alone; trusses are drawn with every member visible, and structural models are reported without failing.",
 ["inputs", "configurations"], "all meshes of types 1-4, fields with any number of components, contour or colour plots, saving or not",
 "no test calls any plotting routine",
 ["postprocesor.py"], [("triangulation", "postprocesor.mesh2tri"), ("plots", "postprocesor.fields_plot/tri_plot/plot_node_field/plot_truss")], ["triangulation, figures open, artists' data, files saved"])
prop("C29", "Calls do not alter their inputs, share state or depend on history",
 "No analysis call changes the arrays, dictionaries or lists it is given (except where documented as modified), and what it returns is not tied to its inputs or to what other calls return: modifying a result affects nothing else, and no call leaves process-wide settings changed. Every result is a function of the arguments only: repeating it, interleaving it with any other calls, or running it concurrently in several threads or in a fresh process gives the same answer.",
 ["histories", "schedules", "inputs"], "all call sequences and interleavings of the public functions, several threads",
 "tests call each function once on fresh data and never look at the inputs again",
 ["assemutil.py", "femutil.py", "gaussutil.py", "uelutil.py", "solutil.py", "postprocesor.py", "preprocesor.py", "blochutil.py", "solids_GUI.py"], [("pure functions, fresh arrays", "whole package")], ["argument snapshots before and after, results over histories"])
prop("C30", "Vibration results are physical: rigid modes, upper bounds, unit laws",
 "For every model the generalized eigenvalues of stiffness and mass are real and non-negative, with exactly as many zero ones as the model has rigid motions and none when it is held. Frequencies are upper bounds decreasing under nested refinement or relaxation of supports, converge to closed-form bar, beam and plate values, and follow the scaling laws of modulus, density and size.",
 ["inputs", "configurations"], "all models of continuum, truss and frame elements, supports, refinements, materials",
 "two tests compare eigenvalues of one beam and one truss with stored numbers",
 ["uelutil.py", "assemutil.py"], [("stiffness and mass assembly", "assemutil.assembler")], ["eigenvalues of the assembled pencil"])
prop("C31", "Refining or enriching a mesh can only lower the energy, and converges",
 "For a fixed problem, nested refinement or replacing elements by higher-order ones containing them never raises the potential energy (the structure never gets stiffer), as does removing a support; adding one never lowers it. The results converge to the exact solution of elasticity (cantilever, thick-walled and axial problems) at the rate the element order promises.",
 ["inputs", "configurations"], "all nested mesh families, element types, loads, supports",
 "no test solves a problem on two meshes",
 ["uelutil.py", "assemutil.py", "solutil.py", "postprocesor.py"], [("pipeline", "assemutil, solutil"), ("energy", "postprocesor.energy")], ["energies and displacements over refinement sequences"])
prop("C32", "Model files are read back as written, from any folder",
 "For every model written as the documented text files (nodes, materials, elements, loads), reading the folder returns exactly those tables with their shapes, including single-row tables, comments and any spelling of the folder path (text or path object), and elements as integers. Echo files are written in the given folder, reproduce the tables to their printed precision, and the input files are left untouched; the folder may come from the dialog or, when that is unavailable, from the prompt.",
 ["inputs", "configurations"], "all tables (any size, magnitude, format), folder spellings, dialog availability",
 "no test reads or writes a file",
 ["preprocesor.py", "solids_GUI.py"], [("text input/output", "preprocesor.readin/echomod/initial_params")], ["arrays returned, files on disk before and after"])
prop("C33", "Work and memory of an analysis grow in proportion to the model",
 "For every kind of model, the memory held and the work done by numbering, sparse assembly, loading, solution set-up, completion, recovery, triangulation, file input and output, grid generation, mesh import and Bloch reduction grow in proportion to the numbers of elements and nodes, never to their square, and nothing stays behind once results are dropped. Sparse assembly returns compressed sparse rows holding no more entries than the element matrices have, and no step of a sparse workflow builds a full matrix of all equations, so models far too large for dense storage can be solved.",
 ["inputs"], "every part of the interface on growing models of every element family",
 "tests use models of a handful of nodes, where a full matrix or a quadratic loop costs nothing",
 ["assemutil.py", "solutil.py", "postprocesor.py", "preprocesor.py", "blochutil.py", "solids_GUI.py"],
 [("coordinate-list assembly to CSR", "assemutil.sparse_assem"), ("sparse solution", "solutil.static_sol")], ["peak of traced allocations, executed lines, storage of the matrices"])
prop("C34", "Failures are reported and leave inputs, files and later calls as they were",
 "A call that cannot do its work raises: unreadable or malformed input files, targets that cannot be written, and elements or loads referring to nodes or materials beyond the tables are never answered with a result, and an interrupt reaches the caller as an interrupt. Whenever a call fails or is cut short, at any point of its execution, its arguments and the input files are as they were, no other files appear or stay open, process-wide settings are unchanged, and the same and all other calls afterwards give the answers they would have given.",
 ["inputs", "crash_points", "fault_sequences", "histories"], "every call of the interface, every executed line as the point of failure, every kind of damage to files and tables",
 "no test lets a call fail half-way or feeds damaged files",
 ["preprocesor.py", "solids_GUI.py", "assemutil.py", "postprocesor.py", "femutil.py", "solutil.py"],
 [("file access", "preprocesor.readin/echomod/initial_params"), ("type look-up", "femutil.eletype, assemutil.ele_fun"), ("figures saved", "postprocesor.plot_node_field")],
 ["exceptions, arguments, files and process state after the failure; later results"])
prop("C35", "The same numbers give the same results whatever holds them",
 "Results depend on the values of the arguments and not on how they are held: whole-number coordinates, materials, loads, displacements and points typed as integers, arrays in any memory order, stride, byte order or alignment, read-only or memory-mapped buffers, views into wider tables, small and unsigned integer tables, and numpy or plain Python scalars all give the results of plain float and integer arrays. No digits are lost because an argument is held as whole numbers, through every function and through whole analyses.",
 ["inputs", "configurations"], "every function of the interface, all admissible representations of its arguments",
 "tests pass freshly built float arrays, so a buffer that inherits an integer type or relies on a memory layout is never seen",
 ["femutil.py", "uelutil.py", "assemutil.py", "postprocesor.py", "preprocesor.py", "blochutil.py", "solids_GUI.py"],
 [("work arrays", "every function that allocates a result"), ("indexing with table entries", "assemutil.DME/retriever, postprocesor.strain_nodes/mesh2tri")],
 ["results of the same call on differently held arguments"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
