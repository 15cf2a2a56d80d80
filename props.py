"""Source of properties.jsonl (python3 gen.py writes properties.jsonl and MANIFEST.json)."""
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
YL = "legacy/Fierro_V0/src/Yaml-Serializable/"
YS = [YL + "src/Yaml.cpp", YL + "include/Yaml.hpp", "apps/multiphysics/src/input/Yaml.cpp", "apps/multiphysics/src/input/Yaml.hpp"]

prop("Y04", "YAML tree operations behave like an ordered list / keyed map of values",
     "After any sequence of container operations on a YAML node (append, prepend, insert, erase, index and key access, scalar assignment, clear, copy and assignment between nodes, including a node and its own subtree), the tree holds exactly the values an ordinary list / sorted dictionary would hold, in order. Size, type, index access, key access and forward iteration always agree with each other, copies are independent of their source, and reading an unknown index yields a none node without changing the items of a sequence.",
     ["histories"], "all sequences of operations on a tree, applied to the root or any child",
     "The unit tests never call the mutating container interface in combination; a wrong shift or a stale index shows only for particular sequences.",
     YS, [("sequence/map node implementation and node assignment", YL + "src/Yaml.cpp: SequenceImp, MapImp, Node::operator=, CopyNode")])

prop("Y01", "YAML parsing is total: any text gives a tree or a reported error",
     "Parsing any byte sequence with any of the entry points (string, stream, buffer, file) either yields a well-formed tree or throws one of the library's exceptions; it never crashes, hangs, reads or writes outside its memory, or leaks undefined behaviour. A refused text leaves no half-built tree that cannot be read, and the outcome is a function of the text alone.",
     ["inputs"], "all texts over the grammar's significant characters and all line combinations up to a length",
     "The unit tests parse a dozen well-formed documents; parser crashes sit in malformed combinations of indentation, quotes and markers.",
     YS, [("parser", YL + "src/Yaml.cpp: ParseImp")])
prop("Y02", "YAML text in the supported subset parses to the tree it denotes",
     "Block maps, block sequences (also maps starting on the dash line), plain, quoted, literal, folded and continued scalars parse to exactly the nested values the text denotes, whatever the indentation width, blank lines, comments, trailing blanks, CRLF line ends, tabs behind colons and document markers. Every '#' or ':' inside double quotes is literal, and text before '---' or after '...' is ignored. Out of the supported subset: flow collections, anchors, '- - x', empty plain values.",
     ["inputs"], "all trees up to a depth in all layouts",
     "A unit test fixes one layout per construct; parser bugs need a construct nested in another with a particular indentation or decoration.",
     YS, [("parser", YL + "src/Yaml.cpp: ParseImp, ReaderLine, FindNotCited, ValidateQuote")])
prop("Y03", "Serializing a YAML tree and parsing the text gives the same tree",
     "For every tree of non-empty maps and sequences whose scalars the format can carry (no double quotes; keys without backslashes), writing it with any indentation, line length and newline configuration and parsing the text gives the same tree. Writing the parsed tree again gives the same text, and writing never changes the tree. Out of scope: text with doubled blanks or '#' that the line length forces to be folded, block text behind the 'scalar on a new line' option, block text starting with an apostrophe.",
     ["inputs"], "all trees up to a depth, all scalars up to a length, all configurations",
     "No unit test round-trips quoting-sensitive scalars under different configurations.",
     YS, [("serializer", YL + "src/Yaml.cpp: SerializeLoop, LineFolding, ShouldBeCited")])
prop("Y05", "YAML scalars convert to the value their text denotes",
     "Node::As<T> gives the integer, real number, boolean or text a scalar denotes, with surrounding blanks ignored for numbers. As<T>(default) returns the default exactly when the node holds no such value (no scalar, or text that does not start with a number), and reading never changes the node.",
     ["inputs"], "all integer and real spellings up to a length, all letter cases of the boolean words",
     "The tests convert a handful of values.", YS, [("string converter", YL + "include/Yaml.hpp: StringConverter")])
SS = [YL + "include/" + f for f in ("yaml-serializable.h", "yaml-serializable-containers.h", "serializable-struct.h", "serializable-enum.h", "configuration-validation.h", "yaml-post-processing.h", "type-discrimination.h")]
prop("S01", "A struct written to YAML reads back equal",
     "Writing an object of a type declared with the serialization macros and loading the text (also strictly) gives an equal object: scalars (reals as printed, six digits), enums, strings that need quoting, vectors, sets, fixed arrays, nested structs, absent optionals and null pointers, empty strings and empty lists. Writing the reloaded object gives the same text.",
     ["inputs"], "all objects over the value sets of each field", "Tests round-trip one object per container type with no empty, absent or quoting-sensitive member.",
     SS, [("to_string / from_string", YL + "include/yaml-serializable.h, yaml-serializable-containers.h")])
prop("S02", "Loading sets exactly the fields present; strict loading refuses unused ones",
     "Loading a document into a struct sets every field that is present (scalar, enum, bracket or block list, nested struct, optional, pointer) to the documented value and leaves all other fields at their previous values; unknown enum names, wrong list lengths and non-lists are refused. Strict loading additionally refuses exactly the documents with a field that no target object uses, at any nesting level. Every refusal is a ConfigurationException whose path names the offending field ('a.<1>.b'); string, file and multi-object entry points agree.",
     ["inputs"], "all documents over per-field alternatives including malformed and unknown fields at every level", "Tests try single malformed fields at top level; the path and subset logic only shows in combinations and nesting.",
     SS, [("loading", YL + "include/serializable-struct.h"), ("strict validation", YL + "include/configuration-validation.h: validate_subset")])
prop("S03", "Required fields are enforced and derive/validate hooks run once, in order",
     "A document that lacks a required field of any loaded object, at any nesting level and also in a base class, is refused, as is one whose validate hook throws. Otherwise, for each loaded object, the base's derive and validate run after the base's fields are set, then the class's own derive and validate after all its fields are set, each exactly once, an inherited hook not twice, and strict loading runs them no more often than plain loading.",
     ["inputs", "histories"], "all documents with required fields present or missing at each level and hooks failing or not", "Tests check one derive call on one struct.",
     SS, [("hooks", YL + "include/yaml-post-processing.h, serializable-struct.h")])
prop("S04", "Type-discriminated objects are built as the class their type names",
     "A type-discriminated pointer, alone or in a list, is loaded as the registered class its 'type' field names with that class's own fields, required fields and hooks (each once); a missing or unregistered type is refused with the path of the item. Writing it back and reloading gives the same classes and values. apply and try_apply run exactly the first handler whose argument type matches and report when none does.",
     ["inputs"], "all lists of typed objects up to a length, every handler order", "Tests load one list of valid objects.",
     SS, [("type discrimination", YL + "include/type-discrimination.h")])

MIC = "apps/micromechanics/"
def mic(*fs): return [MIC + a + "/src/" + f for a in ("EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT") for f in fs]
prop("M01", "Micromechanics command lines are understood alike in any option order",
     "For every argument list, the four micromechanics codes set exactly the options that were given (to their last value), keep the defaults of the others, and end with an error status and a message for an unknown option, a missing or malformed value, or a missing mandatory option; help ends the program with its help text. The order of options and their short, long or '=' spelling does not matter.",
     ["inputs"], "all argument lists up to a length over the option spellings and values",
     "No unit test calls the parsers; mistakes sit in combinations of options.", mic("command_line_args.cpp", "command_line_args.h"), [("getopt loop and validation", MIC + "EVPFFT/src/command_line_args.cpp")])
prop("M02", "XDMF descriptions of a uniform grid are complete and consistent",
     "For every grid (point counts, spacing, origin) and every list of attributes, the XDMF file written by the micromechanics codes is well-formed XML that gives the grid's dimensions, origin and spacing in the file's axis order, and lists every attribute once with its centering, type, number format, dimensions and data location. Nothing is left over from an earlier grid or attribute.",
     ["inputs"], "all small grids x attribute lists", "No unit test writes an XDMF file.", mic("XdmfUniformGridWriter.cpp", "XdmfUniformGridWriter.h"), [("writer", MIC + "EVPFFT/src/XdmfUniformGridWriter.cpp")])
prop("M03", "Tensor notations of the micromechanics codes are exact inverses",
     "Converting a symmetric tensor to the five- or six-component basis and back gives the tensor again (its deviator with five components), keeps its norm, and puts the hydrostatic part in the last component; fourth-order tensors convert consistently, so that a double contraction equals the matrix product. Voigt matrices expand to tensors with minor symmetry and collapse to the same matrix, and conversion never changes its input.",
     ["inputs"], "all symmetric tensors on a value grid, all pairs of basis matrices", "Not covered by any test.", mic("chg_basis.cpp", "voigt.cpp"), [("basis change", MIC + "EVPFFT/src/chg_basis.cpp"), ("Voigt", MIC + "EVPFFT/src/voigt.cpp")])
prop("M04", "Crystal rotations stay rotations and Euler angles denote them",
     "Euler angles give the Bunge rotation matrix, and the angles read back from any rotation matrix are finite and denote the same rotation. Incremental spins multiply the orientation by the exact rotation of the spin and keep it orthogonal with determinant one, spin after spin, there and back. Equivalent strain and stress are the von Mises values of the deviator and never change the tensor.",
     ["inputs", "histories"], "all angle triples on a grid, all sequences of spins up to a length, all tensors on a value grid", "Not covered by any test.", mic("euler.cpp", "orient.cpp", "vm.cpp"), [("angles", MIC + "EVPFFT/src/euler.cpp"), ("incremental rotation", MIC + "EVPFFT/src/orient.cpp")])
prop("M05", "Dense inverses and solves are right or report a singular matrix",
     "The inverse of every regular matrix, whatever its zero pattern and row order, times the matrix is the identity, and the linear solver's solution satisfies the system; a matrix with a vanishing row or column is reported as singular. Integer powers, minima, maxima and sums of arrays are exact up to rounding.",
     ["inputs"], "all 3x3 matrices over a value set, all 6x6 permutation patterns with a shear", "Not covered by any test.", mic("math_functions.cpp", "math_functions.h", "utilities.cpp", "utilities.h"), [("elimination", MIC + "EVPFFT/src/math_functions.h: invert_matrix"), ("solver", MIC + "EVPFFT/src/math_functions.cpp: solve_linear_system")])

MPA = "apps/multiphysics/src/"
prop("P01", "A generated mesh is exactly the grid the deck asks for",
     "For a box mesh (2D or 3D) or a 2D polar mesh, the element and node counts are the requested ones, every cell of the requested grid is exactly one element, and each element's nodes lie at the cell's vertices in the solver's node order. No two nodes coincide, every node is used, host and device copies agree, and the order of the options in the deck does not matter. A polar mesh that would reach negative radii is refused.",
     ["inputs"], "all small element counts x origins x lengths x angle ranges", "Regression decks use one mesh each; off-by-one and ordering errors need uneven element counts per direction.",
     [MPA + "common/include/mesh_io.hpp", MPA + "input/parse_mesh_inputs.cpp", MPA + "common/include/mesh_inputs.hpp"], [("mesh builder", MPA + "common/include/mesh_io.hpp: MeshBuilder")])
prop("P02", "Element volumes, areas and gradient operators are exact",
     "For every hexahedron and quadrilateral, however distorted, scaled, placed or numbered, the volume (in 2D the volume per radian about the axis) is the exact integral of the shape functions. The B matrix is the derivative of that volume (area in 2D) with respect to the node positions, so its rows add up to zero and contracted with the positions it gives the volume. Corner areas of a 2D element follow Barlow's weights and add up to its area; an inverted element gets the smallest allowed volume.",
     ["inputs"], "all elements whose nodes take one of several positions each", "A wrong sign in one of the 200 terms shows only for elements distorted at particular nodes; regression meshes start undistorted.",
     [MPA + "common/src/geometry_new.cpp", MPA + "common/include/geometry_new.hpp"], [("geometry", MPA + "common/src/geometry_new.cpp: get_bmatrix, get_vol_hex, get_vol_quad, get_bmatrix2D, get_area_weights2D")])
prop("P03", "A boundary condition applies to exactly the boundary patches on its surface",
     "For every mesh and list of boundary conditions, the patches tagged by a condition are exactly the boundary faces whose nodes all lie on its plane, cylinder or sphere within its tolerance, each once. Its node set is exactly the nodes of those patches, each once. The other conditions in the deck and their order make no difference, and surface options left out take their documented defaults.",
     ["inputs"], "all surfaces over positions, origins and tolerances on several meshes, alone and in pairs", "Regression decks tag the faces of one box.",
     [MPA + "common/src/geometry_new.cpp", MPA + "input/parse_bdy_conds_inputs.cpp", MPA + "driver.cpp"], [("tagging", MPA + "common/src/geometry_new.cpp: check_bdy, tag_bdys, build_boundry_node_sets")])
prop("P04", "Deck settings reach the simulation; others keep defaults, bad ones are refused",
     "Every option of every section of a deck sets exactly its own field of the mesh, time, output, solver, boundary, material, multi-material and region settings, of its own list item or id, to the value given; all options left out keep their documented defaults. The order of options and sections does not matter. A deck with an unknown option or word, a missing required option or section, an id out of range or used twice, a malformed vector, a wrong number of model variables, a model that does not fit the mesh dimension, or model variables without a model is refused with an error.",
     ["inputs"], "all combinations of up to a number of options per section and item with valid and invalid values",
     "Regression decks are all valid and set the same few options; a word wired to the wrong field or item shows only for that combination.",
     [MPA + "input/parse_mesh_inputs.cpp", MPA + "input/parse_dynamic_inputs.cpp", MPA + "input/parse_output_options.cpp", MPA + "input/parse_solver_inputs.cpp", MPA + "input/parse_bdy_conds_inputs.cpp", MPA + "input/parse_material_inputs.cpp", MPA + "input/parse_regions.cpp", MPA + "input/parse_tools.cpp"], [("section parsers", MPA + "input/parse_yaml.cpp: parse_yaml")])
prop("P05", "Each element and node holds what the deck's fills, applied in order, give it",
     "After initialisation each element holds exactly the materials that the fills whose volume contains its centre give it, in order: a fill of full volume fraction replaces what was there, a partial one joins it or replaces its own material, fractions are cut to 0..1, and too many materials are refused. Volume fraction, density, energy (specific, or extensive over the mass), mass, conductivity, specific heat and level set of each material point, and the maps between elements and materials, follow from that fill. Node masses are the shares of the elements around the node, and node velocities and temperatures those given by a fill of one of them; the order in which elements are processed does not matter.",
     ["inputs"], "all ordered pairs and triples of fills from tables of volumes, materials, fractions and fields on small meshes", "Regression decks use one or two fills each; wrong bins, maps or origins show only for particular overlaps and orders.",
     [MPA + "common/src/region_fill.cpp", MPA + "common/include/state.hpp", MPA + "driver.cpp"], [("fills", MPA + "common/src/region_fill.cpp: fill_regions, material_state_setup")])
SOLV = [MPA + "Solvers/SGH_solver_3D/src/", MPA + "Solvers/SGH_solver_rz/src/", MPA + "Solvers/SGTM_solver_3D/src/", MPA + "Solvers/level_set_solver/src/"]
prop("P06", "Steps, output times and solver ends follow the deck's time settings",
     "Every solver starts with dt_start, lets the step grow by at most 10 % a cycle, keeps it below the stable step of every element of every material that is not eroded (CFL fraction of the smallest node distance over the signal speed; for heat and fronts their own limits) but within dt_min and dt_max, and never steps past an output time or the end by more than a rounding; outputs are written at the start, at every multiple of graphics_time_step after it, at every graphics_iteration_step-th cycle, and at the end, also if cycle_stop ends the run; the solvers of a deck run one after the other, each from the end time of the one before to its own end time or time_final. After any number of cycles every node has moved for exactly the time the steps add up to, and every listed output exists, with its time.",
     ["inputs", "histories"], "all combinations of a few values of every time option, meshes, materials and flows, after every number of cycles up to a bound, and chains of 2-3 solvers",
     "Regression decks all run one solver to its end time from zero and look at the last state only.",
     [SOLV[0] + "sgh_execute.cpp", SOLV[0] + "time_integration.cpp", SOLV[1] + "sgh_execute_rz.cpp", SOLV[1] + "time_integration_rz.cpp", SOLV[2] + "sgtm_execute.cpp", SOLV[2] + "time_integration.cpp", SOLV[3] + "level_set_execute.cpp", SOLV[3] + "time_integration.cpp", MPA + "driver.cpp"],
     [("cycle loops", "execute of each solver"), ("step sizes", "get_timestep of each solver"), ("solver chaining", MPA + "driver.cpp: setup_solver_vars")])
SGHF = [SOLV[d] + f + s + ".cpp" for d, s in ((0, ""), (1, "_rz")) for f in ("properties", "momentum", "position")] + [SOLV[0] + "force_sgh.cpp", SOLV[0] + "energy_sgh.cpp", SOLV[0] + "sgh_execute.cpp", SOLV[0] + "sgh_setup.cpp", SOLV[1] + "force_sgh_rz.cpp", SOLV[1] + "energy_sgh_rz.cpp", SOLV[1] + "sgh_execute_rz.cpp", SOLV[1] + "sgh_setup_rz.cpp", MPA + "material_models/"]
prop("P07", "Output files hold exactly what was asked for, as the simulation had it",
     "Every graphics output holds the mesh as the simulation had it at that time and exactly the fields the deck asks for, whatever their number and order: node fields, element averages weighted by the volume fractions, and for every material that is somewhere a file of its own elements and nodes. The collections list every output once, in order, with its time, and only files that exist; the state tables and EnSight files hold the same values; outputs of one solver do not disturb those of another, files of earlier runs are cleared and other files are left alone. An output does not depend on what happens later in the run.",
     ["inputs", "histories"], "all subsets of the fields of each section in both orders x formats x output intervals x mixtures x solvers x numbers of cycles",
     "The regression scripts read two text columns of the state files; no test reads a graphics file.",
     [MPA + "common/include/mesh_io.hpp", MPA + "common/include/output_options.hpp", MPA + "input/parse_output_options.cpp"], [("writer", MPA + "common/include/mesh_io.hpp: MeshWriter"), ("options", MPA + "input/parse_output_options.cpp")])
prop("P08", "Hydrodynamic runs start consistent and conserve mass, momentum and energy",
     "After setup every material point has the density, energy, pressure and sound speed its fill and equation of state give, and corner and node masses are the shares of the materials around them. Over any number of cycles, any stage count, mesh, distortion, flow, mixture of materials, dissipation, eroded material or void, the mass of every material in every element stays the same, density times its share of the volume is that mass, the nodes weigh as much as the materials, and the sum of kinetic and internal energy stays the same to rounding; without walls the momentum of a 3D body does too.",
     ["inputs", "histories"], "all small meshes x distortions x flows x mixtures x dissipation settings x stages, several cycles each",
     "Regression runs compare end states with earlier output; an energy or mass leak shows only where materials mix, erode or touch the axis.",
     SGHF, [("compatible energy update", SOLV[0] + "energy_sgh.cpp, energy_sgh_rz.cpp"), ("corner masses", "sgh_setup.cpp, sgh_setup_rz.cpp")])
prop("P09", "Every hydrodynamic cycle computes the staggered-grid equations",
     "From any state, each cycle of the 3D and axisymmetric hydrodynamic solvers gives the node velocities and positions and the material densities, energies, pressures, sound speeds and stresses of the documented scheme: corner forces from pressure, stress and the limited multidirectional dissipation of every material weighted by its volume fractions; velocities from the forces over the (areal) masses, walls applied, energies from the work of the same forces at mid-step velocities, positions from the mid-step velocities, and new volumes; with any number of Runge-Kutta stages, in any mesh, mixture and flow.",
     ["inputs", "histories"], "all small meshes x distortions x flows (also every single moving node) x mixtures x dissipation models and coefficients x stages x cycles",
     "Regression runs use a few coefficient sets on symmetric flows; a wrong limiter, sign or weight shows only for particular flows (for instance rotation of one sense).",
     SGHF, [("cycle", SOLV[0] + "sgh_execute.cpp, sgh_execute_rz.cpp"), ("forces", SOLV[0] + "force_sgh.cpp, force_sgh_rz.cpp"), ("dissipation", MPA + "material_models/artificial_viscosity/mars.hpp")])
prop("P10", "Heat conduction advances every node by the heat that reaches it",
     "In every stage each element's temperature gradient and Fourier flux follow from its own nodes and material, and each node changes by step times the conducted, convected, radiated and deposited heat over mass times specific heat of the materials around it; no heat is lost between nodes and a uniform temperature stays. Held, convecting and radiating surfaces act on exactly the nodes of their surface, with their own variables and for their own solver only; the moving source heats the elements within its radius of the tool path at the start of the step; an element that reaches 900 is molten for good.",
     ["inputs", "histories"], "all small meshes x mixtures x distortions x temperature fields x pairs of boundary conditions x stages x cycles x chained solvers",
     "One regression deck (a cube cooling with default coefficients) compares one end state.",
     [MPA + "Solvers/SGTM_solver_3D/src/", MPA + "common/include/additive_data.hpp", MPA + "boundary_conditions/temperature/"], [("heat flux", MPA + "Solvers/SGTM_solver_3D/src/heat_flux.cpp"), ("boundaries", MPA + "Solvers/SGTM_solver_3D/src/boundary.cpp"), ("tool path", MPA + "common/include/additive_data.hpp: ToolPathInfo")])
prop("P20", "Tabulated material data is read and interpolated as written",
     "Density, conductivity and specific heat tables are read from the block of their own keyword, whatever the letter case, spacing, line ends, comments, order of the blocks and order of the requested fields, every row is kept, and the value at a temperature is that of the row at it, linear between rows, and that of the end row beyond them.",
     ["inputs"], "all file layouts x triples of tables x field orders x temperatures",
     "No test reads a table.",
     [MPA + "input/read_abaqus_files.cpp", MPA + "common/include/table.hpp", MPA + "material_models/tabular/", MPA + "Solvers/SGTM_solver_3D/src/properties.cpp"], [("reader", MPA + "input/read_abaqus_files.cpp: read_tabular_jmatpro_file"), ("interpolation", MPA + "common/include/table.hpp: linear_interpolation")])
prop("P12", "Velocity and stress boundary conditions act as their models say",
     "A velocity condition sets, in every stage, on exactly the nodes of its surface and for its own solver only, the velocity its model gives: zero, the given vector, no component along the given normal (of any length and sense), or along it the given polynomial or decaying speed between its start and end time, leaving the rest alone; conditions apply in deck order. A stress condition adds to each node of each face of its surface a quarter of stress times outward area, constant or decaying between its times, and nothing else changes.",
     ["inputs", "histories"], "all pairs of conditions from a table of models and variables on all sides of the box, one or two solvers, several cycles",
     "Regression decks use axis-aligned unit normals pointing along positive axes and one solver.",
     [MPA + "boundary_conditions/velocity/", MPA + "boundary_conditions/stress/", SOLV[0] + "boundary.cpp", SOLV[1] + "boundary_rz.cpp", MPA + "input/parse_bdy_conds_inputs.cpp"], [("velocity models", MPA + "boundary_conditions/velocity/*.hpp"), ("stress", SOLV[0] + "boundary.cpp: boundary_stress")])
prop("P13", "Strength and erosion follow their models in every cycle",
     "A material with hypo-elastic plasticity integrates twice its shear modulus times the deviatoric strain rate plus the spin terms from the stress at the start of the step, scaled back to its yield surface, and its stress drives the motion and heats the material; a material whose pressure reaches the tension limit or whose density reaches the density limit is eroded for good, exerts no more force, and leaves the other materials of its element alone. Limits and moduli are those of its own material.",
     ["inputs", "histories"], "all small meshes x mixtures x moduli and limits x equations of state x flows x stages x cycles, with and without initial stress",
     "The Taylor anvil regressions compare one end state; rotation terms, initial stress, mixtures and erosion of one of two materials are not exercised.",
     SGHF, [("strength", MPA + "material_models/strength/decoupled_plasticity.hpp"), ("erosion", MPA + "material_models/erosion/basic_erosion.hpp, properties.cpp")])
prop("P14", "A mesh file gives exactly the mesh it describes or is refused",
     "Reading an EnSight, VTK, VTU or Abaqus mesh file of hexahedra (or, but for Abaqus, of quadrilaterals in 2D) gives the nodes, scaled as the input file asks, the elements and their node order of the file, whatever the numbering, the order of the elements, the number format, the line ends and the other data in the file; a file that is cut short, contradicts itself or the number of dimensions asked for, or holds other elements is refused. A fill of a part of a VTU file paints exactly the elements with that object id.",
     ["inputs"], "all meshes x numberings x formats x layouts; every cut; kinds of inconsistency; lists of part fills",
     "Regression runs read one complete 3D file of each format.",
     [MPA + "common/include/mesh_io.hpp", MPA + "driver.cpp", MPA + "common/src/region_fill.cpp"], [("readers", MPA + "common/include/mesh_io.hpp: class MeshReader"), ("part fills", MPA + "common/src/region_fill.cpp: vtu_file volumes")])
prop("P11", "Level-set fronts move as the level-set equation says",
     "In every stage of every cycle the gradient at each node points up the level set, the field of each element of a material with a front changes by step times front speed times the upwind norm of the gradient plus the redistancing term, and that of other materials stays; walls act on exactly the nodes of their surface and for their own solver only; the motion does not depend on where the mesh lies.",
     ["inputs", "histories"], "all small 3D and 2D meshes x origins x materials x walls x front speeds x fields (also every single raised or lowered element) x distortions x stages x cycles",
     "No regression deck runs the level-set solver.",
     [MPA + "Solvers/level_set_solver/"], [("gradient and update", MPA + "Solvers/level_set_solver/src/solver_functions.cpp"), ("cycle", MPA + "Solvers/level_set_solver/src/level_set_execute.cpp"), ("walls", MPA + "Solvers/level_set_solver/src/level_set_boundary.cpp")])
prop("P15", "Relaxing mixed elements moves volume as the model says and loses nothing",
     "With Tipton equilibration asked for, in every stage the volume fractions (material, geometric, or both, each with its own parameters) of the materials that share an element change by the compressibility-weighted pressure difference over the coefficient plus the compressibility term of the divergence, all scaled by one factor so that none changes by more than the limit (cut to 0..1) times the smallest of them, and each material's energy changes by the work of the average pressure on its volume change; density, pressure and sound speed follow at once and an eroded material stays a void. The fractions of an element keep adding up to one, masses and total energy stay, and elements of one material and runs that do not ask for it are unaffected.",
     ["inputs", "histories"], "all small meshes x mixtures x fractions x energies x parameters x flows x stages x cycles",
     "No regression deck turns the relaxation on.",
     [MPA + "material_models/equilibration/", SOLV[0] + "sgh_execute.cpp", MPA + "input/parse_material_inputs.cpp"], [("relaxation", MPA + "material_models/equilibration/src/tipton_equilibration.cpp")])
prop("P16", "Bodies in contact push each other apart with the least impulse and nothing else",
     "With global contact asked for, the step of two bodies that touch, nearly touch or slightly overlap ends with the nodes of each on or outside the faces of the other; the impulses act along the face normal, only ever push, are zero where the free motion leaves a gap, and together are the least ones that achieve this, whatever the orientation and position of the bodies, the numbering of nodes and elements, the order of nodes inside an element and the number of elements that meet at the contact. Bodies that are out of each other's reach or move apart end every step bit for bit as if contact were off; total momentum of free bodies stays through any collision and bodies stay on their own sides.",
     ["inputs", "histories"], "all small pairs (and stacks of three) of bodies x offsets x gaps x motions x orientations x numberings x stages x cycles",
     "The contact decks of the regression suite run one arrangement each, and most are compared only loosely or not at all.",
     [SOLV[0] + "contact.cpp", SOLV[0] + "boundary.cpp", SOLV[0] + "momentum.cpp", MPA + "input/parse_bdy_conds_inputs.cpp"], [("contact", SOLV[0] + "contact.cpp")])
prop("P17", "Cohesive interfaces pull and fail as their law says, on their own nodes only",
     "With fracture asked for, every two boundary nodes at the same place (within 1e-8) whose elements have coincident opposite faces are joined by a traction that follows the incremental viscoelastic law of the deck: openings along and across the mean normal of the faces as they stand now, damage that grows only while the opening grows and stops at one, relaxation terms of their own, times the quarter of each face's current area, equal and opposite on the two nodes; the history advances once per cycle, at the last stage. Nothing depends on the orientation of the body, on the numbering or on the order inside elements; interfaces at rest or without the condition exert nothing, nodes farther apart are not joined, crossing and ending cracks are joined face by face, total momentum stays, and the force simply adds to those of the elements. In the turning mode every node follows the prescribed path and the tractions turn with it.",
     ["inputs", "histories"], "all cuts of small bricks x motions x laws x orientations x numberings x stages x cycles",
     "Three fracture decks run one flat interface each, in one numbering and one orientation.",
     [SOLV[0] + "fracture.cpp", SOLV[0] + "sgh_execute.cpp", MPA + "Solvers/SGH_solver_3D/include/reorientation_kinematics.hpp", MPA + "boundary_conditions/stress/fracture_stress_bc.hpp"], [("law and loads", SOLV[0] + "fracture.cpp"), ("prescribed turning", MPA + "Solvers/SGH_solver_3D/include/reorientation_kinematics.hpp")])
prop("P18", "Results do not depend on how parallel loops are scheduled",
     "In every parallel loop of the multiphysics application, no two iterations touch the same element of an array or a global variable when one of them changes it, unless both do so atomically; so whatever order or grouping of iterations and partial sums the runtime chooses, reading meshes, filling regions, tagging boundaries, every solver, material model, contact, fracture and output end in the same outcome and the same state up to rounding.",
     ["schedules", "inputs"], "all scenarios of the other properties with few choices off their defaults; every access of every loop watched, three further schedules of each",
     "Regression runs are serial or compare with a tolerance; a race shows only under particular schedules and shared nodes.",
     [MPA], [("parallel loops", MPA + "**: FOR_ALL, FOR_REDUCE_SUM/MIN/MAX, RUN"), ("initial node fields", MPA + "common/src/region_fill.cpp: fill_regions")])
prop("P19", "Host and device copies of the data never drift apart",
     "Whether arrays have one copy or separate host and device copies that change hands only by explicit updates, reading meshes, filling regions, tagging boundaries, every solver, material model, contact, fracture and output of the multiphysics application end in the same outcome, the same state and the same output files; no code works on a copy that is out of date.",
     ["inputs", "histories"], "all scenarios of the other properties with few choices off their defaults, each run with one copy of every dual array and with two",
     "Regression runs on a CPU share one copy of every array; a forgotten update shows only on a GPU.",
     [MPA], [("state setup", MPA + "common/src/region_fill.cpp: material_state_setup"), ("output", MPA + "common/include/mesh_io.hpp: MeshWriter"), ("solvers", MPA + "Solvers/")])
MB = "legacy/Fierro_V0/src/Mesh-Builder/"
prop("B01", "The mesh builder builds exactly the box or cylinder asked for",
     "From every box or cylinder request in two or three dimensions (lengths, element counts, origin, element order, inner radius, start and angular length, closed rings included) the mesh builder makes a mesh whose elements, their points in i, j, k order and the positions of these points are those of the regular grid the request denotes, each point once, and with the element type of its order; requests with numbers that do not fit together, angles beyond a full turn, missing or unknown entries are refused.",
     ["inputs"], "all small boxes and cylinders over element counts, orders, lengths, origins, radii and angles; all combinations of list lengths; options in both orders",
     "The tests build three meshes and look at element counts only.",
     [MB + "src/MeshBuilder.cpp", MB + "include/MeshBuilderInput.h"], [("points and elements", MB + "src/MeshBuilder.cpp: build_rectilinear, cylinder_transform"), ("request", MB + "include/MeshBuilderInput.h: derive, validate")])
prop("B02", "Mesh builder files hold the mesh and read back equal",
     "Every VTK or EnSight file the mesh builder writes, to the place and under the name asked for, holds the points, elements in the point order of its format and cell types of the mesh; reading a VTK file back gives the same mesh (dimension, order, points to the printed digits, elements), whatever was written or read before in the same process; a file cut short or lacking a line of the mesh is refused, and so is a high order mesh for EnSight.",
     ["inputs", "histories"], "meshes of both shapes, dimensions and orders 1-4; all sequences of three of ten kinds of meshes in one process; three outputs x names; every line of a file dropped or cut",
     "The tests write and read one linear hexahedron.",
     [MB + "src/VtkIO.cpp", MB + "src/EnsightIO.cpp", MB + "include/VtkIO.h", MB + "include/MeshIO.h"], [("VTK", MB + "src/VtkIO.cpp: write_vtk, read_vtk"), ("point order", MB + "include/VtkIO.h: ijk_to_lagrange"), ("EnSight", MB + "src/EnsightIO.cpp: write_ensight")])
EV = MIC + "EVPFFT/src/"
prop("E01", "Crystal-plasticity steps end in equilibrium under the imposed loading",
     "Every step of the small-strain FFT crystal-plasticity code ends with stress and strain fields that satisfy Hooke's law of each voxel's phase and orientation with the plastic and thermal strains taken off, with stresses that are symmetric, in equilibrium and zero in voids, and displacement gradients that are compatible, whatever the grid, spacing, phases, crystals and texture; the averages satisfy every imposed velocity-gradient component and every imposed stress, and the reported averages, phase averages and von Mises measures are those of the fields",
     ["inputs", "histories"], "all small grids x phases and crystals x textures x loadings x exponents, spacings, step sizes and options, three steps each",
     "No test runs this code; example problems are compared by eye.",
     [EV + f for f in ("evpal.cpp", "get_smacro.cpp", "inverse_the_greens.cpp", "forward_backward_fft.cpp", "initialize_disgrad.cpp", "step.cpp", "data_crystal_elast.cpp", "data_grain.cpp", "vpsc_input.cpp")], [("equilibrium and loading", EV + "get_smacro.cpp"), ("constitutive update", EV + "evpal.cpp"), ("spectral solution", EV + "inverse_the_greens.cpp")])
prop("E02", "Crystal slip, hardening and lattice rotation follow their laws",
     "In every step of the small-strain FFT crystal-plasticity code each active slip system of each voxel slips by the power law of its resolved stress, its strength of that direction and its back stress; plastic strain, accumulated slip, Voce strengths with self and latent hardening and the lattice rotation (imposed and local spin less plastic spin) are the exact consequences of these rates, hardening and rotation only when asked for, back stresses only from a thermal step, nothing of it in voids; voxels keep their phase and grain and the voxel sizes follow the macroscopic strain rate",
     ["inputs", "histories"], "all small grids x phases and crystals x textures x loadings x exponents, spacings, step sizes and options, three steps each",
     "No test runs this code; example problems are compared by eye.",
     [EV + f for f in ("evpal.cpp", "harden.cpp", "update_orient.cpp", "update_schmid.cpp", "kinhard_param.cpp", "data_crystal.cpp", "data_grain.cpp", "step.cpp", "orient.cpp")], [("slip", EV + "evpal.cpp"), ("hardening", EV + "harden.cpp"), ("lattice rotation", EV + "update_orient.cpp"), ("crystals", EV + "data_crystal.cpp")])
prop("E03", "Crystal-plasticity results do not depend on ranks, place or axes",
     "The small-strain FFT crystal-plasticity code gives the same fields, averages and output tables on one rank and on several; for a microstructure moved periodically it gives the moved fields, for one repeated along an axis the repeated fields, and for microstructure, spacing and loading with permuted axes the fields permuted and rotated alike",
     ["inputs", "schedules"], "all small grids x phases x textures x loadings x options, on up to all numbers of ranks that the grid allows, at every periodic displacement, doubled along every axis, under all permutations of the axes",
     "No test runs this code; rank counts and axes are never compared.",
     [EV + f for f in ("step.cpp", "evpal.cpp", "get_smacro.cpp", "inverse_the_greens.cpp", "forward_backward_fft.cpp", "data_grain.cpp", "evpfft.cpp")], [("decomposition", EV + "evpfft.cpp: set_some_voxels_arrays_to_zero, constructor"), ("reductions", EV + "step.cpp"), ("spectral solution", EV + "inverse_the_greens.cpp")])
prop("E04", "Crystal-plasticity inputs are understood, outputs hold the state",
     "The small-strain FFT crystal-plasticity code reads the same problem from the text, HDF5 and VTK formats (degrees or radians, with or without comments) alike on any number of ranks; it accepts exactly the loadings that give each of the six components of strain rate or stress once and exactly the slip systems whose direction lies in their plane, and refuses others with a message; its tables, texture file and VTK files hold for the asked steps every voxel once with its place in the deformed RVE, phase, grain, strains, stresses, equivalent values and inverse pole figure colour",
     ["inputs", "histories"], "all small problems x formats x ranks; all 32768 combinations of imposed gradients and stresses; all slip planes and directions over {-1,0,1}; outputs of all small problems x ranks x output intervals parsed in full",
     "No test runs this code; output files are looked at by eye.",
     [EV + f for f in ("vpsc_input.cpp", "data_crystal.cpp", "data_grain.cpp", "write_micro_state.cpp", "write_macro_state.cpp", "write_texture.cpp")], [("boundary conditions", EV + "vpsc_input.cpp"), ("slip systems", EV + "data_crystal.cpp"), ("output", EV + "write_micro_state.cpp, write_macro_state.cpp, write_texture.cpp")])
