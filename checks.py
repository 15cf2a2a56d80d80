"""Registry of checks: property id -> how to build and run its harnesses, and what goes in the manifest."""
ASAN = "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -w"
REL = "-std=c++17 -O2 -w"
LEG = "{REPO}/legacy/Fierro_V0/src/Yaml-Serializable"
APP = "{REPO}/apps/multiphysics/src/input"
TECH = "stateless explicit-state model checking of the real code"
NOTE = "Exhaustive within the stated bounds: every choice sequence is executed on the code compiled from /repo and compared, step by step, with a reference model; beyond the bounds nothing is claimed. Trusted: the reference model, the explorer (mc/mc.hpp), the compiler."
NOT_APPLICABLE = {}
CHECKS = {}
def yaml_both(name, src, flags=REL, copies=("legacy", "apps"), **kw):
    r = []
    for c in copies:
        inc, cpp = (LEG + "/include", LEG + "/src/Yaml.cpp") if c == "legacy" else (APP, APP + "/Yaml.cpp")
        r.append(dict(name=name + "_" + c, sources=["{HERE}/harness/yaml/" + src, cpp], flags=flags + " -I{HERE}/mc -I{HERE}/harness/yaml -I" + inc, link="-fsanitize=address,undefined" if "fsanitize" in flags else "", **kw))
    return r
def check(id, programs, bounds, tech=TECH, note=NOTE, **kw): CHECKS[id] = dict(programs=programs, bounds=bounds, technique=tech, note=note, **kw)

check("Y04", lambda tier: yaml_both("ynode_asan", "y_node.cpp", ASAN, args=["--only", "ops1", "--only", "ops2"]) + yaml_both("ynode", "y_node.cpp", REL, args=["--only", "ops3" if tier == "quick" else "ops4"]),
      "7 initial trees; all operation sequences of length <=2 (address/UB sanitizers) and 3 (thorough: 4) over 22 operations applied to the root or to one of its first children; both copies of the YAML library")
check("Y01", lambda tier: yaml_both("ytotal", "y_total.cpp", ASAN if tier == "quick" else REL), "all texts over a character alphabet up to a length and all combinations of line fragments (see harness/yaml/y_total.cpp for the alphabets), both copies of the library, address/UB sanitizers (quick); thorough: longer texts")
check("Y02", lambda tier: yaml_both("yfid", "y_fidelity.cpp", REL), "all trees of depth <=2 (thorough 3) with 1-2 children and 14 scalar styles, x 3 indentations x 8 decorations x 4 document-marker layouts, both copies")
check("Y03", lambda tier: yaml_both("yrt", "y_roundtrip.cpp", REL), "scalars and keys of length <=3 (thorough 4) over 23 significant characters in 3 positions and trees of depth 2 (thorough 3), x 60 serializer configurations, both copies")
def ystruct(*only): return lambda tier: [dict(p, args=sum([["--only", o] for o in only], [])) for p in yaml_both("ystruct", "y_struct.cpp", REL, copies=("legacy",))]
check("S01", ystruct("write_sc", "write_li", "write_ne"), "17268 objects: full products of the value sets of structs with 5 scalar, 7 list and 5 nested/optional/pointer members")
check("S02", ystruct("scalars", "lists", "nested", "multi"), "full products of per-field alternatives (absent, each style, malformed, unknown) for scalar, list and nested structs and for two objects at once; string and file entry points; thorough adds alternatives")
check("S03", ystruct("hooks"), "all documents with 0-2 list items, a nested object and an optional object, each with every combination of missing required fields and failing validation; plain and strict")
check("S04", ystruct("types"), "all lists of <=2 (thorough 3) typed objects plus a typed member over 8 variants; 4 handler orders per object; plain and strict")
check("Y05", lambda tier: yaml_both("yconv", "y_convert.cpp", REL), "all digit strings of length <=4 (thorough 5) and 18 boundary integers with sign/blank variants for 5 integer types, 240 real spellings, all letter cases of the boolean words, non-scalar nodes; both copies")
MICRO = ["EVPFFT", "LS-EVPFFT", "LS-EVPFFT-J2", "LSNP-EVPFFT"]
def micro(name, src, files, flags=REL, link="", apps=MICRO, **kw):
    return [dict(name=name + "_" + a.replace("-", "_"), sources=["{HERE}/harness/micro/" + src, "{HERE}/shim/mcshim.cpp"] + ["{REPO}/apps/micromechanics/%s/src/%s" % (a, f) for f in files], flags=flags + " -I{HERE}/mc -I{HERE}/shim/include -I{REPO}/apps/micromechanics/%s/src" % a, link=link, **kw) for a in apps]
check("M01", lambda tier: micro("margs", "args.cpp", ["command_line_args.cpp"], link="-Wl,--wrap=exit"), "all argument lists of <=4 (thorough 5) tokens from 30 and all orders of all subsets of the six options in 2 (thorough 3) spellings, four applications")
check("M02", lambda tier: micro("mxdmf", "xdmf.cpp", ["XdmfUniformGridWriter.cpp"]), "64 grids x all lists of <=2 (thorough 3) attributes over 3 names, 2 types, 2 locations, 3 number types; four applications")
def mtens(*only): return lambda tier: [dict(p, args=sum([["--only", o] for o in only], [])) for p in micro("mtens", "tensors.cpp", ["chg_basis.cpp", "voigt.cpp", "euler.cpp", "orient.cpp", "vm.cpp", "math_functions.cpp"], flags=REL + " -I{HERE}/shim/mpi_stub")]
check("M03", mtens("basis2", "basis4", "voigt"), "all symmetric tensors with 6 components from 3 (thorough 5) values, all sums of two basis matrices of order 5 and 6, four applications")
check("M04", mtens("angles", "spins", "equiv"), "24x9x24 (thorough 72x9x72) Euler angles, 125 spins x 3 (5) sequences x 24 (216) orientations, all tensors over 3 (4) values, four applications")
check("M05", mtens("inv3", "inv6", "powers"), "all 3x3 matrices over 3 (thorough 4) values, all 720 6x6 permutations x 72 shears or 18 singular variants, powers -30..30 of 7 bases x 1024 arrays, four applications")

# ---- the FFT crystal-plasticity codes as a whole ----
def evp(app, src, *only):
    import glob, os
    def f(tier):
        d = os.environ.get("VERIF_REPO", "/repo") + "/apps/micromechanics/%s/src" % app
        return [dict(name="evp_" + app.replace("-", "_"), sources=["{HERE}/harness/micro/" + src, "{HERE}/shim/mcshim.cpp"] + [x for x in sorted(glob.glob(d + "/*.cpp")) if not x.endswith("/main.cpp")],
                     flags="-std=c++17 -O2 -w -DUSE_FFTW -DHAVE_KOKKOS -I{HERE}/mc -I{HERE}/harness/micro -I{HERE}/shim/include -I{HERE}/shim/mpi_stub -I" + d, link="-pthread", args=sum([["--only", o] for o in only], []))]
    return f
EVPB = "10 (thorough 13) grids of up to 3x3x1 (3x3x3) voxels x 5 sets of phases (cubic, hexagonal, isotropic, void, two phases) x 3 (4) textures x 8 loadings (imposed gradients, spins, stress-controlled directions and shears, full stress) x 6 (10) variants of exponent, spacing, step size, options and thermal strains, three steps each"
check("E01", evp("EVPFFT", "evpfft.cpp", "fields"), EVPB)
check("E02", evp("EVPFFT", "evpfft.cpp", "evolution"), EVPB)
check("E03", evp("EVPFFT", "evpfft.cpp", "ranks", "translate", "tile", "axes"), "small grids x phases x textures x loadings x options, pairs of runs: 1-3 ranks, every periodic displacement, doubled along every axis, 5 axis permutations")
check("E04", evp("EVPFFT", "evpfft.cpp", "outputs", "masks", "systems", "formats"), "small problems x 1-2 ranks x output intervals, files parsed in full; 32768 loading masks; 2028 slip systems; 4 input variants x 1-2 ranks")

# ---- apps/multiphysics, compiled against the stand-ins in shim/ ----
import glob as _glob, os as _os
MP = "{REPO}/apps/multiphysics/src"
def _repo(): return _os.environ.get("VERIF_REPO", "/repo")
def mp_sources(*dirs, without=()):
    """every source of the application (or of the given directories); energy_sgtm.cpp is a leftover the build never compiles"""
    root = _repo() + "/apps/multiphysics/src"; out = []
    for d in dirs or ("",):
        p = root + "/" + d
        fs = [p] if p.endswith(".cpp") else sorted(_glob.glob(p + "/**/*.cpp", recursive=True))
        out += [f for f in fs if not f.endswith(("/main.cpp", "/energy_sgtm.cpp")) and not any(w in f for w in without)]
    return out
def mp_inc():
    root = _repo() + "/apps/multiphysics/src"; ds = sorted({_os.path.dirname(f) for e in ("h", "hpp") for f in _glob.glob(root + "/**/*." + e, recursive=True)})
    return "-I{HERE}/mc -I{HERE}/harness/mp -I{HERE}/shim/include " + " ".join("-I" + d for d in ds)
MPFLAGS = "-std=c++17 -O1 -w"
def mp(name, src, sources, flags=MPFLAGS, link="", **kw):
    return [dict(name=name, sources=["{HERE}/harness/mp/" + s for s in src.split()] + ["{HERE}/shim/mcshim.cpp"] + sources, flags=flags + " " + mp_inc(), link="-Wl,--wrap=exit -Wl,--wrap=system -Wl,--gc-sections " + link, **kw)]
check("P01", lambda tier: mp("meshgen", "meshgen.cpp", mp_sources("input")), "box meshes of 1-3 (thorough 4) elements per direction x origins x lengths x 2 option orders, 3456 polar requests")
check("P02", lambda tier: mp("geom", "geom.cpp", mp_sources("common/src/geometry_new.cpp")), "hexahedra with every node in one of 4 positions (thorough 5) x 3 scalings x 3 numberings; quadrilaterals with every node in one of 5 (thorough 7) positions x 3 scalings x 3 numberings x 3 radii, also collapsed to triangles")
check("P03", lambda tier: mp("bdy", "bdy.cpp", mp_sources("input", "common/src/geometry_new.cpp")), "4 (thorough 6) meshes x all surfaces from 5 kinds, 6 positions, 4 origins, 3-4 tolerances, alone and in all pairs, in both orders")
check("P04", lambda tier: mp("deck", "deck.cpp", mp_sources("input")), "base deck plus every choice of up to 2 options (3 in small sections; thorough 3) of each section with every value from a table of valid and invalid ones, options per item of list sections, required options dropped, duplicate ids; both option orders, two memory fills; all fields of all sections compared")
def sim(name, src, **kw): return mp(name, src, mp_sources(), **kw)
check("P05", lambda tier: sim("fill", "fill.cpp"), "3D and RZ boxes x all ordered pairs of fills over 5 volumes, 2 materials, up to 8 volume fraction fields, 6 velocity fields, specific or extensive energy; all triples (thorough: and quadruples) of fills over 2 (3) volumes, 3 materials, 3 (4) fractions and 2 capacities; 24 voxel grids x 3 file layouts; thermal and level-set fields of up to 2 (3) fills; two element orders")
check("P06", lambda tier: sim("clock", "clock.cpp"), "27648 (3D), 13824 (RZ) gas runs: 2 (thorough 3) values of dt_start, dt_max and 2 of dt_min, 3 (4) graphics intervals, 2 (3) end times, 4 iteration steps, 1-4 cycles or to the end (7 values), 3 geometries, 3 flows, eroded elements, 1-2 (3) stages; 2160 chains of 2-3 solvers; 2304 heat and 2 x 33792 level-set runs over material speeds")
check("P08", lambda tier: sim("sgh", "sgh.cpp", args=sum([["--only", o] for o in ("setup3d", "setuprz", "conserve3d", "conserverz")], [])), "conservation: 3D and RZ boxes of 1-4 (thorough 1-8) elements x 3 distortions x 8 flows x 7 mixtures (void, elastic, eroded) x 4 (5) dissipation settings x directional or not x walls x 1-2 (3) stages, 8 (25) cycles each; setup: 4 meshes x 7 mixtures x stages x origins x EOS x strength")
check("P09", lambda tier: sim("sgh", "sgh.cpp", args=["--only", "step3d", "--only", "steprz"]), "3D and RZ boxes of 1-4 (thorough 1-8) elements, off and on the axis x 3 distortions x 8 flows and every single node moving in every direction x 7 mixtures x 4 (5) dissipation settings x directional or not x walls x 1-2 (3) stages x 1-2 (3) cycles")
check("P13", lambda tier: sim("sghmod", "sghmod.cpp", args=sum([["--only", o] for o in ("strength3d", "strengthrz", "erosion3d", "erosionrz")], [])), "strength: 3 (thorough 4) meshes x 5 mixtures x 3 moduli and yield stresses x dissipation x walls x 1-2 (3) stages x 1-3 (4) cycles x 3 distortions x 2 EOS x initial stress x 8 flows; erosion: 3 (4) meshes x 6 mixtures x 3 pairs of limits x dissipation x strength x walls x stages x 1-4 (6) cycles x 2 EOS x 8 flows; 3D and RZ")
check("P12", lambda tier: sim("sghmod", "sghmod.cpp", args=["--only", "bounds3d", "--only", "boundsrz"]), "all single conditions and ordered pairs of 17 (RZ 12) models with variables x all sides x 2 (thorough 3) meshes x 1-2 (3) stages x distortion x 2 flows, 4 cycles; pairs also with one condition for each of two chained solvers")
check("P10", lambda tier: sim("heat", "heat.cpp", args=sum([["--only", o] for o in ("step", "pairs", "conserve", "chained", "moving")], [])), "3 (thorough 5) meshes x 3 mixtures x 1-2 (3) stages x 3 distortions x 4 temperature fields and every single hot node x no, one or all ordered pairs of 30 boundary conditions x cycles; conservation over 15 (40) cycles; two chained solvers x pairs of conditions; moving source x 6 places x 2 steps x up to 7 (14) cycles")
check("P20", lambda tier: sim("heat", "heat.cpp", args=["--only", "tables"]), "4 file layouts x all triples of 4 tables (1-4 rows) x 2 field orders x 10 temperature fields on a 3x2x1 mesh")
check("P07", lambda tier: sim("out", "out.cpp"), "3 solvers (3D, RZ hydrodynamics, heat) x 4 mixtures (one with mixed elements, two with a material that is nowhere) x all subsets of the fields of each section, in both orders, with the other sections empty, full or reversed; 4 formats x 1-6 (thorough 12) cycles x 4 output intervals x 3 steps; histories of 2-4 (7) cycles compared with every shorter run; chains of two solvers")
check("P14", lambda tier: sim("meshread", "meshread.cpp"), "4 formats (EnSight, VTK, VTU with 4 element types, Abaqus) x 5 (thorough 6) 3D and 4 (5) 2D meshes x 3 node numberings x 4 element rotations x 2 element orders x 3 number styles x 2 line ends x layouts x labels x 4 scalings; cut at every token; 8 kinds of inconsistent files; all 1-2 (3) part fills with or without object ids")
check("P11", lambda tier: sim("lvlset", "lvlset.cpp"), "3 (thorough 4) 3D and 2D meshes x 2 origins x 4 material layouts x 6 sets of walls (also of another solver) x 1-2 (3) stages x 5 front speeds x 1-3 (5) cycles x 3 distortions x 9 fields; every single element raised or lowered; cases decided by rounding are left out (counted as pruned)")
check("P15", lambda tier: sim("equil", "equil.cpp"), "3D boxes of 1-2 (thorough 4) elements x 7 mixtures (void, elastic, eroded) x 3 layouts of the fractions x 3 sets of energies x material, geometric or both models x 6 limits x 3 coefficients x 8 flows x 2 distortions x walls x dissipation x 1-2 (3) stages x 1-2 (4) cycles; conservation over 6 cycles")
check("P16", lambda tier: sim("contact", "contact.cpp"), "pairs of boxes of 1-4 (thorough 1-6) elements each, of equal or 0.7 size and equal or triple density x 5 lateral offsets x 4 gaps x 6 relative motions x 5 (27 x 4) orientations with renumbered nodes and elements and rotated element-local numbering, one step against the least-impulse solution; one body tilted (5 ways: corner or edge) over 5 places x 3 gaps; 5 separations x 3 cycles x 1-2 stages compared with contact off; collisions of 2-3 bodies over 5 (12) cycles")
check("P17", lambda tier: sim("fracture", "fracture.cpp"), "10 ways to cut a brick of 2-12 elements (whole, partial, parallel, crossing and triple cuts; plane and warped) x 8 motions of the pieces x 9 laws (0-10 relaxation terms, growth to full damage) x 1-3 stages x 4 (27) orientations with renumbered nodes, elements and local numberings, 6 (12-20) cycles of pieces without stiffness against the law; the same with stiff pieces, one step on top of the step without interface, and momentum over 4 cycles; 6 gaps around the tolerance; given turning and opening paths of up to 8 (14) cycles")
RACE = MPFLAGS + " -g1 -DMCSHIM_RACE -DMC_MONITOR -I{HERE}/shim"
MONITORED = ("meshgen", "bdy", "meshread", "fill", "sgh", "sghmod", "heat", "lvlset", "equil", "contact", "fracture", "clock", "out")
def monitored(tier, suffix, flags, harnesses=MONITORED, quick="2", thorough="3"):
    out = []
    for n in harnesses:
        for p in mp(n + suffix, n + ".cpp", mp_sources(), flags=flags, args=["--deviations", thorough if tier == "thorough" else quick]):
            if n in ("contact", "fracture"): p["budget"] = {"quick": 100, "thorough": 900}
            out.append(p)
    return out
def sched(tier):
    out = monitored(tier, "_sched", RACE)
    for p in out: p["sources"] = [s if "shim/" in s else (s, "-fsanitize=thread") for s in p["sources"]] + ["{HERE}/shim/race.cpp"]
    return out
check("P18", sched, "the scenarios of the explorers of P01, P03, P05-P17 and P20, each with all executions in which at most 2 (thorough 3) choices differ from the first alternative; every access to array elements by every parallel loop of the application watched; every execution repeated with loops run backward, with a stride of three, and with reductions in three partial results")
check("P19", lambda tier: monitored(tier, "_sep", MPFLAGS + " -DMCSHIM_SEPARATE -DMC_SEPARATE"), "the scenarios of the explorers of P01, P03, P05-P17 and P20, each with all executions in which at most 2 (thorough 3) choices differ from the first alternative, run with one copy of each array and with separate host and device copies; states and files compared exactly")
MBD = "{REPO}/legacy/Fierro_V0/src/Mesh-Builder"
def mb(*only): return lambda tier: [dict(name="mb", sources=["{HERE}/harness/legacy/meshbuilder.cpp", "{HERE}/shim/mcshim.cpp", MBD + "/src/MeshBuilder.cpp", MBD + "/src/VtkIO.cpp", MBD + "/src/EnsightIO.cpp", LEG + "/src/Yaml.cpp"], flags=ASAN + " -I{HERE}/mc -I{HERE}/shim/include -I" + MBD + "/include -I" + LEG + "/include", link="-fsanitize=address,undefined", args=sum([["--only", o] for o in only], []))]
check("B01", mb("boxes", "cylinders", "refused"), "2592 boxes (1-3, thorough 1-4 elements per direction, orders 1-3 (4), 3 lengths, 3 origins) and 51840 cylinders (orders, 6 angular lengths, 4 inner radii, 5 start angles, 3 origins) in both option orders; all 250 combinations of list lengths 1-5, 8 angles out of range, missing and malformed entries; address/UB sanitizers")
check("B02", mb("streams", "sequences", "files", "cut"), "3024 boxes and cylinders of orders 1-3 (thorough 4) written, read by an independent reader and by the builder and written again; all sequences of 3 (4) of 10 kinds of meshes in one process; VTK in two places and EnSight under two names; 10 files cut before or lacking each line of the mesh; address/UB sanitizers")
