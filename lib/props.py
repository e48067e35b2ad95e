"""Which harnesses decide which property, within which bounds."""

COMMON = [
    "clang 18 compiles the C++ sources to the LLVM bitcode that is executed; -O1, no vectorisation, NDEBUG (Eigen and library asserts off)",
    "the project's headers that need the absent simdpp library are taken with that feature off (as in /repo's own build here)",
    "floating point: values marked symbolic are exact dyadic rationals or 64-bit/32-bit IEEE values decided by z3; rounding of symbolic "
    "dyadic arithmetic is not modelled where the result is exactly representable within the stated range (overflow of the range is checked)",
    "libm, iostream and the C++ runtime are executed concretely (arguments pinned on the path)",
    "operator new never fails; single thread unless said otherwise",
]

import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KERNELS = [("kernel_float", 60, 400), ("kernel_double", 60, 400), ("kernel_cfloat", 60, 400), ("kernel_cdouble", 60, 400), ("batch_float", 30, 200), ("batch_double", 30, 200),
           ("batch_cfloat", 30, 200), ("batch_cdouble", 30, 200), ("lanczos_double", 30, 200), ("lanczos_float", 30, 200), ("lanczos_cdouble", 30, 200)]

PROPS = {
    "C01": {
        "programs": [{"file": "ham", "groups": ["core"], "harnesses": [("chain", 60, 600), ("plane", 60, 600), ("orbitals", 120, 900)],
                      "bounds": {
                          "chain": "1D, 2 sublattices, 1-3 cells, 2 hopping families with any relative cell index in [-2,2] and endpoints, any real or complex energies in [-8,8] incl. zero",
                          "plane": "2D, 2 sublattices, up to 2x2 cells (3x2 thorough), hopping with relative index in [-1,1]^2",
                          "orbitals": "1-2 orbitals per sublattice, up to 2 cells, matrix hoppings and onsite terms"}}],
        "bounds": "finite systems of at most 3 cells per axis, 2 sublattices, 2 orbitals each, 2 hopping families",
        "outside": "larger systems (the assembly loop is the same code), MKL and complex-only accelerations",
        "assumptions": ["sites are identified by position; the sublattice offsets used make positions distinct"],
    },
    "C03": {
        "programs": [{"file": "periodic", "groups": ["core"], "harnesses": [("ring", 40, 300), ("torus", 40, 300), ("torus2", 40, 300),
                                                                          ("ring_length", 40, 200), ("ring_values", 40, 300), ("ring_orbitals", 40, 300), ("box", 60, 600)]}],
        "bounds": "1-3 periodic axes, periods 1-4 cells, hoppings reaching up to 3 cells, k-vectors from a concrete set, energies symbolic",
        "outside": "periods above 4 cells; k-vectors other than the listed ones (the phase is evaluated by libm)",
    },
    "C07": {
        "programs": [{"file": "gens", "groups": ["core"], "harnesses": [("gen_real", 80, 600), ("gen_complex", 80, 600), ("gen_orbitals", 60, 600),
                                                                        ("gen_mixed", 30, 300), ("gen_upper", 30, 300)]}],
        "bounds": "chains of 3 cells; up to 3 structure operations (site removal, site generator, hopping generator, position change) in any order",
        "outside": "more than 3 operations; generators on lattices with more than 2 sublattices",
    },
    "C13": {
        "programs": [{"file": "leads", "groups": ["core"], "harnesses": [("lead_one", 80, 600), ("lead_two", 90, 900), ("lead_orbitals", 60, 400), ("lead_solid", 70, 400), ("lead_solid_two", 50, 300), ("lead_arm", 40, 200), ("lead_rules", 20, 60), ("lead_generators", 50, 400)]}],
        "bounds": "2D scattering regions of up to 3x3 cells and 3D ones of 2x2x2 with or without an arm of three cells, leads along any axis and direction; any direction in [-5, 5] of 1D-3D lattices for the rules of attachment; any 3 (4) generators and removals of sites after the attachment",
        "outside": "hoppings that reach more than one cell along the lead axis",
    },
    "C02": {
        "programs": [{"file": "structure", "groups": ["core"], "harnesses": [("positions1", 40, 200), ("positions2", 40, 200), ("positions3", 40, 200), ("links1", 40, 400),
                                                                             ("links_alias", 40, 300), ("links2", 40, 400), ("links3", 40, 300)],
                      "bounds": {
                          "positions1": "1D: lattice vector components (integers, |x| up to 15), up to 3 sublattices at any position in [-7,7]^3, aliases; 1-4 cells",
                          "positions2": "2D: any two vectors with diagonal in [8,15] and skew in [-3,3], 2 sublattices at any position; up to 3x3 cells",
                          "positions3": "3D: the same with three vectors; up to 2x2x2 cells",
                          "links1": "1D: 2 sublattices, 2 hoppings of any endpoints and reach 1 (2 thorough), up to 3 (4) cells",
                          "links2": "2D: 2 sublattices, 1 hopping of any endpoints and reach 1 (2)", "links3": "3D: 1 sublattice, 1 hopping of reach 1",
                          "links_alias": "1D with an aliased sublattice"}}],
        "bounds": "1-3 dimensions, up to 4 cells per axis, up to 3 sublattices, 2 hopping families of reach 2",
        "outside": "positions that are not exactly representable (rounding of cell sums)",
    },
    "C05": {
        "programs": [{"file": "shapes", "groups": ["core"], "harnesses": [("triangle", 60, 400), ("quad", 120, 900), ("many_points", 30, 100), ("line", 30, 200),
                                                                          ("crop1", 140, 900), ("crop_skew", 40, 300), ("crop_along", 60, 300), ("crop_plane", 120, 900), ("tiny", 40, 200), ("huge", 40, 200)]}],
        "bounds": "polygons of 3-4 integer vertices, lines between integer points, containment regions over up to 3x3 cells of skewed lattices with any offset; any part of 8 bounding boxes for chains and sheets of any orientation",
        "outside": "polygons of more than 4 vertices; points exactly on a polygon's boundary (unspecified by the library)",
    },
    "C06": {
        "programs": [{"file": "mods", "groups": ["core"], "harnesses": [("dangling_square", 40, 300), ("dangling_brick", 40, 300), ("dangling_side", 30, 300),
                                                                        ("dangling_after_square", 140, 600), ("dangling_after_brick", 100, 600), ("dangling_after_side", 60, 400)]}],
        "bounds": "flakes of up to 12 sites of three lattices (square, brick wall, chain with side sites), every outline of 8 (10 thorough) of them, every removed subset of half of them, every minimum 0-3",
        "outside": "periodic systems with a minimum of neighbours; hoppings which reach further than the padding (one cell)",
    },
    "C08": {
        "programs": [{"file": "mods", "groups": ["core"], "harnesses": [("states2", 40, 300), ("states_alias", 40, 300), ("states_generator", 60, 600),
                                                                       ("states_generator2", 60, 600), ("states_generator_alias", 40, 300)]}],
        "bounds": "chains of 2 cells with 1-3 sublattices (one an alias), any order of 2-4 (5) modifiers with a site or hopping generator at any point among them, every outcome of each on every other site",
        "outside": "more modifiers",
    },
    "C09": {
        "programs": [{"file": "hmods", "groups": ["core"], "harnesses": [("mod_chain", 30, 200), ("mod_generator", 30, 200), ("mod_zero", 30, 200), ("mod_orbitals", 30, 400),
                                                                         ("mod_ring", 30, 200), ("mod_ring_k", 40, 300), ("mod_torus", 40, 300), ("slices", 60, 300), ("mod_lead", 30, 200)],
                      "bounds": {
                          "mod_chain": "1D, 2 sublattices, any hopping of reach 1, up to 3 cells, 2 modifiers of either kind which add to or replace every term by any (nonzero) energies",
                          "mod_orbitals": "the same with up to 2 (3) orbitals per sublattice", "mod_ring_k": "periodic, with concrete energies, at one wave vector",
                          "slices": "hopping matrices so large that 4, 2, 1 or less than one fit into the buffer, chains of 2-6 (9) cells",
                          "mod_lead": "leads in all four directions of a 3x3 block, up to 2 orbitals; changes that do not vary along the lead"}}],
        "bounds": "chains, rings and tori of up to 3 cells per axis, 2 sublattices of up to 2 (3) orbitals, two modifiers",
        "outside": "hopping modifiers which vary along a lead (a lead is periodic by definition); nonzero energies which a modifier sets to zero",
    },
    "C10": {
        "programs": [{"file": "types", "groups": ["core"], "harnesses": [("types_lattice", 20, 60), ("types_generators", 20, 60), ("types_modifiers", 20, 60),
                                                                         ("types_all", 30, 100), ("types_again", 30, 100), ("types_lead", 20, 60)]}],
        "bounds": "every combination of real or complex onsite and hopping energies of the lattice and of generators, onsite and hopping modifiers with each flag and with a late request for complex numbers, "
                  "translational symmetry, and one change after the first evaluation; values which single precision cannot hold",
        "outside": "imaginary parts below 1e-12 of the energies of a lattice (taken as zero by design)",
    },
    "C12": {
        "programs": [{"file": "history", "groups": ["core"], "harnesses": [("history2", 40, 200), ("history2_values", 30, 200), ("history3", 150, 1500), ("history_modifiers", 40, 600)]}],
        "bounds": "every sequence of 2 and 3 of 14 operations (sizes, shapes with offsets, symmetry, modifiers, generators, wave vector, leads, clearing, rejected parameters, failing evaluations, copies), evaluated in between or not; "
                  "3 (4) operations among modifiers, wave vector, leads and clearing; compared with a new model in everything it evaluates to",
        "outside": "longer histories; operations on a 2D lattice with 1 and 2 orbitals only",
    },
    "C11": {
        "programs": [{"file": "lattice", "groups": ["core"], "harnesses": [("sublattices", 40, 300), ("aliases", 20, 100), ("named_hoppings", 80, 600), ("anonymous_hoppings", 80, 600),
                                                                           ("repeated_hoppings", 30, 100), ("vectors", 30, 200)]}],
        "bounds": "every sequence of 2 (3) definitions of sublattices or hoppings, valid or not, with any names out of 3 and energies of 1-2 (3) orbitals; up to 4 (5) sublattices in any alias relation; 1-3 lattice vectors",
        "outside": "longer sequences; more names; the maximum number of sublattices and hopping families that the identifiers can hold",
    },
    "C04": {
        "programs": [{"file": "maps", "groups": ["core"], "harnesses": [("maps1", 40, 200), ("maps2", 40, 300), ("maps3", 40, 300), ("maps_alias", 40, 200), ("maps_generated", 80, 400),
                                                                        ("maps_generated2", 60, 300), ("nearest_line", 80, 400), ("nearest_plane", 40, 200)]}],
        "bounds": "chains of up to 4 cells with 1-3 sublattices of 1-3 orbitals each (one may be an alias), any removed sites, generated families of any number of orbitals; the site nearest to any integer point among sites at any positions",
        "outside": "more families; points at equal distance from two sites (either is accepted)",
    },
    "C14": {
        "programs": [{"file": "kpmham", "groups": ["core", "kpm"], "harnesses": [("ham_real", 90, 600), ("ham_complex", 60, 400), ("ham_again", 60, 400), ("ham_bonds", 60, 400), ("ham_chain", 60, 400)]}],
        "bounds": "every Hermitian pattern of up to 4 (5) states with any real or complex elements, any scaling, one or two sources which are also the destinations and one source with one or two destinations, both formats, two optimisations in a row; chains of up to 5 (7) states with every one or two sources and destinations",
        "outside": "larger matrices; scaling factors which are not powers of two",
    },
    "C15": {
        "programs": [{"file": "kernels", "groups": [], "harnesses": KERNELS},
                     {"file": "kernels", "groups": [], "flags": ["-DVERIF_SIMD_NULL"], "harnesses": KERNELS}],
        "bounds": "matrices of up to 3-4 rows and up to 2-3 elements in a row at any columns, any values, every row range, in both formats, single and batched, with and without the fused moments, real and complex",
        "outside": "the instruction sequences behind simdpp (absent here): a scalar model of its operations with 128-bit lanes takes its place, and the library's own path without it is checked too; rounding",
        "assumptions": ["simdpp's loads, stores, arithmetic, interleaves and permutations act lane by lane as documented (engine/compat/simdpp/simd.h)"],
    },
    "C16": {
        "programs": [{"file": "moments", "groups": ["core", "kpm", "kpmdefault"], "flags": ["-include", ROOT + "/engine/threads.hpp"],
                      "harnesses": [("diag_double", 40, 400), ("diag_complex", 60, 400), ("diag_float", 30, 200), ("diag_cfloat", 30, 200), ("units_double", 50, 600), ("units_long", 40, 900),
                                    ("units_complex", 40, 600), ("units_float", 50, 300), ("units_cfloat", 30, 200), ("batch_double", 80, 900), ("batch_complex", 60, 400), ("batch_float", 40, 600),
                                    ("batch_cfloat", 30, 200), ("vector_double", 20, 100), ("vector_complex", 20, 100), ("operator_double", 20, 100), ("operator_complex", 20, 100),
                                    ("rows_double", 20, 100), ("rows_complex", 20, 100)]}],
        "bounds": "Hermitian matrices of four patterns (chain, ring, star, with loose states) of 1-5 states with any dyadic elements, every state or pair of states, 6-14 moments, both formats, interleaved or not, optimal size or not, up to 9 states in batches on 1-2 threads",
        "outside": "rounding (elements are such that every product is exact); larger matrices; single-precision complex elements other than 1, -1 and i",
        "assumptions": ["simdpp as for C15", "std::thread, mutex and condition_variable are replaced by a cooperative scheduler (engine/threads.hpp) which runs one fixed schedule here"],
    },
    "C17": {
        "programs": [{"file": "spectra", "groups": ["core", "kpm", "kpmdefault"], "flags": ["-include", ROOT + "/engine/threads.hpp"],
                      "harnesses": [("density_float", 30, 200), ("density_double", 30, 200), ("density_cfloat", 30, 200), ("density_complex", 30, 200), ("columns_float", 30, 200), ("columns_complex", 30, 200), ("greens_float", 30, 200), ("greens_double", 30, 200), ("greens_cfloat", 30, 200), ("greens_complex", 30, 200), ("greens_several", 30, 200), ("kubo_double", 30, 200), ("kubo_float", 30, 200), ("kubo_complex", 30, 200), ("kubo_cfloat", 30, 200), ("apply_float", 30, 200), ("apply_double", 30, 200), ("apply_cfloat", 30, 200), ("apply_complex", 30, 200), ("own_kernels", 30, 200), ("rounding_moments", 30, 200), ("broadening_moments", 30, 200), ("ldos_double", 30, 200), ("ldos_complex", 30, 200), ("ldos_float", 30, 200), ("ldos_cfloat", 30, 200), ("dos_double", 30, 200), ("dos_complex", 30, 200), ("dos_float", 30, 200), ("conductivity_double", 30, 200), ("conductivity_complex", 30, 200), ("element_double", 70, 300), ("element_complex", 70, 300), ("element_float", 70, 300), ("element_cfloat", 70, 300), ("scale_range", 60, 300), ("moments_double", 30, 200), ("moments_complex", 40, 200), ("moments_float", 40, 200)]}],
        "bounds": "2-9 moments (2-4 per axis for the conductivity) of any values; any damping coefficients in whole calculations on four fixed Hermitian matrices of 1-4 states in every format and algorithm, 6 or 10 moments; five energies inside the band on three energy axes, three temperatures, 2-5 integration points; energy ranges of whole numbers in [-1000, 1000]",
        "outside": "other energies and matrices (both are given numbers, as the arccosine of a symbolic value is out of reach); rounding: terms are compared as reals, with a tolerance for the library's single-precision constants",
        "assumptions": ["simdpp as for C15", "the C library's cos, exp, acos ... return the values they return in the run", "random starting vectors are drawn with the fixed seed and drawn again for the oracle"],
    },
    "C18": {
        "programs": [{"file": "requests", "groups": ["core", "kpm", "kpmdefault"], "flags": ["-include", ROOT + "/engine/threads.hpp"],
                      "harnesses": [("req_greens", 60, 400), ("req_vector", 40, 400), ("req_ldos", 80, 400), ("req_spatial", 40, 200), ("req_direction", 30, 200), ("req_direction_orbitals", 30, 200),
                                    ("req_moments", 80, 400), ("req_config", 40, 200), ("req_dos", 30, 100), ("req_model", 40, 300), ("req_automatic", 30, 100)]}],
        "bounds": "models of 2-4 rows (1-2 orbitals, 1-2 families); any pair of indices in [-3, size+3], lists of up to 3 of them, every direction string of up to 3 letters from a symbolic alphabet, every configuration of bounds and formats, bounds found automatically before and after a change of model, argument sizes of up to size+2, 1-3 energies",
        "outside": "the values returned (C14-C17); larger models; parameters which are not validated at all: broadening <= 0, num_random < 1 and num_points < 1",
        "assumptions": ["simdpp as for C15", "the threads of the default pool run one schedule here (C21 explores the others)"],
    },
    "C19": {
        "programs": [{"file": "schedules", "groups": ["core", "kpm", "kpmdefault"], "flags": ["-include", ROOT + "/engine/threads.hpp"],
                      "harnesses": [("batch_columns", 60, 400), ("batch_average", 60, 400), ("batch_average_double", 60, 400), ("batch_average_order", 40, 200), ("batch_columns_float", 40, 200),
                                    ("batch_columns_complex", 40, 200), ("batch_average_float", 40, 200), ("batch_average_padded", 40, 200), ("batch_one_thread", 40, 200), ("batch_one_double", 30, 100), ("batch_one_cfloat", 30, 100), ("batch_more_threads", 30, 200)]}],
        "bounds": "up to 5 starting vectors (30 on one thread, 8 on three) in batches of the library's own sizes, 1-2 worker threads, 6-10 moments, both formats; the starting vectors and moments symbolic",
        "outside": "more starters and threads; the quality of the random vectors (the generator's numbers are inputs)",
        "assumptions": ["simdpp as for C15", "the clock returns a fixed time, so the seed of the random starters is fixed; the numbers drawn are checked to be used once each"],
    },
    "C20": {
        "programs": [{"file": "arrays", "groups": ["core"],
                      "harnesses": [("view_pointer_float", 20, 60), ("view_pointer_int", 20, 60), ("view_container", 20, 60), ("variant_refusal", 20, 60), ("match_single", 20, 60), ("match_double", 20, 60),
                                    ("concat_slice", 20, 60), ("cartesian", 20, 60), ("sliced_pieces", 20, 60), ("slice_index", 30, 120), ("casts", 20, 60), ("cast_matrices", 20, 60), ("aligned", 20, 60),
                                    ("csr_float", 30, 300), ("csr_double", 30, 300), ("csr_complex", 30, 300), ("csr_complex_double", 30, 300),
                                    ("ell_float", 30, 300), ("ell_double", 30, 300), ("ell_complex", 30, 300), ("ell_complex_double", 30, 300)]}],
        "bounds": "all 13 element types for views, the 4 floating types in every combination for matching; 0-6 elements (1-3 per axis) of any small integer value; sparse matrices of up to 3x2 (3x3 thorough) with up to 2 elements per row inserted in any order; slices and ranges of any bounds in [-20, 20]",
        "outside": "the conversion to numpy arrays (cppmodule cannot be built here); views of const floating-point pointers, which do not compile",
    },
    "C21": {
        "programs": [{"file": "schedules", "groups": ["core", "kpm", "kpmdefault"], "flags": ["-include", ROOT + "/engine/threads.hpp"],
                      "harnesses": [("pool_few", 90, 900), ("pool_jobs", 60, 600), ("pool_workers", 60, 600), ("parallel_one", 90, 900), ("parallel_two", 90, 900), ("parallel_more", 60, 900),
                                    ("queue_one", 40, 300), ("queue_producers", 40, 300), ("queue_consumers", 40, 300),
                                    ("batch_columns", 60, 400), ("batch_average_order", 40, 200)]}],
        "bounds": "pools of 1-2 workers (3 with fewer preemptions), up to 4 jobs, queues of 1-3 elements; every schedule with at most the number of preemptive context switches given in the harness (1-3), switches at every operation on a mutex, condition variable, thread or shared flag; switches at blocking operations are unlimited",
        "outside": "more preemptions, threads and jobs; weak memory orderings (the schedules are sequentially consistent); hardware_concurrency() == 0",
        "assumptions": ["simdpp as for C15", "std::thread, mutex, unique_lock, lock_guard and condition_variable are replaced by a scheduler (engine/threads.hpp) whose choices are symbolic inputs; data not guarded by a lock is seen to be raced on only where a switch point lies between its accesses"],
    },
    "C24": {
        "programs": [{"file": "solve", "groups": ["core", "solver"], "harnesses": [("solver_history", 120, 900), ("solver_density_float", 30, 100), ("solver_density_cfloat", 30, 100),
                                                                                  ("solver_density_double", 60, 200), ("solver_density_complex", 30, 100)]}],
        "bounds": "histories of 3 (4) operations on models of 2 or 4 states of all four number types with any energies; up to 3 eigenpairs of up to 3 states with any vectors, eigenvalues of a grid, two broadenings",
        "outside": "the strategies themselves (FEAST needs MKL, the others live in the Python module): a stub stands for them; rounding of the sums (compared as reals)",
    },
}
