prop("C01", "The Hamiltonian equals its tight-binding definition",
     "For any lattice and finite shape, the built Hamiltonian has exactly the onsite blocks and hopping blocks that the lattice definition prescribes "
     "between the sites present, each at its own row and column, and zeros elsewhere. It is Hermitian, and every stored row is a valid compressed "
     "sparse row without duplicate or out-of-range columns.",
     ["inputs", "configurations"], "every lattice (dimensions, sublattices, orbitals, real or complex energies, hopping directions) and every finite size within the bounds",
     "The tests compare a few reference lattices with stored matrices; they fix the energies, one hopping reach and one orbital layout.",
     ["cppcore/include/hamiltonian/Hamiltonian.hpp", "cppcore/src/hamiltonian/Hamiltonian.cpp", "cppcore/src/Model.cpp", "cppcore/src/system/HoppingBlocks.cpp", "cppcore/src/Lattice.cpp"],
     [("build_onsite / build_main / populate", "cppcore/include/hamiltonian/Hamiltonian.hpp"), ("optimized_structure, make_unit_cell", "cppcore/src/Lattice.cpp")],
     ["Model::hamiltonian()"])
prop("C02", "The sites of a finite piece are exactly the lattice sites it should hold",
     "A model built from a lattice and a size or shape contains every lattice site (cell and sublattice) the shape covers exactly once, at the position "
     "given by the lattice vectors, the lattice offset and the sublattice position, in the family of its sublattice. It contains nothing else, and the "
     "hoppings connect exactly the pairs of present sites which the lattice connects, each once.",
     ["inputs", "configurations"], "lattice vectors, offsets, sublattices, sizes in 1-3 dimensions and hopping reach within the bounds",
     "Tests check site counts of a few examples with one lattice orientation.",
     ["cppcore/src/system/Foundation.cpp", "cppcore/src/system/System.cpp", "cppcore/src/system/HoppingBlocks.cpp", "cppcore/src/system/CompressedSublattices.cpp"],
     [("generate_positions, SpatialIndex, site enumeration", "cppcore/src/system/Foundation.cpp"), ("populate_system", "cppcore/src/system/System.cpp")],
     ["Model::system()"])
prop("C03", "Periodic boundaries fold every hopping onto its image with the right phase",
     "With translational symmetry, a hopping which leaves the unit cell couples to the periodic image of its target, and the Hamiltonian at wave vector k "
     "is the sum over all images of the hopping energy times the phase of k along the translation. The result is Hermitian at every k, and each hopping is counted once per image.",
     ["inputs", "configurations"], "every lattice, period per axis (also periods shorter than the hopping reach), set of periodic axes and wave vector within the bounds",
     "The tests check one ring and one lattice with nearest-neighbour hoppings and a handful of k points.",
     ["cppcore/src/system/Symmetry.cpp", "cppcore/src/system/System.cpp", "cppcore/include/hamiltonian/Hamiltonian.hpp"],
     [("detail::make_ranges, Translations, apply", "cppcore/src/system/Symmetry.cpp"), ("populate_boundaries", "cppcore/src/system/System.cpp"), ("build_periodic", "cppcore/include/hamiltonian/Hamiltonian.hpp")],
     ["Model::hamiltonian() after set_wave_vector"])
prop("C04", "Site, family and orbital indices are mutually consistent",
     "Every Hamiltonian row belongs to exactly one orbital of one site: mapping sites to rows, expanding positions to rows, and the index range of every "
     "site family all describe the same partition, with as many rows per site as the family has orbitals. Searching for the nearest site returns a site of the requested family at minimal distance.",
     ["inputs", "histories"], "every mix of orbital counts, site counts, removed sites and generated families within the bounds",
     "Tests use fixed lattices with at most two families; generators and removal interact with the maps only in the general case.",
     ["cppcore/src/system/System.cpp", "cppcore/src/system/CompressedSublattices.cpp", "cppcore/src/system/Registry.cpp"],
     [("to_hamiltonian_indices, expanded_positions, sublattice_range, find_nearest", "cppcore/src/system/System.cpp"), ("CompressedSublattices", "cppcore/src/system/CompressedSublattices.cpp")],
     ["System"])
prop("C05", "A shape holds exactly the points inside it and never crops a contained site",
     "A polygon, line or free-form shape contains a point exactly when the point lies in its geometric region, and the finite piece cut from a lattice by any "
     "shape holds every lattice site whose position satisfies the shape's containment test. No part of the shape within its bounding box is cropped, whatever the lattice vectors or offsets.",
     ["inputs"], "every polygon with up to 4 vertices, line, containment region and lattice orientation within the bounds",
     "Tests sample a dozen points of three shapes on one lattice.",
     ["cppcore/src/system/Shape.cpp", "cppcore/src/system/Foundation.cpp"],
     [("WithinPolygon, is_acute_angle, Line", "cppcore/src/system/Shape.cpp"), ("find_bounds", "cppcore/src/system/Foundation.cpp")],
     ["Shape::contains", "Model::system()"])
prop("C06", "Dangling sites are removed to a fixed point, and only those",
     "When a minimum number of neighbours is required, a finite piece keeps no site that lost a neighbour (to the outline or to the removal of another site) and has fewer than the minimum left. "
     "The sites which remain are the largest such set: those with enough neighbours, or with all the neighbours they have in the infinite lattice, are never removed, and without a requirement none are.",
     ["inputs"], "every outline, every set of sites removed by a modifier and every minimum within the bounds",
     "Tests use one triangular flake.",
     ["cppcore/src/system/StructureModifiers.cpp", "cppcore/src/system/Foundation.cpp"],
     [("remove_dangling, count_neighbors", "cppcore/src/system/Foundation.cpp"), ("remove_invalid", "cppcore/src/system/System.cpp")],
     ["Model::system()"])
prop("C07", "Generated sites and hoppings enter the model exactly as requested",
     "Sites and hoppings added by generators appear in the system and Hamiltonian exactly as generated, with their positions, energies and direction, and nothing "
     "else changes. Structure changes applied later or earlier, including removal of sites and further generators, keep them consistent.",
     ["inputs", "histories"], "every sequence of removals, site generators, hopping generators and position changes within the bounds, with real, complex and multi-orbital energies",
     "Tests apply each modifier once on one lattice with one orbital; bugs arise from combinations and orders.",
     ["cppcore/src/Model.cpp", "cppcore/src/system/HoppingBlocks.cpp", "cppcore/src/system/Registry.cpp", "cppcore/src/system/System.cpp", "cppcore/src/system/StructureModifiers.cpp"],
     [("make_structure", "cppcore/src/Model.cpp"), ("HoppingBlocks::filter/append", "cppcore/src/system/HoppingBlocks.cpp"), ("add_altered_sites", "cppcore/src/system/System.cpp")],
     ["Model::system()", "Model::hamiltonian()"])
prop("C08", "Structure modifiers act on the sites they name, in the order given",
     "Site-state and site-position modifiers see every site of the structure with its true position and family, each family's members exactly once, and what they return is "
     "what the next modifier and the system see. A site made invalid is absent from the system together with every hopping that touches it, and all others are untouched.",
     ["inputs", "histories"], "every outcome of the modifiers on every site and every order of up to three modifiers within the bounds",
     "Tests check one modifier at a time with one outcome.",
     ["cppcore/src/system/StructureModifiers.cpp", "cppcore/src/system/Foundation.cpp", "cppcore/src/Model.cpp"],
     [("SiteStateModifier, PositionModifier apply", "cppcore/src/system/StructureModifiers.cpp")],
     ["Model::system()"])
prop("C09", "Onsite and hopping modifiers see each site and hopping exactly once",
     "Onsite and hopping modifiers are shown every site (or hopping) of the system exactly once with the right positions, family name and energy of the right shape, and the Hamiltonian holds "
     "exactly what the last modifier returned for it. Modifiers compose in the order added, do not disturb other terms, and keep the matrix Hermitian, also across periodic boundaries.",
     ["inputs", "configurations"], "every lattice, orbital layout, number of hoppings per buffer and modifier outcome within the bounds",
     "Tests use one-orbital graphene and one outcome; slicing by buffer size and multi-orbital shapes are barely reached.",
     ["cppcore/include/hamiltonian/HamiltonianModifiers.hpp", "cppcore/src/hamiltonian/HamiltonianModifiers.cpp", "cppcore/include/hamiltonian/Hamiltonian.hpp"],
     [("apply_to_onsite, apply_to_hoppings, HoppingBuffer", "cppcore/include/hamiltonian/HamiltonianModifiers.hpp")],
     ["Model::hamiltonian()"])
prop("C10", "The Hamiltonian's number type can hold every value put in it",
     "The Hamiltonian is complex whenever the lattice, a generator or a modifier makes any entry complex and whenever it has translational symmetry, and double precision whenever one was asked for. "
     "No imaginary part or precision is silently dropped, and a finite model of real terms stays real.",
     ["configurations", "histories"], "every combination of real or complex energies, modifiers, generators, wave vector and order of changes within the bounds",
     "Tests check one switch at a time.",
     ["cppcore/src/Model.cpp", "cppcore/include/hamiltonian/Hamiltonian.hpp"],
     [("is_double, is_complex, make_hamiltonian", "cppcore/src/Model.cpp")],
     ["Model::hamiltonian()"])
prop("C11", "A lattice accepts consistent definitions only and stores them faithfully",
     "Every sublattice, alias or hopping that is accepted can be read back unchanged and is used in the model; every inconsistent one (duplicate or unknown name, wrong shape, "
     "non-Hermitian onsite energy, repeated hopping, too many dimensions) is rejected with an error and leaves the lattice as it was.",
     ["inputs", "histories"], "every sequence of definitions, valid or not, within the bounds",
     "Tests try each error once on an otherwise empty lattice.",
     ["cppcore/src/Lattice.cpp", "cppcore/include/Lattice.hpp"],
     [("register_sublattice, register_hopping_energy, add_hopping, add_alias, with_offset", "cppcore/src/Lattice.cpp")],
     ["Lattice"])
prop("C12", "A model depends only on its parameters, not on its history",
     "What a model evaluates to is what a fresh model with the same parameters evaluates to, whatever was added, evaluated, cleared or rejected in between. "
     "A rejected parameter leaves the model unchanged, and results taken earlier are never altered by later changes.",
     ["histories"], "every sequence of add, set, clear and evaluate operations within the bounds",
     "Tests evaluate once after setting everything up.",
     ["cppcore/src/Model.cpp", "cppcore/include/Model.hpp"],
     [("lazy system/hamiltonian caches, clear_*, add", "cppcore/src/Model.cpp")],
     ["Model::system()", "Model::hamiltonian()", "Model::leads()"])
prop("C13", "Leads attach to the system and carry the right blocks",
     "A lead attaches to exactly the outermost sites which its shape covers along the given direction, its unit cell has one site for each of them in a matching order, and its in-cell and inter-cell Hamiltonian blocks are "
     "the lattice's hoppings inside one lead cell and to the next. A lead which would miss the system is rejected, sites added to fill the gap follow the lattice, and the lead stays with its sites when generators and modifiers add, remove or renumber others.",
     ["inputs", "configurations"], "every size of system, set of missing sites, lead direction, width, position and hopping within the bounds",
     "Tests attach two leads to one square.",
     ["cppcore/src/leads/Leads.cpp", "cppcore/src/leads/Structure.cpp", "cppcore/src/leads/Spec.cpp", "cppcore/include/leads/HamiltonianPair.hpp"],
     [("create_attachment_area", "cppcore/src/leads/Leads.cpp"), ("Structure, make_pair", "cppcore/src/leads/Structure.cpp")],
     ["Model::leads()"])
prop("C14", "The optimised KPM matrix is the same operator, relabelled and rescaled",
     "The reordered and scaled matrix used by the kernel polynomial method is the original Hamiltonian with rows and columns permuted and its spectrum shifted and scaled, in either storage format. "
     "Indices translated for it denote the same states, and every state which can contribute to the first n moments is inside the part of the matrix multiplied at step n.",
     ["inputs", "histories"], "every sparse Hermitian pattern, set of source and destination indices, and sequence of re-optimisations within the bounds",
     "Tests check one graphene flake.",
     ["cppcore/src/kpm/OptimizedHamiltonian.cpp", "cppcore/include/kpm/OptimizedHamiltonian.hpp"],
     [("create_reordered, SliceMap, reorder", "cppcore/src/kpm/OptimizedHamiltonian.cpp")],
     ["kpm::OptimizedHamiltonian", "KPM calculations"])
prop("C15", "Sparse kernels compute the product their definition states",
     "The matrix-vector kernels of the kernel polynomial method compute y = A x - y (with the moments of x and y where they fuse those) for the rows they were given and touch no other row, for every storage format, scalar type and row range.",
     ["inputs"], "every sparsity pattern, row range and vector within the bounds",
     "Tests compare one graphene matrix and random vectors.",
     ["cppcore/include/compute/kernel_polynomial.hpp", "cppcore/include/numeric/sparse.hpp", "cppcore/include/numeric/ellmatrix.hpp"],
     [("kpm_spmv, kpm_spmv_diagonal", "cppcore/include/compute/kernel_polynomial.hpp"), ("csr_to_ell", "cppcore/include/numeric/ellmatrix.hpp")],
     ["compute::kpm_spmv"])
prop("C16", "KPM moments are the Chebyshev moments in every algorithm configuration",
     "The computed moments are the matrix elements of the Chebyshev polynomials of the scaled Hamiltonian, for single, multi and full starters, diagonal and off-diagonal. Every combination of matrix format, optimal size and interleaving gives the same values.",
     ["inputs", "configurations"], "every small Hamiltonian, pair of indices, number of moments and algorithm configuration within the bounds",
     "Tests compare one system's Green's function between configurations.",
     ["cppcore/include/kpm/calc_moments.hpp", "cppcore/src/kpm/Moments.cpp", "cppcore/src/kpm/default/Compute.cpp", "cppcore/include/kpm/default/collectors.hpp"],
     [("calc_moments::basic/interleaved/opt_size, collectors", "cppcore/include/kpm/calc_moments.hpp")],
     ["kpm::DefaultCompute::moments"])
prop("C17", "KPM spectra follow from the moments by the kernel expansion",
     "The local density of states, density of states, Green's function and conductivity that KPM reports are the kernel-damped Chebyshev series of the scaled Hamiltonian's moments, evaluated at the scaled energies: "
     "each moment is multiplied by the damping coefficient of its order (of both its orders for the conductivity), the conductivity integrates over its energy samples with the Fermi-Dirac weights of the temperature and chemical potential (a step at zero temperature), "
     "every row or column of a result belongs to the energy and state it stands for, and as many moments are used as the requested broadening needs. This holds for real and complex Hamiltonians of both precisions, with every algorithm configuration, for any values of the moments.",
     ["inputs", "configurations"], "any moments, damping coefficients, energies inside the band and configurations",
     "Tests compare a few curves of a few models with stored ones.",
     ["cppcore/include/kpm/reconstruct.hpp", "cppcore/include/kpm/Kernel.hpp", "cppcore/src/kpm/Kernel.cpp", "cppcore/src/kpm/Core.cpp"],
     [("SpectralDensity, GreensFunction, KuboBastin", "cppcore/include/kpm/reconstruct.hpp"), ("Kernel, jackson/lorentz/dirichlet kernels", "cppcore/src/kpm/Kernel.cpp"), ("Core::ldos, dos, greens_vector, conductivity", "cppcore/src/kpm/Core.cpp")],
     ["KPM::calc_ldos", "KPM::calc_dos", "KPM::calc_greens", "KPM::calc_conductivity"])
prop("C18", "KPM rejects requests it cannot answer and answers all the others",
     "A KPM calculation with an index outside the system, an unknown direction, an unknown sublattice or an invalid configuration is rejected with an error before any computation. "
     "Every valid request gives one value per requested energy and state, for the states asked for and in that order.",
     ["inputs"], "every index, direction string, configuration and list of states within the bounds",
     "Tests pass valid arguments.",
     ["cppcore/src/KPM.cpp", "cppcore/src/kpm/Core.cpp"],
     [("calc_greens, calc_conductivity, calc_spatial_ldos, Core constructor", "cppcore/src/KPM.cpp")],
     ["KPM"])
prop("C19", "Stochastic and batched KPM work visits each starter once",
     "A KPM calculation with many starting vectors visits each of them exactly once, whatever the batch size, and accumulates exactly the average or per-state result of their individual moments. Concatenated results keep the order of the requested states.",
     ["inputs", "configurations"], "every number of starters and batch size within the bounds",
     "Tests use the default batching.",
     ["cppcore/src/kpm/Starter.cpp", "cppcore/src/kpm/Moments.cpp", "cppcore/src/kpm/default/Compute.cpp", "cppcore/include/kpm/default/collectors.hpp"],
     [("Starter, MomentConcatenator, MomentAccumulator, BatchAccumulators", "cppcore/src/kpm/Moments.cpp")],
     ["kpm::Compute::moments", "KPM::calc_spatial_ldos", "KPM::calc_dos"])
prop("C20", "Array views present exactly the data they wrap",
     "Array references, variants, slices and concatenations used to pass data between user code and the library keep element type, shape, order and values for every combination of types. Operations over several arrays pair up matching elements, and mismatched types are refused.",
     ["inputs"], "every element type, length and slice within the bounds",
     "Tests use a few types and sizes.",
     ["cppcore/include/numeric/arrayref.hpp", "cppcore/include/numeric/dense.hpp", "cppcore/include/detail/slice.hpp"],
     [("ArrayRef, arrayref, concat, slice, num::match", "cppcore/include/numeric/arrayref.hpp")],
     ["num::*"])
prop("C21", "Concurrent KPM jobs finish and give the sequential result",
     "Work queued to the KPM thread pool runs each job exactly once and in the collecting order, without data races or deadlock, for every thread interleaving, and the sum does not depend on the schedule.",
     ["schedules"], "every interleaving of producer, workers and collector",
     "A test run sees one schedule.",
     ["cppcore/include/detail/thread.hpp", "cppcore/src/kpm/default/Compute.cpp"],
     [("Queue, ThreadPool", "cppcore/include/detail/thread.hpp")],
     ["kpm::DefaultCompute"])
prop("C22", "Eigenvalues and spectral bounds are those of the Hamiltonian",
     "Solvers return eigenpairs with A v = e v to the requested accuracy, and the automatic spectral bounds of KPM enclose the spectrum.",
     ["inputs"], "every Hamiltonian",
     "Tests compare a handful of matrices.",
     ["cppcore/src/solver/Solver.cpp", "cppcore/include/compute/lanczos.hpp", "cppcore/src/kpm/Bounds.cpp"],
     [("Eigen::SelfAdjointEigenSolver, Lanczos iteration", "cppcore/include/compute/eigen3/lanczos.hpp")],
     ["Solver", "KPM::get_bounds"],
     na="convergence of iterative floating-point eigenvalue algorithms (Eigen's QR iteration, Lanczos from a random vector) is outside what the SMT solver decides over the reals or IEEE values within reach")
prop("C23", "The Python layer passes lattices, shapes and results through unchanged",
     "Objects built with the Python API behave as the C++ ones: parameters reach the core unchanged and results saved to a file load back equal.",
     ["inputs"], "every object of the Python API", "Tests sample.",
     ["pybinding/", "cppmodule/"],
     [("pybind11 bindings", "cppmodule/src/")], ["pybinding"],
     na="the extension module cannot be built here (pybind11 and its submodules are absent), so the Python layer cannot be executed at all, symbolically or otherwise")
prop("C24", "Solver results belong to the current model and add up to its densities",
     "Eigenvalues and eigenvectors read from a solver are those its strategy computed for the current model, whatever sequence of model changes (of any number type and size), solving, clearing and reading came before; they are computed once per model. "
     "A model which cannot be built is rejected and leaves the solver's model and results in step. The density of states is the sum of normalised Gaussians at the eigenvalues, the local one weights them with |psi|^2 of each state of the basis, for any eigenpairs.",
     ["inputs", "histories"], "every sequence of operations and any eigenpairs within the bounds",
     "Tests solve one model each.",
     ["cppcore/src/solver/Solver.cpp", "cppcore/include/solver/Solver.hpp", "cppcore/include/detail/strategy.hpp"],
     [("BaseSolver::set_model, solve, calc_dos, calc_spatial_ldos", "cppcore/src/solver/Solver.cpp"), ("MakeStrategy", "cppcore/include/detail/strategy.hpp")],
     ["Solver"])
