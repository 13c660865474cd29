#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": ["cppcore/" + f if not f.startswith("pybinding") else f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Lattice definitions: valid ones are recorded, invalid ones change nothing",
 "Every sequence of lattice-definition calls (sublattices, aliases, hopping energies, hoppings, origin offset) is accepted exactly when it satisfies the documented rules: non-blank unique names, square Hermitian or upper-triangular onsite matrices with a real diagonal, hopping matrices that fit the orbitals at both ends, no self-hopping within a cell, no term that repeats an existing one directly or as its Hermitian conjugate, and an origin that stays within about half a primitive vector. A rejected call reports an error and leaves the definition exactly as it was; accepted data reads back unchanged, with upper-triangular onsite matrices completed to Hermitian ones and anonymous hoppings of equal energy sharing one family.",
 ["inputs", "histories"], "all call sequences over 1D/2D/3D lattices mixing valid and invalid arguments, scalar and matrix energies, aliases and named or anonymous hopping families",
 "The unit tests make about a dozen single invalid calls; acceptance depends on the whole history of earlier calls and on matrix shapes they never combine.",
 ["src/Lattice.cpp", "include/Lattice.hpp", "src/system/Registry.cpp"],
 [("argument validation", "Lattice.cpp:Lattice::add_sublattice/add_alias/register_hopping_energy/add_hopping/set_offset"),
  ("conjugate-aware duplicate detection", "Lattice.hpp:HoppingTerm::operator=="),
  ("energy canonicalisation and checks", "Registry.cpp:detail::check_*/canonical_*")],
 ["Lattice getters", "exceptions", "SiteRegistry/HoppingRegistry made from the lattice"])

prop("C02", "The sites of a finite system are exactly those the lattice and shape ask for",
 "A primitive system contains every sublattice of exactly the requested block of unit cells and nothing else. A system cut to a shape contains exactly the lattice sites whose position lies inside the shape, minus those lost by the dangling-site rule: starting from the sites missing next to them, sites left with fewer neighbours than the lattice minimum are removed until none is left to remove. Every site is listed once, at origin + integer combination of the primitive vectors + sublattice offset, sites of one family are contiguous, and an empty result is reported as an error.",
 ["inputs", "configurations"], "all lattices (1-3D, skewed, multi-sublattice, multi-orbital, with aliases, any origin offset and minimum neighbour count), all primitive sizes and all shapes",
 "The tests build four fixture lattices and count sites in a few shapes; the site set is a geometric fixed point that depends on every coordinate.",
 ["src/system/Foundation.cpp", "include/system/Foundation.hpp", "src/system/System.cpp", "src/Model.cpp", "src/system/Shape.cpp"],
 [("bounding box of unit cells", "Foundation.cpp:detail::find_bounds"),
  ("position generation", "Foundation.cpp:detail::generate_positions"),
  ("dangling removal cascade", "Foundation.cpp:remove_dangling/clear_neighbors"),
  ("final index assignment", "Foundation.cpp:Foundation::get_finalized_indices"),
  ("copy into the system", "System.cpp:detail::populate_system")],
 ["System positions", "System sublattice blocks"])

prop("C03", "Every lattice bond between two existing sites appears exactly once",
 "For every hopping term of the lattice and every pair of sites of the finished finite system which that term connects, the system lists the connection exactly once, under the right hopping family and oriented from the term's source to its destination. It lists no other connection.",
 ["inputs", "configurations"], "all lattices, hopping ranges (including bonds that skip cells), shapes, primitive sizes and vacancy patterns",
 "Tests compare total non-zero counts for nearest-neighbour fixtures; they cannot see swapped families, directions or partners, nor longer-ranged bonds.",
 ["src/system/System.cpp", "include/system/Foundation.hpp", "src/Lattice.cpp", "src/system/HoppingBlocks.cpp"],
 [("neighbour enumeration", "Foundation.hpp:Site::for_each_neighbor"),
  ("unit cell with conjugate terms", "Lattice.cpp:OptimizedUnitCell::OptimizedUnitCell"),
  ("hopping block fill", "System.cpp:detail::populate_system")],
 ["System hopping blocks"])

prop("C04", "The Hamiltonian is the tight-binding matrix of the system and is Hermitian",
 "The Hamiltonian of a model without user modifiers equals, entry by entry and orbital by orbital, the matrix obtained by placing each family's onsite matrix at its sites and each hopping matrix, with its conjugate transpose on the opposite side, at every connected pair. It is square, Hermitian, has no duplicate or out-of-range entries, and any model whose matrix would contain NaN or infinity is refused with an error.",
 ["inputs", "configurations"], "all lattices with scalar, diagonal, triangular or Hermitian onsite terms, rectangular complex hopping matrices and any mix of orbital counts, in any finite system",
 "Fixture tests check a handful of entries for one multi-orbital lattice; index translation depends on the number of sites and orbitals of every family.",
 ["include/hamiltonian/Hamiltonian.hpp", "include/hamiltonian/HamiltonianModifiers.hpp", "src/hamiltonian/Hamiltonian.cpp", "src/system/CompressedSublattices.cpp", "src/system/System.cpp"],
 [("matrix assembly", "Hamiltonian.hpp:detail::build_main"),
  ("site-to-orbital index translation", "HamiltonianModifiers.hpp:IndexTranslator"),
  ("NaN/INF check", "Hamiltonian.hpp:detail::throw_if_invalid")],
 ["Model::hamiltonian()"])

prop("C05", "Shapes contain exactly their geometric interior and always get enough lattice",
 "A polygon contains exactly the points of its interior (even-odd rule, whatever the vertex order, orientation or concavity), a line exactly the points that project between its ends (a line of no length contains nothing), and a freeform shape exactly what its function accepts. The block of unit cells generated for a shape covers the whole bounding region of that shape, so no lattice site within it can be missed, for any skew of the primitive vectors and any position of the shape relative to the lattice origin.",
 ["inputs"], "all simple polygons, lines and freeform boxes anywhere in space, and all query points not numerically on the boundary; all non-degenerate primitive vectors",
 "Tests check one trapezoid-like polygon and one line at a few points; coverage depends on the inverse of the lattice matrix and rounding direction in every quadrant.",
 ["src/system/Shape.cpp", "include/system/Shape.hpp", "src/system/Foundation.cpp", "src/Lattice.cpp"],
 [("point in polygon", "Shape.cpp:detail::WithinPolygon"), ("line containment", "Shape.cpp:detail::is_acute_angle"),
  ("bounding box in lattice coordinates", "Foundation.cpp:detail::find_bounds"), ("Cartesian to lattice coordinates", "Lattice.cpp:Lattice::translate_coordinates")],
 ["Shape::contains", "System positions of shaped models"])

prop("C06", "Periodic systems have the Bloch Hamiltonian of the infinite lattice",
 "With translational symmetry the system is one period of the structure, and the Hamiltonian at wave vector k equals the sum over all periodic images of the bonds that leave the period, each carrying the phase exp(i k.R) of the translation it crosses. It is Hermitian for every k, is unchanged when k moves by a reciprocal vector of the period, and the spectrum of an n-fold supercell at k equals the union of the primitive-cell spectra at the folded wave vectors.",
 ["inputs", "configurations"], "all lattices, all subsets of periodic directions, all period lengths and all wave vectors, for primitive and shaped (ribbon) systems",
 "Tests check boundary counts for a few symmetric fixtures at k=0 and never compare a spectrum with the infinite crystal.",
 ["src/system/Symmetry.cpp", "src/system/System.cpp", "include/hamiltonian/Hamiltonian.hpp"],
 [("period selection", "Symmetry.cpp:TranslationalSymmetry::area/apply"), ("translation directions", "Symmetry.cpp:TranslationalSymmetry::translations"),
  ("boundary hoppings", "System.cpp:detail::populate_boundaries"), ("Bloch phases", "Hamiltonian.hpp:detail::build_periodic")],
 ["Model::hamiltonian() for many k", "System boundaries"])

prop("C07", "Structure modifiers see true data and remove or move exactly what they ask",
 "Each site-state and position modifier is called, in the order added, with every site of each family exactly once together with that site's true current state, position and family name. Afterwards the system holds exactly the sites left valid (after the requested minimum-neighbour clean-up), at exactly the positions written, and the bonds between surviving sites are exactly those of the unmodified structure; everything else is untouched.",
 ["inputs", "histories", "configurations"], "all sequences of state and position modifiers with any minimum-neighbour value on any shape, primitive or periodic system",
 "Tests apply one or two fixed modifiers to tiny systems and check a count or coordinate.",
 ["src/system/StructureModifiers.cpp", "include/system/StructureModifiers.hpp", "src/Model.cpp", "src/system/Foundation.cpp"],
 [("apply to foundation", "StructureModifiers.cpp:apply(SiteStateModifier, Foundation)/apply(PositionModifier, Foundation)"),
  ("order and split at first generator", "Model.cpp:Model::make_system"), ("dangling clean-up", "Foundation.cpp:remove_dangling")],
 ["modifier callback arguments", "System positions and hopping blocks"])

prop("C08", "Energy modifiers act on every matching term exactly once with its own positions",
 "Each onsite modifier is given every site exactly once and each hopping modifier every bond exactly once (periodic images included), with the family name, current energies and the true positions of the sites involved, and modifiers compose in the order they were added. The Hamiltonian equals the unmodified tight-binding one with those functions applied element by element, Hermitian conjugates following automatically, independent of system size or of how the work is batched internally.",
 ["inputs", "configurations", "histories"], "all element-wise real or complex modifier functions and their compositions, over systems from one site to hundreds of thousands of bonds, single- and multi-orbital, finite and periodic",
 "Tests use systems of a few sites, so internal batching, multi-orbital layouts and periodic position shifts are hardly reached.",
 ["include/hamiltonian/HamiltonianModifiers.hpp", "src/hamiltonian/HamiltonianModifiers.cpp", "include/hamiltonian/Hamiltonian.hpp", "include/numeric/arrayref.hpp"],
 [("onsite application", "HamiltonianModifiers.hpp:HamiltonianModifiers::apply_to_onsite"), ("hopping application and buffering", "HamiltonianModifiers.hpp:apply_to_hoppings_impl/HoppingBuffer"),
  ("chunked iteration", "include/detail/slice.hpp / detail/algorithm.hpp:sliced")],
 ["modifier callback arguments", "Model::hamiltonian()"])

prop("C09", "The number type follows the model's needs and never changes the result",
 "The Hamiltonian is complex exactly when something requires it (complex onsite or hopping terms, periodicity, a modifier declared complex, or one that asks for complex values while being evaluated) and double precision exactly when a modifier declares it. The four number types give the same matrix up to the precision of the type, and switching type never drops, repeats or alters the effect of any modifier.",
 ["inputs", "configurations", "histories"], "all combinations of lattices, symmetry and modifiers with any precision/complex declarations, including dynamic complex requests at any point of the evaluation",
 "Tests check the type flags of a few models but never that all number types agree on the matrix, nor a complex request in the middle of a build.",
 ["src/Model.cpp", "include/hamiltonian/Hamiltonian.hpp", "src/hamiltonian/Hamiltonian.cpp", "include/numeric/traits.hpp", "src/system/Registry.cpp"],
 [("type selection and retry", "Model.cpp:Model::make_hamiltonian/is_complex/is_double"), ("complex detection", "Registry.cpp:Registry::any_complex_terms"), ("conversions", "numeric/traits.hpp:num::force_cast")],
 ["Hamiltonian scalar type", "matrix values"])

prop("C10", "Generated sites and hoppings extend the system without disturbing it",
 "A site generator adds exactly the returned positions as a new named family with the given onsite energy, and a hopping generator adds each returned pair exactly once (duplicates and reversed repeats collapse) with the given energy and its conjugate. Generators and modifiers run in the order added, each seeing the result of the previous ones, existing sites and bonds are preserved, mismatched index lists are refused, and the Hamiltonian contains the sum of all contributions.",
 ["inputs", "histories", "configurations"], "all interleavings of generators with state and position modifiers, with any number of generated elements, on finite and periodic systems",
 "Tests run one or two generators with constant output; removal of sites between generators and repeated pairs are not exercised.",
 ["src/system/StructureModifiers.cpp", "src/system/HoppingBlocks.cpp", "src/system/CompressedSublattices.cpp", "src/system/System.cpp", "src/Model.cpp"],
 [("generator application", "StructureModifiers.cpp:apply(SiteGenerator/HoppingGenerator, System)"), ("deferred removal of invalid sites", "System.cpp:detail::remove_invalid"),
  ("pair normalisation", "HoppingBlocks.cpp:HoppingBlocks::append"), ("summing build", "Hamiltonian.hpp:detail::build_main (triplets)")],
 ["generator callback argument", "System", "Model::hamiltonian()"])

prop("C11", "A model's results depend only on its final definition, not on evaluation history",
 "After any sequence of additions, parameter changes, evaluations and failed evaluations, the structure, Hamiltonian and leads returned by a model equal those of a fresh model given the same definition in the same order. Results handed out earlier never change afterwards, repeated evaluation returns the same data, and an error in one evaluation leaves the model usable once the cause is gone.",
 ["histories"], "all interleavings of add / set / evaluate / failing-callback steps on a model",
 "Tests evaluate a model once or twice in a fixed order; stale caches only show for particular interleavings.",
 ["src/Model.cpp", "include/Model.hpp", "src/leads/Leads.cpp"],
 [("lazy evaluation and cache invalidation", "Model.cpp:Model::system/hamiltonian/leads/clear_structure/clear_hamiltonian"), ("lead caches", "Leads.cpp:make_structure/make_hamiltonian/clear_*")],
 ["Model::system()", "Model::hamiltonian()", "Model::leads()"])

prop("C12", "Site indices, family ranges and orbital indices are mutually consistent",
 "For every system, the family ranges partition the sites, each site's orbital indices are contiguous, disjoint and together cover the Hamiltonian rows in order, the per-orbital positions repeat each site's position for its orbitals, and the predicted non-zero count bounds the real one. A nearest-site query returns a site of the requested family (or of any family) at minimal distance, and unknown family names are refused.",
 ["inputs", "configurations"], "all systems (single/multi-orbital, aliases, generators, vacancies) and all query positions and names",
 "Tests query a few positions on small systems; the index maps interact with orbital counts, aliases and filtering.",
 ["src/system/System.cpp", "src/system/CompressedSublattices.cpp", "include/system/CompressedSublattices.hpp", "src/system/Registry.cpp"],
 [("index expansion", "System.cpp:System::to_hamiltonian_indices/expanded_positions"), ("ranges", "System.cpp:System::sublattice_range"), ("nearest site", "System.cpp:System::find_nearest"), ("size prediction", "System.cpp:System::hamiltonian_size/hamiltonian_nnz")],
 ["System queries"])

prop("C13", "Leads attach to real edge sites and extend the structure lattice-periodically",
 "An attached lead consists of one unit-cell layer of the lattice cut by the lead shape, shifted one primitive vector outwards along the lead direction; its index list maps each lead site, in order and without repetition, to the existing system site of the same family directly beneath it. The main system is filled in along the lead's path so that every lead site has a partner, otherwise untouched; bonds inside the layer are the lattice bonds, and invalid directions or shapes that miss the structure are refused.",
 ["inputs", "configurations"], "all 2D/3D lattices, directions, lead shapes and main shapes, with one or several leads and with vacancies",
 "Tests attach leads to two square-lattice fixtures and graphene; which layer is filled depends on where every lead column first meets the structure.",
 ["src/leads/Spec.cpp", "src/leads/Structure.cpp", "src/leads/Leads.cpp", "src/Model.cpp"],
 [("attachment layer and fill-in", "Spec.cpp:create_attachment_area/attachment_slice/Junction"), ("lead structure", "Structure.cpp:Structure::Structure")],
 ["Lead::indices", "Lead::system", "System positions"])

prop("C14", "Lead Hamiltonians describe the infinite periodic continuation",
 "The onsite block of a lead is the Hermitian Hamiltonian of one isolated lead layer, and the coupling block holds every lattice bond between one layer and the next one inwards, with correct value, orientation and conjugation. User energy modifiers act on both with the lead sites' true positions, and the number type matches the main Hamiltonian.",
 ["inputs", "configurations"], "all lattices, real and complex, single- and multi-orbital energies, modifiers, directions and lead shapes",
 "Tests compare a few entries for real scalar lattices, where orientation and conjugation errors are invisible.",
 ["src/leads/Structure.cpp", "include/leads/HamiltonianPair.hpp", "src/leads/Leads.cpp", "include/hamiltonian/HamiltonianModifiers.hpp"],
 [("coupling bonds", "Structure.cpp:Structure::Structure (boundary)"), ("lead matrices", "HamiltonianPair.hpp:detail::make_h0/make_h1")],
 ["Lead::h0", "Lead::h1"])

prop("C15", "Site and bond containers behave as the lists they compress",
 "The run-length encoded family list and the per-family bond lists behave, under any sequence of add, append, filter, extend and export/import operations, exactly like plain uncompressed lists: same decompressed families, orbital offsets, neighbour counts, sparse matrix and non-zero count. Filtering keeps exactly the elements whose sites survive and renumbers them, exporting and re-importing reproduces the container, and inconsistent data is refused.",
 ["histories", "inputs"], "all operation sequences on both containers",
 "Tests run one short fixed sequence per container; renumbering and merging bugs need particular combinations.",
 ["src/system/HoppingBlocks.cpp", "include/system/HoppingBlocks.hpp", "src/system/CompressedSublattices.cpp", "include/system/CompressedSublattices.hpp"],
 [("bond lists", "HoppingBlocks.cpp"), ("run-length families", "CompressedSublattices.cpp")],
 ["container getters"])

prop("C16", "Sparse and array utilities agree with their dense definitions",
 "Row loops, index-limited loops, buffered loops, direct row-by-row construction, row-width counting, conversion to the padded column layout, array slicing, concatenation, chunked views and tridiagonal eigenvalues give exactly what the dense definition of the operation gives, and every element is visited exactly once. This holds for every scalar type, empty rows, rectangular matrices and any range or chunk size.",
 ["inputs"], "all sparse matrices (any pattern, including empty rows and columns), scalar types, ranges, chunk and buffer sizes",
 "Tests check one 3x3 matrix and one small slice.",
 ["include/numeric/sparse.hpp", "include/numeric/sparseref.hpp", "include/numeric/ellmatrix.hpp", "include/numeric/dense.hpp", "include/numeric/arrayref.hpp", "include/detail/algorithm.hpp", "include/compute/eigen3/lanczos.hpp"],
 [("sparse loops", "numeric/sparse.hpp:sparse::Loop"), ("ELL conversion", "numeric/ellmatrix.hpp:csr_to_ell"), ("slice/concat", "numeric/dense.hpp"), ("chunked view", "detail/algorithm.hpp:sliced"), ("tridiagonal eigenvalues", "compute/eigen3/lanczos.hpp")],
 ["utility results"])

prop("C17", "All kernel-polynomial configurations compute the exact Chebyshev moments",
 "For every Hermitian Hamiltonian, starting vector and target set, the moments produced by the kernel polynomial engine equal the Chebyshev matrix elements of the rescaled Hamiltonian. Matrix storage format, reordering and size optimisation, interleaving, vectorised or generic code path, batching and number of threads change the result by no more than rounding.",
 ["inputs", "configurations"], "all sparse Hermitian matrices (including disconnected ones), four scalar types, all algorithm and storage configurations, all moment counts and row/column targets",
 "The moment tests need a missing SIMD library and are not built here; even so they sample two Hamiltonians at fixed sizes.",
 ["include/compute/kernel_polynomial.hpp", "include/kpm/calc_moments.hpp", "include/kpm/OptimizedHamiltonian.hpp", "src/kpm/OptimizedHamiltonian.cpp", "src/kpm/default/Compute.cpp", "src/kpm/default/collectors.cpp", "include/support/simd.hpp"],
 [("recursion kernels", "compute/kernel_polynomial.hpp"), ("recursion drivers", "kpm/calc_moments.hpp"), ("reordering and size limits", "OptimizedHamiltonian.cpp"), ("collection", "default/collectors.cpp")],
 ["Core results", "collector moments"])

prop("C18", "Spectral functions equal their definition on the exact spectrum",
 "Local density of states, total density of states and Green's functions returned for any sites, energies, broadening and kernel equal the kernel-damped Chebyshev expansion of the exact quantity of the supplied Hamiltonian, in the unscaled energy units the caller used. Stochastic quantities use exactly the requested number of random vectors, are reproducible, and invalid sites are refused.",
 ["inputs", "configurations"], "all Hermitian matrices, kernels (Jackson, Lorentz, Dirichlet), energy grids, broadenings, index sets, spectral-bound settings and seeds",
 "Tests compare a few stored reference curves and are not built here.",
 ["src/KPM.cpp", "src/kpm/Core.cpp", "src/kpm/Kernel.cpp", "include/kpm/reconstruct.hpp", "src/kpm/Moments.cpp", "src/kpm/Starter.cpp", "include/kpm/Kernel.hpp"],
 [("interface", "Core.cpp"), ("kernel damping", "Kernel.cpp"), ("reconstruction", "reconstruct.hpp"), ("moment views", "Moments.cpp"), ("starting vectors", "Starter.cpp")],
 ["kpm::Core results", "KPM results"])

prop("C19", "Spectral bounds enclose the spectrum and scaling uses them faithfully",
 "The automatically computed energy bounds converge to the extreme eigenvalues of the Hamiltonian (those whose states are represented in the iteration's start vector) within the requested precision, user-given bounds are used as given, and the scaled Hamiltonian has all eigenvalues within [-1, 1]. Scaling and unscaling of energies are inverse to each other, and the bounds follow every change of the Hamiltonian.",
 ["inputs", "histories"], "all Hermitian sparse matrices of non-degenerate extent, precisions, scalar types and sequences of Hamiltonian changes",
 "A single fixed matrix is tested, in a test that cannot be built here.",
 ["include/compute/lanczos.hpp", "include/compute/eigen3/lanczos.hpp", "src/kpm/Bounds.cpp", "include/kpm/Bounds.hpp", "src/kpm/Core.cpp"],
 [("Lanczos iteration", "compute/lanczos.hpp:minmax_eigenvalues"), ("scaling factors", "kpm/Bounds.hpp:Scale"), ("bounds cache", "kpm/Bounds.cpp")],
 ["Core::scaling_factors", "rescaled energies"])

prop("C20", "Conductivity equals the Kubo-Bastin trace over the supplied random vectors",
 "The conductivity for any pair of directions equals the Kubo-Bastin expression evaluated with the exact double Chebyshev moments of the Hamiltonian and of the velocity operators built from the site positions, for the random vectors actually used, temperature, chemical potentials and grid requested. It does not depend on matrix format, reordering, vectorised path or threads, and invalid directions are refused.",
 ["inputs", "configurations"], "all Hamiltonians with positions, direction pairs, temperatures, moment and sample counts, and configurations",
 "No built test computes a conductivity.",
 ["src/kpm/Core.cpp", "src/kpm/Moments.cpp", "include/kpm/reconstruct.hpp", "src/kpm/default/collectors.cpp", "src/kpm/OptimizedHamiltonian.cpp"],
 [("velocity operators", "OptimizedHamiltonian.cpp / default/Compute.cpp"), ("double moments", "Moments.cpp:DenseMatrixMoments / collectors.cpp"), ("reconstruction", "reconstruct.hpp:KuboBastin")],
 ["Core::conductivity"])

prop("C21", "Eigen-solver results derived from a model are exact and never stale",
 "The density of states and local densities derived from eigenvalues and eigenvectors equal the Gaussian-broadened sums over the eigenpairs of the current model, the local ones for every index of the Hamiltonian. Solving happens once per model, and changing the model or clearing the solver always leads to results of the new model.",
 ["inputs", "histories"], "all spectra, broadenings, energy grids and all interleavings of model changes, solving and queries",
 "No stable test exercises a solver because all concrete back ends are optional.",
 ["src/solver/Solver.cpp", "include/solver/Solver.hpp", "include/detail/strategy.hpp"],
 [("solve-once caching", "Solver.cpp:BaseSolver::solve/set_model/clear"), ("broadened sums", "Solver.cpp:calc_dos/calc_spatial_ldos")],
 ["BaseSolver results"])

prop("C22", "The worker pool processes every job exactly once and always finishes",
 "Every job produced is computed exactly once and every result retired exactly once before the call returns, for any number of jobs, worker threads and queue capacity and however long each step takes. Results of one worker are retired in order, the queue never exceeds its capacity, and no execution deadlocks or accesses shared data without synchronisation.",
 ["schedules", "inputs", "configurations"], "all thread interleavings, job counts (including none), worker counts, queue sizes and step durations",
 "One untimed test pushes a fixed number of jobs; it is not built here and unit tests cannot enumerate schedules.",
 ["include/detail/thread.hpp"],
 [("bounded queue", "detail/thread.hpp:Queue/QueueGuard"), ("pipeline", "detail/thread.hpp:parallel_for"), ("pool", "detail/thread.hpp:ThreadPool")],
 ["job and result events"])

prop("C23", "Threaded kernel-polynomial runs are race free, complete and match serial runs",
 "A calculation over many random vectors or target sites gives the serial result up to summation-order rounding for any number of threads. Every vector is started and collected exactly once, progress reports are complete and consistent, and no data race occurs.",
 ["schedules", "configurations"], "all thread counts, interleavings, vector counts not divisible by the batch size, and matrix formats",
 "Needs concurrency and an instrumented build; unit tests run at most one schedule.",
 ["src/kpm/default/Compute.cpp", "src/kpm/Starter.cpp", "src/kpm/default/collectors.cpp", "include/detail/thread.hpp"],
 [("parallel moment loop", "default/Compute.cpp"), ("locked starter", "kpm/Starter.hpp/.cpp"), ("locked collector", "default/collectors.hpp/.cpp")],
 ["Core results", "progress callback", "ThreadSanitizer"])

prop("C24", "No valid or refused use of the library touches invalid memory or is undefined",
 "Building, evaluating, querying and solving models of any size and kind, including inputs that are refused with an error, never reads or writes outside the objects involved, uses freed or uninitialised memory, leaks, overflows or relies on undefined behaviour.",
 ["inputs", "histories", "configurations"], "all sequences of public calls with arguments within the documented types, including hostile ones that must be refused",
 "Unit tests run without instrumentation, so an out-of-bounds access that lands in mapped memory passes.",
 ["src/Model.cpp", "src/Lattice.cpp", "src/system/Foundation.cpp", "src/system/System.cpp", "src/leads/Structure.cpp", "src/kpm/OptimizedHamiltonian.cpp", "include/numeric/arrayref.hpp", "include/numeric/sparse.hpp"],
 [("bounds and validity checks", "all public entry points")],
 ["AddressSanitizer", "UndefinedBehaviorSanitizer", "valgrind"])

prop("C25", "Data handed out by the Python package stays valid and unchanged",
 "Arrays, matrices, structures and other objects obtained from a model, system, lattice, solver or KPM object remain readable and keep their values after the object they came from is changed, re-evaluated, replaced or deleted. No later call makes them refer to freed memory.",
 ["histories", "inputs"], "all sequences of building, querying, changing and deleting objects through the Python interface",
 "A dangling view usually still shows the old values in a unit test; only instrumented memory and long histories reveal it.",
 ["cppmodule/src/model.cpp", "cppmodule/src/system.cpp", "cppmodule/src/lattice.cpp", "cppmodule/src/leads.cpp", "cppmodule/src/kpm.cpp", "cppmodule/src/solver.cpp", "cppmodule/include/cast.hpp", "pybinding/model.py", "pybinding/lattice.py", "pybinding/system.py"],
 [("bindings and their lifetimes", "cppmodule/src/*.cpp"), ("views of native data", "cppmodule/include/cast.hpp, cppmodule/include/numeric"), ("Python wrappers", "pybinding/model.py, system.py, lattice.py, support/structure.py")],
 ["AddressSanitizer shadow of kept arrays", "values of kept arrays"])

prop("C26", "Python modifiers and generators do exactly what their function says",
 "A modifier or generator written in Python changes the structure and the Hamiltonian by exactly what its function returns, whichever subset and order of arguments it asks for, whatever the memory layout, number type and broadcastable shape of its result, and for single and multi-orbital models. Results which don't fit are refused with an error and never misread.",
 ["inputs", "configurations"], "all argument subsets, result layouts, types and shapes, lattices, shapes, symmetries and combinations of modifiers",
 "Unit tests call a few modifiers with contiguous arrays; strided, transposed, broadcast or narrower results take other paths.",
 ["pybinding/modifier.py", "cppmodule/src/modifiers.cpp", "cppmodule/include/cast.hpp", "cppcore/src/hamiltonian/HamiltonianModifiers.cpp", "cppcore/src/system/StructureModifiers.cpp"],
 [("argument and result handling", "pybinding/modifier.py"), ("native side", "cppmodule/src/modifiers.cpp"), ("application", "cppcore/include/hamiltonian/HamiltonianModifiers.hpp")],
 ["Model.hamiltonian", "System"])

prop("C27", "Structures, maps and results keep their parts together when they are sliced",
 "Indexing, masking, cropping, clipping, reducing, mirroring and interpolating a structure, spatial map, sweep, path or series keeps exactly the selected entries, with every site, hopping, data value, coordinate and label still belonging to each other, and leaves the original unchanged.",
 ["inputs", "histories"], "all structures and result objects, index kinds (numbers, slices, masks, lists, empty selections) and chains of operations",
 "Unit tests index one or two fixed graphene flakes; misaligned parts show for particular selections only.",
 ["pybinding/support/structure.py", "pybinding/results.py", "pybinding/system.py", "pybinding/support/alias.py"],
 [("slicing of structures", "support/structure.py, system.py"), ("results", "results.py"), ("names of sublattices and hoppings", "support/alias.py")],
 ["structures and results returned"])

prop("C28", "What is pickled, saved or copied comes back equal, usable and independent",
 "Lattices, systems, structures, maps and results written with pickle, save() or copy and read back have the same values in every field, behave the same when used, and share nothing with the original: changing one never changes the other. Files written before format changes remain readable.",
 ["inputs", "histories", "configurations"], "all lattices, systems, slices and results, pickle protocols, file names and copy functions",
 "Unit tests round-trip a few objects and compare a few attributes.",
 ["pybinding/support/pickle.py", "cppmodule/src/lattice.cpp", "cppmodule/src/system.cpp", "pybinding/results.py", "pybinding/lattice.py"],
 [("save and load", "pybinding/support/pickle.py"), ("native state", "cppmodule/src/lattice.cpp, system.cpp"), ("results", "pybinding/results.py")],
 ["restored objects", "models built from restored lattices"])

prop("C29", "Python solvers return eigenpairs of the current model and true derived values",
 "Eigenvalues and eigenvectors from the LAPACK and ARPACK solvers belong to the Hamiltonian of the model as it is now, sorted and normalised, and probability, degeneracy, DOS, LDOS, spatial LDOS, bands of models and of leads, and the exported kwant system follow from them as defined, with Hamiltonian rows assigned to the right sites for any number of orbitals.",
 ["inputs", "histories"], "all models, orbitals, wave vectors, and orders of queries, model changes and clears",
 "Unit tests compare stored spectra of one graphene model with one orbital per site.",
 ["pybinding/solver.py", "pybinding/leads.py", "pybinding/support/kwant.py", "cppcore/src/solver/Solver.cpp", "cppmodule/src/solver.cpp"],
 [("solvers", "pybinding/solver.py"), ("leads", "pybinding/leads.py"), ("kwant view", "pybinding/support/kwant.py")],
 ["Solver results", "Lead.calc_bands", "kwant system"])

prop("C30", "Parallelised functions and sweeps give the results of a plain loop, once each",
 "A function run over a sequence by parallel_for, sweep or ndsweep is called once per point in order, and each result ends up once at its own place with the values a plain loop gives, for any number of threads, queue size and duration. Hooks, saved files and printed output follow, an error at any stage reaches the caller, and the standard streams are restored.",
 ["schedules", "inputs", "configurations"], "all thread counts, queue sizes, schedules, sweep shapes, hooks and points of failure",
 "Two unit tests compare one sweep each with stored data; ordering, reference counting and failures on threads aren't tested.",
 ["pybinding/parallel.py", "cppmodule/src/parallel.cpp", "cppmodule/include/thread.hpp", "cppcore/include/detail/thread.hpp", "pybinding/utils/progressbar.py"],
 [("loops, hooks, files", "pybinding/parallel.py"), ("threads and the GIL", "cppmodule/src/parallel.cpp"), ("output", "pybinding/utils/progressbar.py")],
 ["calls and results of the function", "files", "output streams", "reference counts"])

prop("C31", "The Python KPM interface returns the expansion of the current model as asked",
 "LDOS, spatial LDOS, DOS, Green's functions, moments and conductivity from a KPM object equal the kernel-damped Chebyshev expansion of the Hamiltonian of its current model, for the sites, sublattice, energies, broadening, range, kernel, direction and volume asked for, with sites and data in the same order, progress reports complete, and a silent object printing nothing.",
 ["inputs", "histories", "configurations"], "all models (any orbitals, complex, periodic), options, kernels, queries and model changes",
 "Unit tests compare stored curves of graphene for a few options.",
 ["pybinding/chebyshev.py", "cppmodule/src/kpm.cpp", "cppcore/src/KPM.cpp", "cppcore/src/kpm/Core.cpp"],
 [("Python interface", "pybinding/chebyshev.py"), ("bindings", "cppmodule/src/kpm.cpp"), ("sites and models", "cppcore/src/KPM.cpp")],
 ["returned series and maps", "progress reports", "output streams"])

prop("C32", "Shapes composed and moved in Python contain exactly the points of the set",
 "contains() of any union, intersection, difference, symmetric difference and translation of shapes is the set operation applied to the parts, at every point and for every number of dimensions, and a model built from such a shape holds exactly the lattice sites inside it.",
 ["inputs"], "all primitive shapes, nested compositions, translations and lattices",
 "Unit tests check a few shapes against stored images and counts.",
 ["pybinding/shape.py", "cppmodule/src/shape.cpp", "cppcore/src/system/Shape.cpp", "cppcore/src/system/Foundation.cpp"],
 [("composite shapes", "pybinding/shape.py"), ("primitive shapes", "cppcore/src/system/Shape.cpp"), ("building from a shape", "cppcore/src/system/Foundation.cpp")],
 ["contains()", "sites of the model"])

prop("C33", "A Python Lattice holds what it was given and derives true reciprocal geometry",
 "A Lattice reports the vectors, sublattices, aliases, hopping terms, energies, offset and neighbor limit given to it, however they are spelled and in whatever order they are added; a call which is refused changes nothing and copies are independent; its reciprocal vectors are dual to the primitive vectors, and the Brillouin zone holds exactly the wave vectors nearest to the origin.",
 ["inputs", "histories"], "all definition sequences (names, matrices, aliases, invalid calls, copies) and primitive vectors, skewed ones included",
 "Unit tests define a few lattices and compare the Brillouin zones of a chain, a square and graphene.",
 ["pybinding/lattice.py", "cppmodule/src/lattice.cpp", "cppcore/src/Lattice.cpp"],
 [("definitions and geometry", "pybinding/lattice.py"), ("bindings", "cppmodule/src/lattice.cpp"), ("storage", "cppcore/src/Lattice.cpp")],
 ["Lattice properties", "reciprocal vectors", "Brillouin zone vertices", "plot radius"])

prop("C34", "Selecting by name picks exactly the sites and hoppings which have that name",
 "Comparing sublattice or hopping ids with a name (also in masks, slices, copies, sparse matrices, modifiers, 'A|1' split names and saved models) selects exactly the elements registered under that name or, for a split name, under its first part; unknown names select nothing, numbers compare as numbers, and sets of positions treat equal positions as one within the tolerance.",
 ["inputs", "histories"], "all id maps, array shapes, slices, matrix formats, names, tolerances and models",
 "Unit tests check a few small arrays with two names.",
 ["pybinding/support/alias.py", "pybinding/support/fuzzy_set.py", "cppmodule/src/modifiers.cpp", "cppmodule/src/system.cpp", "pybinding/system.py", "pybinding/modifier.py"],
 [("named arrays and matrices", "pybinding/support/alias.py"), ("sets of positions", "pybinding/support/fuzzy_set.py"), ("names in modifiers", "cppmodule/src/modifiers.cpp"), ("ids of systems", "pybinding/system.py")],
 ["results of comparisons and selections", "arguments of modifiers"])

prop("C35", "The material repository and ready-made modifiers give the published models",
 "The lattices of the repository have the published geometry, energies and band structures for every parameter (graphene in all its unit cells and stackings, phosphorene, the MX2 monolayers, the examples), different unit cells of a material describe the same crystal, and its shapes and modifiers (mass, Coulomb, magnetic and strain fields, bumps) give the stated energies, fluxes and positions at every site.",
 ["inputs"], "all parameters, materials, wave vectors, system sizes and field strengths",
 "Unit tests compare a few structures with stored data; band structures and fields aren't compared with formulas.",
 ["pybinding/repository/graphene/lattice.py", "pybinding/repository/graphene/modifiers.py", "pybinding/repository/graphene/shape.py", "pybinding/repository/graphene/utils.py",
  "pybinding/repository/group6_tmd.py", "pybinding/repository/phosphorene.py", "pybinding/repository/examples.py", "pybinding/constants.py"],
 [("graphene", "pybinding/repository/graphene/lattice.py"), ("fields and strain", "pybinding/repository/graphene/modifiers.py"), ("MX2", "pybinding/repository/group6_tmd.py"), ("phosphorene", "pybinding/repository/phosphorene.py")],
 ["band energies", "Hamiltonian elements", "site positions", "flux through loops"])

prop("C36", "Plots show every site, bond and result exactly where it belongs",
 "Plots of systems, slices, data maps, lattices and leads draw every site once per drawn image, at its position along the chosen axes, nearer ones on top, with its own color and radius; they draw the bonds inside each image and those across its boundaries, and no others. Plots of results pass on the computed arrays and labels. Plotting changes nothing and cuts nothing off.",
 ["inputs", "configurations"], "all structures, numbers of periods, views, 2D and 3D axes, radii, colors, selections of hoppings and results",
 "Unit tests compare a few pictures with stored ones (and only if matplotlib is there).",
 ["pybinding/system.py", "pybinding/results.py", "pybinding/leads.py", "pybinding/lattice.py", "pybinding/pltutils.py", "pybinding/support/collections.py", "pybinding/shape.py"],
 [("structures", "pybinding/system.py"), ("results", "pybinding/results.py"), ("leads", "pybinding/leads.py"), ("circles", "pybinding/support/collections.py"), ("limits and colors", "pybinding/pltutils.py")],
 ["collections on the axes", "arguments of drawing calls", "axis limits", "the caller's arrays"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
