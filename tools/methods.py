import json, os
M = {}
M["C01"] = "Random histories of definition calls (valid and invalid mixed, blank/duplicate names, wrong shapes, repeated and conjugate terms, offsets beyond the limit) against a list-of-records reference; the whole definition is read back through every getter after every call. Bound: 1–3D, up to ~40 calls. A test can only check single calls; the interaction of a refusal with the state left behind needs histories."
M["C02"] = "Random lattices (skewed, aliases, multi-orbital, sublattices outside the cell, offsets, 0–3 minimum neighbours) in primitive blocks and shapes anywhere in space; expected sites enumerated from a bounding region far larger than needed, dangling sites removed by fixpoint iteration on an explicit list; both sides matched one to one by family and position. Pinned: a chain of 10^6 dangling sites."
M["C03"] = "As C02, with hopping ranges up to 4 cells; expected bonds enumerated pair by pair; compared as oriented multisets per family."
M["C04"] = "Entry-by-entry comparison of the matrix with the dense definition, Hermiticity, sortedness/duplicates/ranges of the raw CSR arrays; NaN/inf energies have to be refused."
M["C05"] = "Polygons (combs, spirals, stars, self-crossing, repeated vertices, sides horizontal up to one bit) against an even-odd test along the other axis; lines; freeform shapes; every site in the bounding box must have been offered to the shape's function (the user's callback is the probe)."
M["C06"] = "Periodic systems of 1–3 dimensions, periods of 1–5 cells, hoppings across several periods, ribbons cut by shapes; matrix at several k (and k shifted by reciprocal vectors) against the Bloch sum over all images; spectra of supercells against folded spectra (dense eigenvalues)."
M["C07"] = "Callback log of every state/position modifier (sites, states, positions, family names) replayed on the reference; final structure and bonds compared. Includes minimum-neighbour clean-up on finite and periodic systems."
M["C08"] = "Callback log of every energy modifier: each reference term must be seen exactly once with its own positions and current energy; the final matrix must be the composition. Includes blocks larger than the internal batch (10^5 elements) for single and multi-orbital families, boundaries, vacancies, moved sites."
M["C09"] = "Number type predicted from the ingredients, including modifiers that ask for complex values while they run (ComplexOverride) or fail; the same definition is evaluated in all wider types and compared."
M["C10"] = "Interleaved generators and modifiers; the reference follows the callbacks, so what each generator *sees* is judged, then the final system, its bonds, boundaries and matrix. Inconsistent generator results have to be refused without trace."
M["C11"] = "Random histories (add, replace, refused additions, clear, copy, evaluate, callbacks that throw at a random call, sweeps through nearly equal wave vectors) with bit-exact fingerprints of structure, Hamiltonian and leads compared with fresh models given the same definition; everything handed out earlier is re-fingerprinted at the end."
M["C12"] = "Systems with vacancies, emptied families, generators, leads: every family range, orbital index, expanded position, non-zero prediction and nearest-site answer is judged from the known position of each site; unknown and empty families have to be refused."
M["C13"] = "Leads of random direction and shape attached one after the other; attachment, filled-in path, index lists, layer sites and bonds against an explicit-list reference; later removals have to keep the index lists right."
M["C14"] = "h0/h1 of leads against an assembled reference for every combination of energy modifiers and number types, all callbacks logged."
M["C15"] = "Random operation histories on CompressedSublattices and HoppingBlocks against plain uncompressed lists, all queries after every operation; corrupted serialized data has to be refused."
M["C16"] = "Sparse loops, direct construction, ELLPACK conversion, slicing, concatenation, chunking, tridiagonal eigenvalues against dense definitions for every scalar type, with visit counts."
M["C17"] = "Hermitian matrices of all four scalar types (lattice-like, dense, disconnected, diagonal, empty rows, one row) through every algorithm configuration (CSR/ELL, optimal size on/off, interleaved or not, SIMD width by a stand-in for the missing libsimdpp or the generic path), single and batched, several targets and collectors; every moment compared with dense Chebyshev recursion in double precision, the tolerance growing with the recursion. Pinned: matrices without elements, targets repeated, one site."
M["C18"] = "LDOS, DOS, Green's functions and spatial LDOS from `kpm::Core` and `KPM` over random spectra, kernels, broadenings, grids, index sets and bounds; expected values rebuilt in double precision from the kernel-damped expansion over exact moments, with the number of moments derived from kernel and broadening. A recording `Compute` in front of the real one logs which starting vectors were used, so stochastic averages are judged exactly. Invalid sites have to be refused."
M["C19"] = "Bounds from Lanczos against dense eigenvalues (n up to 90, tolerance = requested precision when the start vector, which is reproducible, is known to overlap with the extreme states; containment and order of magnitude otherwise), user bounds verbatim, histories of Hamiltonian changes, round trips of the scaling, eigenvalues of the scaled Hamiltonian inside [-1, 1]."
M["C20"] = "Conductivity of Core and KPM for all direction pairs against the Kubo–Bastin double sum over dense Chebyshev moments with velocity operators i[H, x] built from the site positions and the recorded random vectors; kernels, temperatures, potentials, sample counts and all configurations of C17; invalid directions have to be refused."
M["C21"] = "A full dense back end written for the monitor (all four number types) is plugged into `cpb::Solver` and logs each construction, change and solve. Random histories of queries, clears, model replacements, changes behind the solver's back, models which fail to evaluate and failing solves; each answer compared with sums over independently computed eigenpairs of the model the solver reports, and the number of solves with the number needed."
M["C22"] = "The real templates run under a scheduler of the monitors (`sched.hpp`): the program's pthread functions are interposed, threads run one at a time and each synchronisation point (and random function calls) is a seeded decision: random, sticky or priority schedules, random choice of the waiter to wake, spurious wake-ups; deadlocks are recognised at once. The same programs run freely under ThreadSanitizer with random delays. An event log (relaxed slots, adds no synchronisation) is checked offline: exactly once per stage, order, capacity, nothing after the return, FIFO intervals, conservation of job objects. If the code blocks in a way the scheduler doesn't know, the case is released and runs freely, so it can't be failed by the scheduler."
M["C23"] = "The parallel loop over starting vectors with recorded draws, collections and progress reports (each exactly once, one at a time, complete), results against exact moments of the recorded vectors and against one thread; whole spectral functions on 1 and up to 6 threads; independent calculations on models that share their parts inside `parallel_for`. All under the scheduler of C22 and under ThreadSanitizer (library instrumented)."
M["C24"] = "Sessions of public calls (lattices, shapes, modifiers, generators, leads, symmetries, queries, spectral calculations) with hostile arguments among them: NaN, infinite, huge, negative, empty or contradictory values, unknown names, callbacks that throw. A call returns or throws; everything it returns is read. Judged by AddressSanitizer + full UBSan (all checks incl. float-cast-overflow; assertions of Eigen and of the library on), by valgrind (uninitialised values), and by an allocation count over repeated sessions (leaks)."
M["C25"] = "The real extension module (built with AddressSanitizer behind a stand-in for pybind11 that honours its lifetime policies) and the real package: sessions of building, changing, solving and deleting; each array, matrix and wrapper handed out is kept with a copy of its values, and after every operation its memory must not be poisoned (shadow memory is asked directly, as numpy isn't instrumented) and its values must be the same. Exceptions: arrays passed to callbacks, which are documented as valid during the call only."
M["C26"] = "Random lattices (1–3 dimensions, several orbitals, complex), shapes and symmetries with random Python modifiers and generators: any subset and order of arguments, contiguous, strided, transposed, negative-stride, broadcast and read-only results of all number types, lists and scalars. The structure and dense Hamiltonian must equal a reference which applies the same formulas site by site to the unmodified system; results which don't fit must be refused."
M["C27"] = "Structures, systems, maps, sweeps, paths and series with unique tags in each part are sliced in chains of operations and compared part by part with plain numpy arrays indexed independently (including hoppings, which must join the same sites); sweeps and paths against definitions, text files read back."
M["C28"] = "Every field of what comes back from pickle (protocols 2–5), copy, deepcopy and save/load compared with the original; models built from both compared; then one of them is changed and the other must not move."
M["C29"] = "Histories of queries, wave vectors, model replacements and clears; eigenpairs judged by residual, orthonormality and a dense double-precision decomposition of a freshly built model; derived quantities recomputed from that decomposition; lead bands from H0 + H1 e^ik; kwant view entry by entry. Quantities which depend on the choice of basis within a degenerate space are summed over it."
M["C30"] = "Random functions (LDOS of small models which differ from point to point) run by every entry point on 1–8 threads with random queue sizes, delays in each stage, hooks, file names and failures in each stage; an event log (the GIL orders it) and the results are compared with a plain loop, the files are read back, and the stand-in for pybind11 ends the process when a reference count changes without the GIL."
M["C31"] = "Sessions on KPM objects (ranges, kernels, formats, threads, silent or with a progress callback; model changes, wave vectors, several orbitals): results against the expansion of the dense Hamiltonian in double precision (`pykpm.py`); DOS and conductivity against the exact trace within 9–10 standard deviations of the stochastic estimator; the sites of spatial results one by one; invalid requests have to be refused."
M["C32"] = "Random expressions of shapes, up to three levels, moved and composed, evaluated at random points and as the sites of a model; the reference is written in double precision from the definition of each primitive. Points within 1e-4 of an edge aren't judged."
M["C33"] = "Random sequences of definitions, good and bad, in every accepted spelling, against a plain record of them after each step; reciprocal vectors and Brillouin zones against their definition in double precision (duality, every vertex equally far from the nearest reciprocal points, area, periodicity of the bands, independence of the chosen basis)."
M["C34"] = "Random id maps, arrays, matrices, slices and names against Python dictionaries and sets; models whose modifiers select by name, compared with sites and hoppings found from the definition of the lattice. Names which are at once a whole name and the first part of another are left out: which of the two is meant isn't documented."
M["C35"] = "Random parameters, wave vectors and finite pieces of every lattice of the repository: bands against closed formulas (graphene, bilayers, phosphorene) or the published matrices written out again (MX2, Liu et al.), loops of Peierls phases against the enclosed flux, and fields, strain and shapes against their formulas at every site."
M["C36"] = "matplotlib isn't installed: a stand-in (`harness/pyplotrec.py`) records every collection and call. The recorded circles and segments are compared as multisets with what the arrays of the structure and a breadth-first search over the boundaries demand; images in 3D are projected along random directions. What matplotlib makes of it isn't judged."
json.dump(M, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "methods.json"), "w"), indent=0, ensure_ascii=False)
