# executed by mkdocs.py: p(id, title, statement, over, qtext, why, files, mechanism, technique, note)
MON = "runtime monitoring: reference-model oracle over executions, under ASan+UBSan"
TR = "Held on the executions listed in the evidence, no further. Trusts the reference model of /verif/harness, the compiler and the sanitizer runtime."

p("C01", "Site layout is a bijection between coordinates and storage",
  "For every lattice size a layout accepts, every global coordinate has exactly one node and linear index, and converting coordinates to an index and back returns the same coordinates; coordinates outside the box wrap or are refused as documented, sizes the layout cannot hold are refused. The coordinate fields, checkerboard parity, lexicographic order and I/O order agree with that mapping.",
  ["inputs", "configurations"], "all lattice sizes, all coordinates, all four compiled layouts",
  "Tests run one fixed cubic lattice in one layout; none checks the maps for all sites, odd or anisotropic extents, or the other layouts.",
  ["lib/qdp_scalar_layout.cc", "lib/qdp_layout.cc", "include/qdp_layout.h", "lib/qdp_util.cc"],
  [("linear site index and its inverse per layout", "lib/qdp_scalar_layout.cc"), ("crtesn/local_site helpers", "lib/qdp_util.cc")],
  MON, TR + " Lattices up to a few thousand sites.")
p("C02", "Sets partition the lattice as their colouring says, and copies are independent",
  "A set built from any colouring function has one subset per colour, containing exactly the sites of that colour, each once, and the table is reported consistently (size, order flag, bounds). A copied or assigned set or subset goes on describing the same sites whatever happens to the original.",
  ["inputs", "histories"], "all colouring functions and lattices; all orders of make, copy, assign and destroy",
  "Tests only use the predefined checkerboards and never copy a set.",
  ["lib/qdp_subset.cc", "include/qdp_subset.h", "include/qdp_qdpsubtype.h"],
  [("Set::make", "lib/qdp_scalar_layout.cc"), ("Set copy and assignment", "lib/qdp_subset.cc")], MON, TR)
p("C03", "Maps and shifts move each site's value from where the map function says",
  "Applying a map made from any site-to-site function gives at every site the value the source had at the function's image, also inside and around expressions, on subsets and for bidirectional and array maps; the shifts are those maps with displacement one and periodic wrap-around. Forward and backward are inverse for one-to-one functions.",
  ["inputs", "configurations"], "all map functions, directions, lattice sizes, element types, layouts, expressions",
  "Tests only shift by one on one lattice, and do not compare with an independent gather.",
  ["lib/qdp_map.cc", "include/qdp_map.h", "include/qdp_scalar_specific.h", "lib/qdp_scalar_specific.cc"],
  [("Map::make offset tables", "lib/qdp_scalar_specific.cc"), ("FnMap gather in expressions", "include/qdp_scalar_specific.h")], MON, TR)
p("C04", "An assignment evaluates its expression site by site, only on its subset",
  "Assigning any expression, plainly or combined with an arithmetic or bit operator, with or without a subset, gives at every addressed site what evaluating the expression on that site's values gives, and leaves every other site untouched bit for bit. This holds for every subset (full, ordered, scattered, empty, single site), for scalar operands, nested expressions and when the destination also appears in the expression.",
  ["programs", "inputs"], "all expressions over the element types, all subsets, all lattice sizes",
  "Tests evaluate a few fixed expressions on whole lattices and checkerboards and mostly print the result rather than compare it.",
  ["include/qdp_scalar_specific.h", "include/qdp_outer.h", "include/qdp_outersubtype.h", "include/qdp_qdpexpr.h", "include/qdp_qdptype.h", "include/qdp_newops.h", "include/QDPOperators.h"],
  [("evaluate() loops over the subset's table", "include/qdp_scalar_specific.h"), ("expression templates", "include/PETE")], MON, TR)
p("C05", "Site-local spin, colour and complex algebra is the mathematical one",
  "Every operation on site values - products, sums, adjoints, transposes, traces, inner and outer products, contractions, comparisons, logic, selection, component access, conversions and elementary functions - equals its mathematical definition on the tensor indices for every combination of element types it accepts, within rounding of the word type. The fused forms (adjoint times matrix, trace of a product and the like) equal the unfused ones.",
  ["inputs", "programs"], "all operand values, all admissible combinations of element types, all fused forms",
  "Tests cover a handful of types and mostly print; the fused operations are separately coded per level and type and most are never executed by a test.",
  ["include/qdp_primmatrix.h", "include/qdp_primcolormat.h", "include/qdp_primspinmat.h", "include/qdp_primcolorvec.h", "include/qdp_primspinvec.h", "include/qdp_primvector.h", "include/qdp_primscalar.h", "include/qdp_reality.h", "include/qdp_inner.h", "include/qdp_word.h", "include/qdp_specializations.h"],
  [("per-level operator definitions", "include/qdp_reality.h")], MON, TR)
p("C06", "Gamma matrices, spin projectors and reconstructors obey the Clifford algebra",
  "The sixteen gamma matrices in each basis satisfy their algebra and act from either side on spin vectors, matrices and propagators as their matrices do, whichever interface (constant, run-time index) names them. Spin projection and reconstruction equal multiplication by one plus or minus a gamma matrix, and chiral projection the projectors on the two chiralities.",
  ["inputs"], "all sixteen gamma indices, both bases, all operand types and values, both sides",
  "Tests print a few products; nothing checks all indices, both bases and sides against the matrices.",
  ["include/qdp_primgamma.h", "include/qdp_primspinmat.h", "include/qdp_primspinvec.h", "include/qdp_newops.h"],
  [("hand-unrolled gamma products", "include/qdp_primspinvec.h"), ("spin projection", "include/qdp_primspinvec.h")], MON, TR)
p("C07", "Optimised kernels compute the same as the expressions they replace",
  "Wherever a specialised kernel (generic or SSE; linear algebra on colour matrices, vector updates on fermions, norms and inner products, chiral and complex variants, fused spin projection) is chosen by the type of an expression, it gives the plain evaluation's result within rounding, for whole lattice, ordered and unordered subsets, any lengths and aliasing of destination and operands.",
  ["inputs", "configurations"], "all operand values, subsets, aliasing patterns, precisions; with and without the kernels",
  "Only five kernels have a test, on fixed lengths and contiguous data; unordered subsets, aliasing and odd lengths are not run.",
  ["include/scalarsite_generic", "include/scalarsite_sse", "lib/scalarsite_sse", "include/qdp_scalarsite_generic.h", "include/qdp_scalarsite_sse.h"],
  [("evaluate() specialisations", "include/scalarsite_generic")], MON, TR)
p("C08", "Global reductions combine exactly the addressed sites, each once",
  "Sum, norm, inner products, extrema and classification tests over a field or expression cover exactly the sites of the given subset, each once, including subset collections and empty subsets, and equal the mathematical value within rounding of the accumulator's precision. Reducing over the subsets of a partition adds up to reducing over the whole.",
  ["inputs"], "all fields, expressions, subsets and partitions",
  "Tests print norms of fixed fields; sums over arbitrary sets, slices and empty subsets are not compared with anything.",
  ["include/qdp_scalar_specific.h", "include/qdp_globalfuncs.h", "include/qdp_globalfuncs_subtype.h"],
  [("sum/sumMulti/norm2/innerProduct loops", "include/qdp_scalar_specific.h")], MON, TR)
p("C09", "The lattice random generator is one reproducible stream, whatever the layout",
  "From a given seed every field drawn from the generator has at each site the value its documented linear congruential sequence gives for that site and draw, independent of layout, lattice traversal or subset used, and the scalar seed advances as documented. Saving the seed and restoring it repeats the stream exactly.",
  ["inputs", "histories", "configurations"], "all seeds, sequences of draws of all element types and subsets, layouts",
  "Tests draw from one seed and print; nothing compares with the sequence or across layouts.",
  ["lib/qdp_random.cc", "include/qdp_random.h", "include/qdp_primseed.h", "include/qdp_scalar_specific.h"],
  [("sranf and skewed multipliers per site", "lib/qdp_random.cc"), ("multiprecision seed arithmetic", "include/qdp_primseed.h")], MON, TR)
p("C10", "The RANNYU generator reproduces its sequence and its saved states",
  "From any seed the scalar generator yields the documented 48-bit congruential sequence, each value in its unit interval, and saving its state and setting it again, at any point, continues the very same sequence.",
  ["inputs", "histories"], "all seeds and interleavings of draw, save and set",
  "No test runs it at all.",
  ["lib/qdp_rannyu.cc", "include/qdp_rannyu.h"], [("RANNYU::random", "lib/qdp_rannyu.cc")], MON, TR)
p("C11", "Binary files and buffers give back what was written, in the documented bytes",
  "Every value, string, array, complex or field element written through the binary interfaces is read back equal by the matching read, the bytes are the big-endian representation whatever the host, positions reported and set address those bytes, and the running checksum equals the documented CRC of all bytes passed. Reading past the end is reported as failure.",
  ["inputs", "histories", "fault_sequences"], "all sequences of reads, writes, seeks over all types and sizes; truncated data",
  "Tests write a few values and read them back with the same library only.",
  ["lib/qdp_io.cc", "include/qdp_io.h", "lib/qdp_byteorder.cc"],
  [("BinaryReader/Writer and buffer variants", "lib/qdp_io.cc")], MON, TR)
p("C12", "Fields are stored in lexicographic site order, independent of the layout",
  "A lattice field written in binary has its sites in lexicographic order with each site's words big-endian, so a file written under one layout, in full or one time slice at a time, is read correctly under any other; a site, a range of sites or a time slice written or read alone addresses the same bytes.",
  ["inputs", "configurations"], "all element types, lattice sizes, layouts of writer and reader, ranges",
  "Tests read back in the same run and layout.",
  ["lib/qdp_scalar_specific.cc", "include/qdp_scalar_specific.h", "lib/qdp_parscalar_specific.cc"],
  [("writeOLattice/readOLattice", "lib/qdp_scalar_specific.cc")], MON, TR)
p("C13", "Gauge archive files round-trip and damaged ones are refused",
  "Gauge configurations written in the archive format are read back as unitary links equal within the stored precision, with header, checksum, plaquette and link trace consistent with the data, in all supported storage forms; a file whose data no longer match its checksum or whose header is malformed is refused.",
  ["inputs", "fault_sequences"], "all SU(3) configurations, header variations, damaged files",
  "Needs an XML library to run in the repository; no test in the baseline reaches it.",
  ["lib/qdp_iogauge.cc", "include/qdp_iogauge.h"], [("readArchiv/writeArchiv", "lib/qdp_iogauge.cc")], MON, TR)
p("C14", "Text I/O gives back what was written",
  "Every value, array or string written as text, to a file or buffer, is read back by the matching read with the documented precision, and malformed or missing input is reported as failure instead of being taken for data.",
  ["inputs"], "all values of all types and sequences thereof; malformed text", "Tests write to files without reading back edge values.",
  ["lib/qdp_io.cc", "include/qdp_io.h", "lib/qdp_stdio.cc", "include/qdp_stdio.h"], [("TextReader/TextWriter", "lib/qdp_io.cc")], MON, TR)
p("C15", "Multidimensional containers behave as value-semantics arrays",
  "The one to five dimensional and run-time dimensional array types address every element exactly once, hold the requested number of elements after a resize, keep their contents through copy, assignment (self included) and conversion, write through to the original from slices and rows only, and element-wise arithmetic and comparison act on all elements. Copies are independent of their originals. No operation touches memory outside the array.",
  ["inputs", "histories"], "all sizes (zero included), element types and sequences of operations",
  "One test covers a few constructions; non-cubic shapes, self-assignment and the run-time dimensional array are not exercised.",
  ["include/qdp_multi.h", "include/qdp_arrays.h"], [("multi1d..multi5d, multiNd, ArrayNdO", "include/qdp_multi.h")], MON, TR)
p("C16", "Map objects are persistent key-value maps",
  "After any sequence of inserts, updates, flushes, closes and reopenings, a map object in memory or on disk returns for each key the last value stored under it, reports exactly the keys stored and misses exactly the others, and keeps its user data. A closed file reopened, by this or another process, has the same content; multi-file maps search all their files.",
  ["histories", "inputs"], "all operation sequences, key and value types and sizes, reopen points",
  "Tests insert then look up in one order; none mixes lookups with inserts, overwrites with different lengths or reopens after updates.",
  ["include/qdp_map_obj.h", "include/qdp_map_obj_disk.h", "lib/qdp_map_obj_disk.cc", "include/qdp_map_obj_memory.h", "include/qdp_map_obj_disk_multiple.h", "include/qdp_map_obj_null.h"],
  [("file header, index and record layout", "include/qdp_map_obj_disk.h")], MON, TR)
p("C17", "A damaged or half-written map file is reported, not believed",
  "Reading a map-object file in which any byte of a record or of the index has changed, or which is cut short, reports failure, and reading one with a damaged header either still gives the stored values or reports failure: no lookup succeeds with a value never stored under its key, nothing crashes, writes outside memory or runs on without end, and a damaged record leaves the others readable. After a writer's death at any point every lookup gives a value once stored or reports failure, and what an earlier completed flush stored and nothing has since overwritten is still readable.",
  ["fault_sequences", "crash_points"], "all single damaged bytes and truncation points; all prefixes of the writer's file operations", "No test damages a file or stops a writer.",
  ["include/qdp_map_obj_disk.h", "lib/qdp_map_obj_disk.cc", "lib/qdp_io.cc"], [("record and index checksums", "include/qdp_map_obj_disk.h"), ("order of index and link writes", "include/qdp_map_obj_disk.h")], MON, TR)
p("C18", "The allocator hands out aligned, disjoint memory and takes back exactly that",
  "Every allocation is aligned as required, does not overlap any live one, and stays usable until freed, freeing returns it exactly once, and freeing something never allocated is refused; field objects own and release their storage through any sequence of construction, copy, assignment, temporaries and destruction, and pools that run out say so.",
  ["histories", "inputs", "configurations"], "all sequences of allocations, sizes, pools, frees; plain and debug builds",
  "Only used implicitly by tests.",
  ["include/qdp_default_allocator.h", "lib/qdp_default_allocator.cc", "include/qdp_allocator.h", "include/qdp_pool_allocator.h", "lib/qdp_pool_allocator.cc"],
  [("address map and alignment", "lib/qdp_default_allocator.cc")], MON, TR)
p("C19", "Threaded evaluation equals serial evaluation and is free of races",
  "With threads enabled every expression, kernel, reduction and random draw gives what the single-thread build gives (reductions within rounding), for any thread count including more threads than sites, each site processed by exactly one thread, without data races.",
  ["schedules", "inputs", "configurations"], "all thread counts, schedules, site counts, kernels",
  "The baseline builds are not threaded.",
  ["include/qdp_dispatch.h", "include/qdp_scalar_specific.h", "include/qdp_threadbind.h"], [("dispatch_to_threads", "include/qdp_dispatch.h")],
  "runtime monitoring: race detector (TSan), exactly-once and differential oracles", TR)
p("C20", "The message-passing build computes the same as the serial build",
  "On any node geometry, layouts, maps, shifts, sets, reductions, random numbers and file I/O of the distributed build give the serial build's results, whatever the order in which messages arrive.",
  ["configurations", "schedules", "inputs"], "all node geometries, message delays, map functions, fields",
  "No test runs on more than one node; the baseline has no message-passing library.",
  ["lib/qdp_parscalar_specific.cc", "lib/qdp_parscalar_layout.cc", "include/qdp_parscalar_specific.h", "lib/qdp_parscalar_init.cc"],
  [("Map::make gather tables", "lib/qdp_parscalar_specific.cc")],
  "runtime monitoring: reference-model oracle on forked nodes over a delaying message-layer stand-in, under ASan+UBSan", TR + " The message layer is a stand-in written from the QMP interface, over shared memory.")
p("C21", "The inner-vectorised build computes the same as the scalar build",
  "With sites grouped into inner vectors, expressions, subsets, shifts, reductions, random numbers and file I/O give at every site what the scalar build gives.",
  ["configurations", "inputs"], "all expressions, subsets, maps, fields", "The baseline never builds it.",
  ["include/qdp_scalarvec_specific.h", "lib/qdp_scalarvec_specific.cc", "lib/qdp_scalarvec_layout.cc", "include/qdp_inner.h"],
  [("evaluate over inner lattices", "include/qdp_scalarvec_specific.h")], MON, TR)
p("C22", "Byte swapping and CRC-32 follow their definitions",
  "Swapping reverses the bytes of each element of a buffer of any size and count and nothing else, swapping twice restores it, and the checksum of any buffer, whole or continued in any pieces, is the standard CRC-32.",
  ["inputs"], "all buffers, element sizes, alignments, splits", "Not tested directly.",
  ["lib/qdp_byteorder.cc", "lib/qdp_crc32.cc", "include/qdp_byteorder.h", "include/qdp_crc32.h"], [("byte_swap, crc32", "lib/qdp_byteorder.cc")], MON, TR)
p("C23", "No workload makes the library touch foreign memory or undefined behaviour",
  "Whatever sequence of public operations with valid arguments a program performs, on any lattice size and layout, the library reads and writes only memory it owns and initialised and executes no undefined operation; invalid arguments are refused with a diagnostic.",
  ["inputs", "programs", "configurations"], "all workloads of the other properties and error paths",
  "Tests run uninstrumented.",
  ["include", "lib"], [("bounds checks and error exits", "include/qdp_multi.h")],
  "runtime monitoring: ASan+UBSan, valgrind memcheck and debug-memory builds over the workloads", TR)
p("C24", "Start-up, shutdown and configuration do not change results",
  "The library can be initialised, laid out, shut down and started again, in any sensible order and with each command-line option, and diagnoses the orders it does not allow; exit codes and messages of any length come out as given; profile levels nest; and debug-memory, pool-allocator, profiling and kernel-free configurations give the same results as the plain one.",
  ["configurations", "histories"], "all option combinations, orders of life-cycle calls, configurations", "Tests run one configuration and the default options.",
  ["lib/qdp_scalar_init.cc", "lib/qdp_profile.cc", "include/qdp_profile.h", "lib/qdp_layout.cc"], [("QDP_initialize/finalize", "lib/qdp_scalar_init.cc")], MON, TR)
p("C25", "Fields living on a subset behave as full fields restricted to it",
  "A field allocated on a subset holds one value per site of the subset; assigning between it and full fields, reading it in expressions and reducing it acts on exactly those sites, in table order, for every subset; values of a field on another subset go over in table order when the sizes agree, and are refused when they do not.",
  ["inputs", "histories"], "all subsets, element types, assignments", "One test prints a few values.",
  ["include/qdp_outersubtype.h", "include/qdp_qdpsubtype.h", "include/qdp_scalar_specific.h", "include/qdp_globalfuncs_subtype.h"],
  [("OSubLattice", "include/qdp_outersubtype.h")], MON, TR)
