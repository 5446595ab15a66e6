#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})
ALLCFG = ["inputs", "configurations"]

p("C01", "The site layout is a bijection onto nodes and local indices",
  "For every lattice size, machine geometry and compiled-in layout that Layout::create accepts, each lattice coordinate belongs to exactly one (node, local site index) pair, coordinate-to-index and index-to-coordinate conversions are inverse to each other and agree on all nodes, and each node owns exactly one block of the global grid. The reported lattice size, volume, sub-grid and machine size are consistent with it, and sizes that the layout cannot represent are refused instead of being laid out.",
  ALLCFG, "all lattice extents, node geometries, node numberings and the four layouts (lexicographic, 2-, 3d- and 32-style checkerboard)",
  "the tests use one lattice size with one layout on one node; none looks at the maps themselves",
  ["lib/qdp_layout.cc", "lib/qdp_scalar_layout.cc", "lib/qdp_parscalar_layout.cc", "include/qdp_layout.h"],
  [("linearSiteIndex/siteCoords/nodeNumber", "lib/qdp_scalar_layout.cc, lib/qdp_parscalar_layout.cc"), ("crtesn/local_site", "lib/qdp_layout.cc"), ("create() divisibility checks", "lib/qdp_parscalar_layout.cc")],
  [("_layout", "sizes and node geometry", "lib/qdp_*_layout.cc")], ["Layout:: queries on every node", "Layout::latticeCoordinate"])
p("C02", "Sets split the lattice into disjoint, complete subsets",
  "A Set made from a colouring function consists of one Subset per colour holding exactly the sites the function gives that colour, so the subsets are disjoint and together cover the lattice, on any number of nodes and layout; a subset's size, contiguity flag and range describe exactly the sites it holds. The predefined subsets (all, even/odd, red-black, 3d red-black, the 32-colour set) are the documented colourings, and re-making, copying or assigning a set leaves every other set and its subsets unchanged (a Subset stays valid until its own Set is re-made, assigned to or destroyed).",
  ["inputs", "configurations", "histories"], "all colouring functions (including colours without any site), layouts and node counts, and all histories of make, copy and assignment",
  "the tests only use 'all' and the checkerboards of one layout, indirectly",
  ["lib/qdp_subset.cc", "include/qdp_subset.h", "lib/qdp_scalarsite_specific.cc"],
  [("Set::make", "lib/qdp_scalarsite_specific.cc"), ("Subset::make, operator=", "lib/qdp_subset.cc")],
  [("lat_color, sitetables, sub", "colour of each site, sites of each colour", "include/qdp_subset.h")], ["Set/Subset accessors on every node"])
p("C03", "Shifts and site maps move each value from exactly the right site",
  "shift(f, sign, mu) and every user-defined map give, at each site x, the value of the source at the mapped site with periodic boundary conditions, for every element type, layout, node geometry and node numbering, also when applied to expressions, nested, or assigned under a subset. (A map between nodes is supported when each node's sites come from, and go to, at most one other node besides itself; the destination must not be the source.) A forward shift followed by the backward one is the identity, and the source is unchanged.",
  ["inputs", "configurations", "programs"], "all lattice sizes, directions, bijective site maps, element types and nestings, on any number of nodes",
  "no test that builds here looks at shifted values; clov_force only runs them",
  ["lib/qdp_map.cc", "lib/qdp_scalar_specific.cc", "lib/qdp_parscalar_specific.cc", "include/qdp_scalar_specific.h", "include/qdp_parscalar_specific.h", "include/qdp_map.h"],
  [("Map::make, Map::operator()", "lib/qdp_*_specific.cc, include/qdp_*_specific.h"), ("ArrayBiDirectionalMap, shift", "lib/qdp_map.cc")],
  [("goffsets, soffsets, srcnode, dstnode", "where each local site's value comes from and goes to", "include/qdp_parscalar_specific.h")], ["every site of the result on every node"])
p("C04", "Data-parallel assignment acts pointwise on exactly the given subset",
  "A field assignment (=, +=, -=, *=, ... or one of the data-parallel procedures such as copymask, zero and site-wise where) gives each site of the chosen subset the value of the expression at that site, computed from the values before the statement, and leaves every other site and every other field bit-for-bit unchanged. This holds also when the destination itself occurs in a linear update such as x = a*x + b*y, for every mix of scalar and lattice operands, and for any number of threads and nodes.",
  ["inputs", "programs", "configurations", "schedules"], "all sequences of assignments over element types, expressions, operators and subsets (contiguous or not, possibly empty), thread and node counts",
  "the tests look at a handful of whole-lattice results of a few kernels",
  ["include/qdp_scalar_specific.h", "include/qdp_parscalar_specific.h", "include/qdp_outer.h", "include/qdp_outersubtype.h", "include/qdp_globalfuncs.h", "include/qdp_qdpexpr.h", "include/qdp_qdptype.h", "include/qdp_dispatch.h"],
  [("evaluate", "include/qdp_*_specific.h"), ("OSubLattice/QDPSubType assignment", "include/qdp_outersubtype.h, include/qdp_qdpsubtype.h"), ("dispatch_to_threads", "include/qdp_dispatch.h")],
  [("OLattice::F", "the per-site data of one node", "include/qdp_outer.h")], ["all sites of all fields after every statement"])
p("C05", "Reductions cover exactly the sites of their subset",
  "sum, sumMulti, norm2, innerProduct, innerProductReal (of fields and of arrays of fields), globalMax/globalMin and the isnan/isinf/isfinite/isnormal tests equal the mathematical reduction over exactly the sites of the subset or lattice they are applied to, with the neutral element for an empty subset. Every node gets the same result, which does not depend on layout, node or thread count for exactly representable data.",
  ["inputs", "configurations", "schedules"], "all exactly representable data, subsets and sets, element types, layouts, node and thread counts",
  "the double precision SSE dot products are sampled on 'all'; sumMulti, subset, multi-node and threaded reductions are not tested",
  ["include/qdp_scalar_specific.h", "include/qdp_parscalar_specific.h", "include/qdp_globalfuncs.h", "include/qdp_globalfuncs_subtype.h", "include/qdp_scalarsite_generic.h", "lib/qdp_parscalar_global_sum.cc"],
  [("sum/sumMulti/norm2/innerProduct", "include/qdp_*_specific.h"), ("globalSumArray", "include/qdp_parscalar_specific.h")], [], ["returned scalars on every node"])
p("C06", "Lattice random numbers are one reproducible stream per global site",
  "After the generator state is set, the random value drawn at a lattice site depends only on that state, the site's global coordinates and the draws made since, never on the layout, number of nodes or threads, or on which other sites the subset holds. Each draw over a lattice or any subset advances the saved state by the same fixed amount on every node, a scalar draw gives the same value on all nodes, and restoring a saved state reproduces the same sequence.",
  ["histories", "configurations", "schedules"], "all seeds, histories of lattice, subset and scalar draws of all element types, save/restore points, layouts, node and thread counts",
  "no test looks at random numbers at all",
  ["lib/qdp_random.cc", "include/qdp_random.h", "include/qdp_primseed.h", "include/qdp_scalar_specific.h", "include/qdp_parscalar_specific.h"],
  [("sranf, skewed site multipliers", "lib/qdp_random.cc"), ("random(OLattice,Subset)", "include/qdp_*_specific.h"), ("47-bit seed arithmetic", "include/qdp_primseed.h")],
  [("RNG::ran_seed", "global generator state", "lib/qdp_random.cc"), ("lattice_ran_mult", "per-site multipliers", "lib/qdp_random.cc")], ["RNG::savern", "random fields by global coordinate"])
p("C07", "The RANNYU generator is the documented 48-bit congruence",
  "RANNYU's sequence is exactly that of the documented 48-bit linear congruential generator from the seed that was set (or the default seed), and saving and restoring its state at any point reproduces the same continuation; a seed set before the first draw is honoured.",
  ["histories"], "all seeds and all histories of set, save and draw, including before the first draw",
  "no test uses it",
  ["lib/qdp_rannyu.cc", "include/qdp_rannyu.h"], [("random, setrn, savern", "lib/qdp_rannyu.cc")],
  [("seed words", "four 12-bit words", "lib/qdp_rannyu.cc")], ["RANNYU::random, savern"])
p("C08", "Binary I/O round-trips every value in a portable byte order",
  "Whatever sequence of scalars, strings, arrays (one- to five-dimensional, nested, N-dimensional), pairs, lists and maps is written to a binary file or buffer reads back as the same values, and the bytes are big-endian with sizes first (line strings hold no newline or NUL and fit the reader's limit), independent of the host, of the node count and of whether file or buffer was used. On a multi-node machine every node reads the same values and only one copy is written.",
  ["inputs", "histories", "configurations"], "all sequences of typed values, all writer/reader kinds, sizes including zero, node counts",
  "no test performs I/O",
  ["lib/qdp_io.cc", "include/qdp_io.h", "lib/qdp_byteorder.cc", "include/qdp_byteorder.h"],
  [("writeArray/readArray", "lib/qdp_io.cc"), ("byte_swap, bfread, bfwrite", "lib/qdp_byteorder.cc"), ("container read/write templates", "include/qdp_io.h")], [], ["file bytes, read-back values"])
p("C09", "Stream position and running checksum follow the operation history",
  "For binary streams, reads and writes act at the position defined by the preceding reads, writes, seeks and rewinds, and the reported checksum is the CRC-32 of exactly the bytes transferred since the stream was opened, repositioned or reset. It is well defined from the moment a stream exists, the same for writing and for reading the same bytes, independent of how the transfer was split into calls, and the same on every node, as long as operations succeed. (The in-memory reader-writer keeps separate read and write positions, its seeks and position queries concern the read position; little-endian reads are not part of the checksum.)",
  ["histories", "inputs"], "all interleavings of open, read, write, seek, rewind, reset and checksum queries on file and buffer streams",
  "no test performs I/O; histories are unbounded",
  ["lib/qdp_io.cc", "include/qdp_io.h", "lib/qdp_crc32.cc"],
  [("checksum updates and resets", "lib/qdp_io.cc"), ("crc32", "lib/qdp_crc32.cc")], [("checksum", "running CRC", "include/qdp_io.h")], ["getChecksum, currentPosition, bytes"])
p("C10", "Lattice files hold the sites in global order, whatever the layout",
  "Writing a lattice field gives the site data in global lexicographic order, so the file is byte-identical for all layouts, node geometries and numberings, and reading it into any configuration restores each site's value. Single-site, subset and time-slice reads and writes transfer exactly the named sites in that order and leave all other sites unchanged.",
  ["inputs", "configurations"], "all lattice sizes, element types, subsets, sites, slices, layouts and node geometries for the writer and, independently, the reader",
  "no test performs lattice I/O",
  ["lib/qdp_scalar_specific.cc", "lib/qdp_parscalar_specific.cc", "include/qdp_scalar_specific.h", "include/qdp_parscalar_specific.h", "include/qdp_disk_map_slice.h"],
  [("writeOLattice/readOLattice", "lib/qdp_*_specific.cc"), ("LatticeTimeSliceIO", "lib/qdp_*_specific.cc"), ("TimeSliceIO", "include/qdp_disk_map_slice.h")], [], ["file bytes, fields after reading"])
p("C11", "Gauge archives keep every link and a correct checksum",
  "A gauge field written in the NERSC archive format and read back gives the same links at the same sites and directions, for the full and the two-row (reconstructed) format and for single and double precision data, on any layout or node count, and the header (lattice size, boundary conditions, plaquette, link trace, sequence number, identification strings) comes back as written. The archive checksum equals the sum of the 32-bit words of the archived data and is the same when computed from the field and from the file; truncated or damaged archives are refused.",
  ["inputs", "configurations"], "all special unitary gauge fields (exactly representable ones decided exactly), both matrix formats, both float sizes, layouts and node counts",
  "no test performs I/O",
  ["lib/qdp_iogauge.cc", "include/qdp_iogauge.h", "lib/qdp_scalar_specific.cc", "lib/qdp_parscalar_specific.cc"],
  [("header", "lib/qdp_iogauge.cc"), ("readArchiv/writeArchiv/computeChecksum", "lib/qdp_*_specific.cc")], [], ["file bytes, fields, checksums"])
p("C12", "Text I/O round-trips values and strings",
  "Values written with the text writers (files and buffers) read back equal within the documented number of digits, in order and with every node seeing the same value; strings, booleans and empty arrays are preserved (values are separated by the white space the caller writes; strings hold no white space or NUL).",
  ["inputs", "histories"], "all sequences of typed values through text files and buffers, node counts",
  "no test performs I/O",
  ["lib/qdp_io.cc", "include/qdp_io.h"], [("TextReader/TextWriter", "lib/qdp_io.cc")], [], ["text bytes, read-back values"])
p("C13", "Multi-dimensional arrays behave as independent value arrays",
  "The 1- to 5-dimensional and N-dimensional containers hold exactly the elements last assigned to each index tuple under row-major order, report the sizes they were given, and deep-copy on construction and assignment (self-assignment included), so no operation on one array changes another. Element-wise arithmetic, comparison, concatenation and slicing follow their definitions for all sizes, zero included, and views of foreign memory write through without taking ownership (assigning a whole array to a view of two or more dimensions is refused; operands overlap either fully or not at all).",
  ["histories", "inputs"], "all histories of construct, resize, assign, copy, element access and arithmetic over all dimensions and (unequal) extents",
  "arrays are only used incidentally with fixed sizes",
  ["include/qdp_multi.h", "include/qdp_arrays.h"], [("multi1d..multi5d, multiNd", "include/qdp_multi.h")],
  [("F, n1.., copymem", "storage, extents, ownership", "include/qdp_multi.h")], ["element values and sizes after every operation"])
p("C14", "The lattice allocator hands out disjoint aligned memory",
  "Every block returned by the allocator is aligned as promised, at least as large as asked, disjoint from all blocks not yet freed, and stays so until it is freed exactly once; fields therefore never share storage, and copying, assigning or destroying fields in any order neither leaks nor frees a block twice.",
  ["histories"], "all histories of allocation and release, and of construction, copy, assignment and destruction of fields and arrays of fields",
  "no test observes allocation",
  ["lib/qdp_default_allocator.cc", "include/qdp_default_allocator.h", "include/qdp_outer.h", "include/qdp_allocator.h"],
  [("allocate/free", "lib/qdp_default_allocator.cc"), ("OLattice::alloc_mem/free_mem", "include/qdp_outer.h")],
  [("the_alignment_map", "original pointer of every live block", "lib/qdp_default_allocator.cc")], ["returned addresses, field contents"])
p("C15", "Linear-algebra kernels equal their defining expressions on any subset",
  "Every specialised or vectorised kernel that replaces a general expression (colour matrix products with all combinations of adjoints, matrix-vector products, axpy-like vector updates with real and complex factors, their gamma5-projected variants, in-place updates, local sums and dot products) yields, on exactly the subset given, the value of the plain mathematical expression, whatever the number and arrangement of sites, precision and instruction set. Aliased in-place use gives the same result.",
  ["inputs", "configurations", "programs"], "all exactly representable operand values, scalars (including 0 and negative), subset shapes and sizes, both precisions, generic, SSE and plain-template builds",
  "the unit tests sample a few double precision SSE kernels on random data over the full lattice; single precision, subset and generic kernels are untested",
  ["include/qdp_scalarsite_generic.h", "include/scalarsite_generic", "include/scalarsite_sse", "lib/scalarsite_sse", "include/qdp_primcolormat.h", "include/qdp_primmatrix.h"],
  [("evaluate specialisations", "include/scalarsite_*/"), ("vaxpy etc.", "include/scalarsite_generic/generic_blas_*.h, lib/scalarsite_sse/*.cc")], [], ["all sites of the result field"])
p("C16", "Gamma matrices and spin projections form the documented algebra",
  "Multiplication by each of the 16 gamma products (left and right, on vectors and matrices, all number-of-spin bases offered) equals multiplication by the corresponding product of the documented basis matrices, and the gammas anticommute to twice the unit matrix. Projecting with (1 +/- gamma_mu) to a half spinor and reconstructing gives (1 +/- gamma_mu) times the spinor for every direction and sign, also in fused multiply-project forms and on subsets, and chiral projections equal (1 +/- gamma5)/2.",
  ["inputs", "configurations"], "all spinor and matrix values, directions, signs, gamma products, bases and kernel variants",
  "clov_force and mesplq run some of it without checking values",
  ["include/qdp_primgamma.h", "include/qdp_primspinvec.h", "include/qdp_primspinmat.h", "include/scalarsite_generic/generic_spin_proj_inlines.h", "include/scalarsite_generic/generic_spin_recon_inlines.h"],
  [("GammaConst/GammaType products", "include/qdp_primspinvec.h, include/qdp_primspinmat.h"), ("spinProject/spinReconstruct", "include/qdp_primspinvec.h, include/scalarsite_generic/")], [], ["all components of the result"])
p("C17", "Peeking and poking touch exactly the named component and site",
  "peekSite returns the value at the named global coordinate on every node and pokeSite changes that site only; peekSpin, peekColor, real/imag extraction and their poke counterparts return or change exactly the named component; and bulk extraction and insertion of site data by subset moves exactly the subset's sites (fields that own only a subset's sites included).",
  ["inputs", "configurations", "histories"], "all coordinates, components, element types and node counts, all orders of pokes",
  "used incidentally by two examples without assertions",
  ["include/qdp_scalar_specific.h", "include/qdp_parscalar_specific.h", "include/qdp_primcolormat.h", "include/qdp_primcolorvec.h", "include/qdp_primspinmat.h", "include/qdp_primspinvec.h"],
  [("peekSite/pokeSite/QDP_extract/QDP_insert", "include/qdp_*_specific.h"), ("peekSpin/pokeSpin, peekColor/pokeColor", "include/qdp_prim*.h")], [], ["returned values, all sites and components afterwards"])
p("C18", "Multi-node communication delivers every message and never deadlocks",
  "In every collective operation (shifts, peeks, reductions, broadcasts, lattice I/O) each message sent is received by its addressee with the same length and content, all nodes take part in the same collectives in the same order, and no schedule of the nodes blocks any of them for ever, with buffered or synchronous sends. After each operation nothing is left in transit and all nodes agree on every replicated value.",
  ["schedules", "configurations", "programs"], "all interleavings of the nodes, node counts and geometries, buffered and rendezvous sends, grid and switched machines, sequences of operations",
  "the multi-node code is not even compiled by the tests",
  ["lib/qdp_parscalar_specific.cc", "include/qdp_parscalar_specific.h", "lib/qdp_parscalar_layout.cc", "lib/qdp_parscalar_init.cc"],
  [("clearToSend/sendToWait/recvFromWait/route", "lib/qdp_parscalar_specific.cc"), ("Map::operator() face exchange", "include/qdp_parscalar_specific.h"), ("broadcast, globalSum", "include/qdp_parscalar_specific.h")],
  [("channels", "messages in transit per ordered node pair", "mini-QMP layer of the harness")], ["message and collective log per node"])
p("C19", "Threaded dispatch processes every site exactly once",
  "For every number of sites and threads, dispatching work to threads hands out index ranges that are disjoint and together cover all sites exactly once, with work only for threads that exist, so a threaded evaluation has the same result as a serial one.",
  ["schedules", "configurations", "inputs"], "all site counts (including zero and fewer than threads) and thread counts, all thread interleavings",
  "the tests are built without threads",
  ["include/qdp_dispatch.h", "include/qdp_scalar_specific.h"], [("dispatch_to_threads", "include/qdp_dispatch.h")], [], ["ranges given to the worker function, field results"])
p("C20", "Start-up, lattice creation and shut-down follow their protocol",
  "The library reports itself initialised exactly between initialisation and finalisation; double initialisation, creating a lattice before initialisation, with a wrong number of dimensions or impossible extents, are refused with a failing exit instead of continuing, bad command lines (help, missing arguments, a machine geometry that does not match the number of nodes) and fatal errors of any message length end the process with the promised failing status, and finalising without initialising fails where promised. Re-creating the lattice with another size brings sets, shifts and random numbers into the state a fresh start would give.",
  ["histories", "configurations"], "all orders of initialise, set size, create, use, destroy and finalise calls",
  "each test runs one fixed order",
  ["lib/qdp_scalar_init.cc", "lib/qdp_parscalar_init.cc", "lib/qdp_scalar_layout.cc", "lib/qdp_parscalar_layout.cc"],
  [("isInit checks", "lib/qdp_*_init.cc"), ("create()", "lib/qdp_*_layout.cc")], [("isInit", "initialised flag", "lib/qdp_*_init.cc")], ["return, exit status, queries afterwards"])
p("C21", "The in-memory map object is a finite map",
  "After any history of insertions, overwrites, erasures and clears, look-up, existence, size, key listing and iteration of a memory map object reflect exactly the last value inserted for each key that was not erased since, keys being equal iff their serialised values are; a failed look-up leaves the caller's value unchanged.",
  ["histories"], "all histories of insert, erase, clear, get, exist, keys, user data over all key types",
  "it is not compiled by the tests",
  ["include/qdp_map_obj_memory.h", "include/qdp_map_obj.h"], [("MapObjectMemory", "include/qdp_map_obj_memory.h")], [("src_map", "stored pairs", "include/qdp_map_obj_memory.h")], ["get/exist/size/keys results"])
p("C22", "The disk map returns the last stored value and survives re-opening",
  "After any history of insertions, overwrites with values of the same size, reads, flushes, closes and re-opens, the disk map returns for each key the last value inserted, in whatever order reads and writes were interleaved, and lists exactly the keys inserted; everything stored before a completed flush or close is found with the same user data by any later opening of the file. A process that dies before the next flush does not lose records that had been flushed and not overwritten since, and a file with damaged records or another format is refused, not misread.",
  ["histories", "crash_points", "inputs"], "all histories over one or several files and objects, all points of termination between operations, all single-byte corruptions of stored data",
  "it is not compiled by the tests",
  ["include/qdp_map_obj_disk.h", "lib/qdp_map_obj_disk.cc", "include/qdp_map_obj_disk_multiple.h", "lib/qdp_io.cc"],
  [("insert/get/closeWrite/openRead", "include/qdp_map_obj_disk.h"), ("record and index checksums", "include/qdp_map_obj_disk.h")],
  [("src_map, state, streamer", "key positions, open state, file", "include/qdp_map_obj_disk.h")], ["results, file bytes, exit status"])
p("C23", "Standard streams print once and leave formats as they were",
  "Output through the standard output and error streams appears exactly once per statement on a multi-node machine, in order, with floating-point values at the documented precision and without a lasting change of the underlying stream's format; input is read once and seen equally by all nodes.",
  ["inputs", "histories", "configurations"], "all sequences of printed and read values and manipulators, node counts",
  "tests only print for people",
  ["lib/qdp_stdio.cc", "include/qdp_stdio.h"], [("StandardOutputStream/StandardInputStream", "lib/qdp_stdio.cc")], [], ["bytes on the streams, values read"])
p("C24", "Site-local algebra functions equal their mathematical definitions",
  "The site-local functions on scalars, complex numbers, colour and spin vectors and matrices (products, adjoint, transpose, conjugation, traces over colour, spin or both, outer and inner products, colour contractions, real/imaginary parts, comparisons, where, integer and bit operations, type conversions and multiplication by i) return the mathematical result component by component for every mix of scalar, lattice and element types they accept.",
  ["inputs", "programs"], "all exactly representable operand values and all supported type combinations",
  "only complex multiplication and a few matrix products are sampled",
  ["include/qdp_reality.h", "include/qdp_primmatrix.h", "include/qdp_primvector.h", "include/qdp_primscalar.h", "include/qdp_primcolormat.h", "include/qdp_primspinmat.h", "include/qdp_simpleword.h", "include/qdp_newops.h", "include/qdp_optops.h"],
  [("operator and function templates of each level", "include/qdp_reality.h, include/qdp_prim*.h")], [], ["all components of the result"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
