IRV = 'static value-flow analysis of compiler IR (SSA value numbering to polynomial normal forms) against a textbook tensor oracle'
NOTE = ('Decides the identity for all operand values, component by component, on the current source; reads floating point as exact real '
        'arithmetic and trusts clang\'s translation to IR and the oracle in sa/spec.py.')

prop('P01', 'Arithmetic on real, complex, integer and boolean site objects is exact algebra',
     'For every operator and function the library offers on real, complex, integer and boolean numbers (sums, products, quotients, conjugate, real and imaginary parts, multiplication by i, norms, inner products, comparisons, logical and bit operations, elementary functions, selection by a mask, and every compound assignment), in single, double and mixed precision, the result is the mathematical definition of that operation applied to the operands. Operands are never modified.',
     ['inputs', 'programs'], 'all operand values and every supported pairing of real/complex and single/double operands',
     'The suite exercises a few operators with a handful of numbers; a wrong sign or swapped part in one operand-type combination of one operator is not executed at all.',
     ['include/qdp_reality.h', 'include/qdp_primscalar.h', 'include/QDPOperators.h', 'include/qdp_newops.h'],
     [('scalar and complex operators', 'include/qdp_reality.h'), ('forwarding of scalar operators', 'include/qdp_primscalar.h')],
     observe=['value of the destination object of an assignment'])
check('P01', IRV, NOTE)

prop('P02', 'Colour and spin matrix and vector algebra follows linear algebra',
     'Products of colour/spin matrices, vectors and scalars in every allowed combination, with either factor adjointed, and sums, differences, adjoints, transposes, conjugates, full and partial traces (including traces of products), norms and inner products give the matrix-algebra result on all spin and colour components; a scalar added to or assigned to a matrix acts as that multiple of the unit matrix. Compound assignments equal the corresponding binary operation, and a destination that also appears on the right-hand side is read before it is overwritten.',
     ['inputs', 'programs'], 'all operand values, all supported shape pairs (colour/spin scalar, vector, matrix; half and full spinors), single, double and mixed precision',
     'Tests multiply a few matrices and compare with loose tolerances; index or conjugation errors in one shape combination, in one fused product-trace, or in one precision mix are never instantiated.',
     ['include/qdp_primmatrix.h', 'include/qdp_primvector.h', 'include/qdp_primcolormat.h', 'include/qdp_primcolorvec.h', 'include/qdp_primspinmat.h', 'include/qdp_primspinvec.h', 'include/qdp_primscalar.h', 'include/qdp_optops.h'],
     [('matrix products and fused adjoint products', 'include/qdp_primmatrix.h'), ('matrix-vector products', 'include/qdp_primvector.h'), ('operator fusion', 'include/qdp_optops.h')],
     observe=['components of the destination object'])
check('P02', IRV, NOTE)

prop('P03', 'Tensor contractions and component access touch exactly the named indices',
     'Outer products, spin-traced outer products, two-quark and three-colour contractions with antisymmetric colour tensors, colour cross product, colour-only inner product, and vector contraction equal their defining index sums. Reading a colour or spin component returns exactly that component, and writing one changes exactly that component and no other.',
     ['inputs', 'programs'], 'all operand values and all component indices',
     'Baryon-type contractions and most peek/poke index pairs are not executed by the suite; a single wrong index in an unrolled contraction changes results silently.',
     ['include/qdp_primcolormat.h', 'include/qdp_primcolorvec.h', 'include/qdp_primspinmat.h', 'include/qdp_primscalar.h', 'include/qdp_newops.h', 'include/qdp_globalfuncs.h'],
     [('colour and quark contractions', 'include/qdp_primcolormat.h, include/qdp_primspinmat.h'), ('peek and poke functions', 'include/qdp_globalfuncs.h')],
     observe=['components of the destination object'])
check('P03', IRV, NOTE)

prop('P04', 'Gamma-matrix products use one consistent Clifford algebra basis',
     'Multiplying a spin vector or spin matrix from the left, or a spin matrix from the right, by any of the sixteen gamma-matrix products, chosen at run time or at compile time, equals multiplication by the explicit 4x4 product gamma_1^a gamma_2^b gamma_3^c gamma_4^d of the basis matrices, in both the chiral and the Dirac-Pauli representation. The basis matrices of each representation anticommute and square to one.',
     ['inputs', 'programs'], 'all operand values, all sixteen products, left and right action, run-time and compile-time selection, both representations',
     'There are over a hundred hand-unrolled specialisations; tests touch few of them.',
     ['include/qdp_primspinvec.h', 'include/qdp_primspinmat.h', 'include/qdp_primgamma.h', 'include/qdp_newops.h'],
     [('gamma specialisations on spin vectors', 'include/qdp_primspinvec.h'), ('gamma specialisations on spin matrices', 'include/qdp_primspinmat.h')],
     observe=['components of the destination object'])
check('P04', IRV, NOTE)

prop('P05', 'Spin projection, reconstruction and chiral projectors are exact projections',
     'Projecting a spinor along direction mu with either sign yields the upper half of (1 +/- gamma_mu) psi, reconstructing yields the full spinor whose lower half follows from its upper half by the same gamma matrix, and reconstruct after project equals (1 +/- gamma_mu) psi; chiral projection equals (1 +/- gamma_5)/2. Combining a projection or reconstruction with a link-matrix product gives the same as doing the steps separately.',
     ['inputs', 'programs'], 'all spinor values, four directions, both signs, colour-valued and plain spinors, chiral projection also of spin matrices',
     'A flipped sign in one direction only shows in a Dirac operator for particular inputs; the suite does not apply all eight projectors and reconstructions.',
     ['include/qdp_primspinvec.h', 'include/qdp_primspinmat.h', 'include/QDPOperators.h'],
     [('projection and reconstruction functions', 'include/qdp_primspinvec.h')],
     observe=['components of the destination object'])
check('P05', IRV, NOTE)

prop('P06', 'Lattice expressions act site by site on exactly the requested subset',
     'Assigning or compound-assigning an expression of lattice fields, constants and mixtures of them to a lattice field on a subset (or on the whole lattice) gives every site of that subset the value of the same expression evaluated on the operands at that site, and leaves every other site of the destination and all operands unchanged, for contiguous and for table-driven subsets, in every field type; a destination that is also an operand is read before its site is overwritten.',
     ['inputs', 'programs'], 'all field values, any contiguous or table-driven subset of any size, the listed statement forms for all standard field types',
     'Tests use one lattice size, a few field types and the whole lattice; a loop bound or site index that is wrong only for a table-driven, empty or one-site subset is not visible there.',
     ['include/qdp_outer.h', 'include/scalarsite_generic/', 'include/qdp_scalar_specific.h', 'include/qdp_subset.h', 'include/qdp_newops.h', 'include/QDPOperators.h', 'include/qdp_dispatch.h'],
     [('site loops of expression evaluation', 'include/qdp_scalar_specific.h'), ('splitting of the loop over threads', 'include/qdp_dispatch.h')],
     observe=['contents of the destination field'])
check('P06', IRV, NOTE + ' Loops are analysed for an arbitrary trip count by recognising induction variables, not by unrolling.')

prop('P07', 'Optimised site kernels equal the site-wise definition they replace',
     'Where the library replaces the generic site loop by a specialised routine (scaled additions and subtractions with real or complex coefficients, with and without chirality projectors or gamma_5, scaling, and products of link matrices with matrices, colour vectors, fermions and half fermions, in single and double precision, plain and SSE), the result at every site of the subset is the one the unspecialised definition gives, sites outside the subset are unchanged, and this stays true when the destination is also an operand.',
     ['inputs', 'programs'], 'all field values and coefficients, any contiguous or table-driven subset of any size, every operand order the specialisations cover, with and without aliasing of the destination',
     'The kernels are hand-unrolled and selected by expression type; the suite runs few of the combinations, on one lattice size, never with a destination that is an operand, and compares with tolerances.',
     ['include/scalarsite_generic/', 'include/scalarsite_sse/', 'lib/scalarsite_sse/'],
     [('selection of kernels', 'include/scalarsite_generic/qdp_scalarsite_generic_blas.h, _cblas.h, _blas_g5.h, _linalg.h; include/scalarsite_sse/qdp_scalarsite_sse_blas_double.h'),
      ('hand-unrolled kernels', 'include/scalarsite_generic/generic_*.h, lib/scalarsite_sse/*.cc')],
     observe=['contents of the destination field'])
check('P07', IRV, NOTE + ' Loops are analysed for an arbitrary trip count by recognising induction variables and software-pipelined loads, not by unrolling; SSE intrinsics are interpreted lane by lane.')

prop('P08', 'Global reductions cover each site exactly once, in double precision',
     'The sum, squared norm, inner product and real inner product of lattice fields and of expressions of them, over a subset or over the whole lattice, equal the sum over exactly the sites of that subset (each once, no other site) of the site-wise quantity, and the running total is accumulated in double precision also for single-precision fields. The sum over an empty subset is zero. norm2, innerProduct and innerProductReal of an array of fields or scalars add up the values of all its elements; sumMulti(f,set) holds for every colour the sum over exactly the sites of that colour; globalMax and globalMin are the largest and smallest site value; isnan, isinf, isfinite and isnormal of a field hold exactly when some (respectively every) component of some (every) site satisfies the C classification.',
     ['inputs', 'programs'], 'all field values, any contiguous or table-driven subset of any size including empty, scalar, colour, spin, propagator and staggered fields in single and double precision',
     'Tests reduce a few field types on one small lattice, where a dropped or repeated site of an uneven subset, or a single-precision accumulator that loses digits only on large lattices, stays inside the tolerances.',
     ['include/qdp_scalar_specific.h', 'include/scalarsite_generic/', 'include/scalarsite_sse/', 'lib/scalarsite_sse/'],
     [('site loops of the reductions', 'include/qdp_scalar_specific.h'), ('specialised norms and inner products', 'include/scalarsite_generic/qdp_scalarsite_generic_blas.h, generic_local_sumsq.h, generic_local_vcdot.h')],
     observe=['value returned by sum, sumMulti, norm2, innerProduct, innerProductReal, globalMax, globalMin, isnan, isinf, isfinite, isnormal'])
check('P08', IRV, NOTE + ' The summation order is not distinguished; accumulation type is read from the loop-carried SSA value.')

prop('P09', 'Masks, comparisons and conditional selection act site by site',
     'A comparison or boolean combination of lattice fields yields at each site of the requested subset the truth value of the comparison at that site; where(mask,a,b) takes each site from a when the mask holds there and from b otherwise; copymask overwrites exactly the masked sites of the requested subset and leaves every other site unchanged.',
     ['inputs', 'programs'], 'all field and mask values, any contiguous or table-driven subset of any size, integer, real, complex, colour, spin and propagator fields in single and double precision',
     'The suite has no test for copymask on a subset or for where with expression masks; a selection with exchanged branches or a mask read at the wrong site compiles and is never executed.',
     ['include/qdp_scalar_specific.h', 'include/qdp_outer.h', 'include/qdp_simpleword.h', 'include/qdp_reality.h', 'include/qdp_primmatrix.h', 'include/qdp_primvector.h'],
     [('masked copies of lattice fields', 'include/qdp_scalar_specific.h'), ('component-wise masked copies and selection', 'include/qdp_simpleword.h, include/qdp_reality.h, include/qdp_prim*.h')],
     observe=['contents of the destination field'])
check('P09', IRV, NOTE)

prop('P10', 'Site numbers and coordinates are mutually inverse for every lattice and layout',
     'For every lattice extent the layout admits and each of the four site orderings (lexicographic, two-checkerboard, three-dimensional checkerboard, 32-fold), linearSiteIndex(siteCoords(node,i)) is i for every site number, every coordinate returned lies inside the lattice, the site number of a lexicographic number is that of its coordinates, crtesn and local_site are the lexicographic decoding and encoding of coordinates, and the lattice volume, sites per node, node number and number of nodes agree with the extents after Layout::create.',
     ['inputs'], 'all admissible lattice extents, all sites, all four layouts selectable at configure time',
     'The suite runs one layout on one lattice size; a mapping that is wrong only for unequal extents, for odd values of a higher coordinate, or in a layout other than the configured one passes everywhere.',
     ['lib/qdp_layout.cc', 'lib/qdp_scalar_layout.cc'],
     [('layout maps', 'lib/qdp_scalar_layout.cc'), ('lexicographic helpers', 'lib/qdp_layout.cc')],
     observe=['Layout::siteCoords', 'Layout::linearSiteIndex', 'crtesn', 'local_site'])
check('P10', 'Static analysis: index arithmetic of the layout routines value-numbered in SSA form with mixed-radix (quotient/remainder) normalisation, compared with the closed form', 'Extents and coordinates stay symbolic; no size is sampled. int overflow is excluded.')

prop('P11', 'Sets partition the lattice and every subset lists exactly its own sites',
     'After Set::make(f) (or construction from f) there is one subset per colour; subset c lists, once each and in increasing site number, exactly the local sites whose coordinate f maps to c; latticeColoring gives the colour of every site; the subset knows its colour and owning set, and reports the contiguous representation [start,end] exactly when its sites are consecutive (so that range and table always denote the same sites, including for an empty subset). Copies of a subset or of a set have the same contents and belong to the copy. The predefined all, even, odd, rb, rb3 and mcb are the whole lattice, the two parities of the coordinate sum (of three coordinates for rb3) and the 32 checkerboards.',
     ['inputs', 'histories'], 'all colouring functions, any number of colours, any local volume, all colours and sites',
     'Tests use the predefined sets on one lattice, where each is a plain checkerboard; a table wrong for empty, single-site or accidentally contiguous colours, or a copied set sharing tables with its source, is not noticed.',
     ['lib/qdp_scalarsite_specific.cc', 'lib/qdp_subset.cc', 'include/qdp_subset.h'],
     [('construction of sets', 'Set::make in lib/qdp_scalarsite_specific.cc'), ('copying of sets and subsets, predefined sets', 'lib/qdp_subset.cc')],
     observe=['Subset::siteTable, numSiteTable, hasOrderedRep, start, end, color, getSet', 'Set::latticeColoring, numSubsets'])
check('P11', IRV, NOTE + ' Counting and compacting loops are summarised as conditional sums and "n-th index satisfying" terms; the colouring function is an uninterpreted function of the site. The 32-fold set is checked for its colouring only.')

prop('P12', 'Shifts and maps read each site from exactly the mapped site',
     'A map built from a site function f gives, in any expression and over any subset, at every site x the value of its operand at f(x,sign,dir): Map uses sign +1, ArrayMap the chosen direction, BiDirectionalMap and ArrayBiDirectionalMap the chosen sign (FORWARD +1, BACKWARD -1) and direction. The predefined shift(.,FORWARD,mu) and shift(.,BACKWARD,mu) read the neighbour one step up and down in direction mu with periodic wrap-around for every lattice extent. Shifts of expressions, shifted factors and nested shifts compose accordingly.',
     ['inputs', 'programs'], 'all site functions, field values, lattice extents, directions and signs, any subset',
     'Tests use the nearest-neighbour map on one lattice, mostly with translation-invariant or symmetric quantities, so an exchanged direction, a lost sign or a wrong wrap-around for unequal extents can pass.',
     ['lib/qdp_map.cc', 'lib/qdp_scalar_specific.cc', 'include/qdp_scalar_specific.h', 'include/qdp_map.h'],
     [('map construction', 'lib/qdp_map.cc, Map::make in lib/qdp_scalar_specific.cc'), ('evaluation of shifted expressions', 'FnMap in include/qdp_scalar_specific.h')],
     observe=['contents of the destination field'])
check('P12', IRV, NOTE + ' The site function, the layout maps and the extents stay symbolic; construction loops of the map tables are summarised by inverting their store addresses.')

prop('P25', 'Site access reads and writes exactly the addressed site',
     'peekSite(f, x) is the value of the field or expression f at coordinate x; pokeSite(f, v, x) changes exactly the site at coordinate x, to v; QDP_extract(a, f, s) and QDP_insert(f, a, s) copy exactly the sites of subset s between the field and the array indexed by site number; for every lattice extent, coordinate, subset and every field type.',
     ['inputs', 'programs'], 'all coordinates inside the lattice, all extents, any subset, real, integer, complex, colour, spin and propagator fields',
     'Tests peek a handful of sites on one lattice; a poke that touches a second site or reads through a wrong coordinate order on unequal extents is not noticed.',
     ['include/qdp_scalar_specific.h', 'include/qdp_globalfuncs.h'],
     [('site access', 'peekSite, pokeSite, QDP_extract, QDP_insert in include/qdp_scalar_specific.h')],
     observe=['value returned by peekSite', 'contents of the field or array written'])
check('P25', IRV, NOTE + ' The layout map is an uninterpreted function here (decided by P10).')

prop('P26', 'Fields stored on a subset behave as the restriction of a lattice field',
     'A field that owns storage for a subset (OSubLattice) holds one element per subset site, in site-table order. Assigning or accumulating (=, +=, -=, *=, /=) a scalar, a lattice expression, zero or another such field sets every element to the site-wise result at the corresponding site and touches nothing else; construction from a lattice field gathers its sites; copying preserves elements; sum, innerProduct and localInnerProduct run over exactly the subset.',
     ['inputs', 'programs'], 'all field values, any subset of any size, scalars, colour vectors, colour matrices and fermions in single and double precision',
     'The suite has almost no test of these types; an assignment that reaches only the first element, or pairs element j with a wrong site, compiles and is never executed.',
     ['include/qdp_qdpsubtype.h', 'include/qdp_outersubtype.h', 'include/qdp_globalfuncs_subtype.h', 'include/qdp_scalar_specific.h', 'include/qdp_outer.h'],
     [('assignment operators of subset fields', 'include/qdp_qdpsubtype.h'), ('storage, construction and copying', 'include/qdp_outersubtype.h'), ('reductions', 'include/qdp_globalfuncs_subtype.h')],
     observe=['elements of the destination field', 'value of a reduction'])
check('P26', IRV, NOTE)

prop('P20', 'Arrays keep their shape, layout, values and storage through every operation',
     'multi1d to multi5d, multiNd and the one-based Array1dO to Array5dO: construction and resize give the requested extents; element access by call, by successive [] or by index array, slices and views all address the same element in row-major order (last index fastest), so different indices never share storage; copying, assigning (also to itself, also over a different shape) and filling give exactly the source values and leave the source alone; +, -, *, /, their assignment forms, ==, != and concat act element by element with the array or scalar operand, stopping the program when sizes differ or the rank or index is wrong; storage an array owns is released exactly once and storage it only views never.',
     ['inputs', 'programs', 'histories'], 'all extents, indices and element values; arrays of int and double',
     'The suite constructs a few small arrays; an exchanged extent is invisible for square shapes, and a lost or doubly released block or a broken self-assignment is not noticed at all.',
     ['include/qdp_multi.h', 'include/qdp_arrays.h'],
     [('array classes', 'multi1d, multi2d, multi3d, multi4d, multi5d, multiNd and the operators on multi1d in include/qdp_multi.h'), ('one-based arrays', 'include/qdp_arrays.h')],
     observe=['sizes, element addresses and values, program termination'])
check('P20', 'Static analysis: array code value-numbered in SSA form with symbolic extents; index arithmetic in mixed-radix normal form; allocation/release pairing over all paths', 'Extents, indices and contents stay symbolic. The ordering comparisons < and > of multi1d are not decided. int overflow is excluded.')

prop('P21', 'Every lattice field owns its storage; copies are deep, views borrow',
     'A lattice field owns one block holding an element for every site of the node (a field on a subset: for every site of the subset), for every element type and volume, obtained when it is created and released exactly once when it is destroyed or moved to another subset. Two fields never share storage: copying, initialising from an expression, converting and returning by value give a block of its own with the values of the source; assigning keeps the storage of both sides. A view (of an existing array, or a subset view of a field) uses the storage it was given and never releases it; giving a view another subset stops the program. The allocator hands out aligned blocks that lie inside the storage it obtained, remembers them, releases exactly the storage behind a block it is given back, and stops the program on an address it does not know.',
     ['inputs', 'programs', 'histories'], 'all field values, volumes up to 2^27 sites, arbitrary subsets, request sizes and addresses; five element types',
     'A doubly released or leaked block, a shared copy or a size that wraps for a large volume leaves small test programs running normally.',
     ['include/qdp_outer.h', 'include/qdp_outersubtype.h', 'include/qdp_qdpsubtype.h', 'lib/qdp_default_allocator.cc'],
     [('lattice fields', 'OLattice constructors, destructor, alloc_mem and free_mem in include/qdp_outer.h'), ('subset fields', 'OSubLattice in include/qdp_outersubtype.h'), ('allocator', 'lib/qdp_default_allocator.cc')],
     observe=['storage obtained and released, addresses and values of elements, program termination'])
check('P21', 'Static analysis: ownership analysis over SSA value numbering (allocation/release pairing on all paths, symbolic block sizes)', 'The allocator used is the default one (the other pools are not built). Five representative element types stand for all. Field storage only; arrays are P20.')

prop('P22', 'A disk map returns for every key the value last stored, also after reopening',
     'In a map kept on disk (MapObjectDisk), inserting a value under a new key writes it and then its checksum at the end of the file, and the index records that place under the serialised key; inserting under a known key overwrites that record, value and checksum, and nothing else. get returns the value found at the recorded place, or 1 if the key is not in the map; it changes neither file nor index and stops the program exactly when the checksum read differs from that of the record. A file starts with magic, version, user data and a link; closing (or flushing) a changed map writes the index with its checksum behind the last record and only then the link to it, so every record present before is still reachable; closing an unchanged map writes nothing. Opening an existing file stops the program unless magic and index checksum are right, and makes known exactly the keys its index lists; after closing, nothing of the file is remembered. exist, size, keys and user data agree with the index; a map without a file refuses insert and get.',
     ['inputs', 'histories'], 'all keys, values, user data, file lengths, index sizes and map states; histories of up to six calls besides the single operations',
     'The tests do not use disk maps at all, and the damage (an overwritten record, a stale key, an index entry lost on close) shows only in particular orders of insert, get, update and reopen.',
     ['include/qdp_map_obj_disk.h', 'include/qdp_map_obj.h'],
     [('disk map', 'MapObjectDisk in include/qdp_map_obj_disk.h')],
     observe=['file contents and positions, return values, program termination'])
check('P22', 'Static analysis: SSA value numbering over an abstract file and index (event traces with symbolic positions)', 'MapObjectDisk<int,double> stands for all instances. Values of one size. MapObjectDiskMultiple and the XML interface are not analysed.')

prop('P23', 'A map kept in memory holds for every key the value last stored and nothing else',
     'In a map kept in memory (MapObjectMemory), insert, with separate arguments or a pair, stores the value under a new key as one more element and replaces the value of a known key without adding an element; it returns 0. get returns 0 and the value stored under the key, or 1, leaving the caller\'s value alone, if there is none. exist, size and the two forms of operator[] agree with that: operator[] is the stored value itself, and stops the program for an unknown key. erase removes exactly the given key and does nothing for an unknown one; clear removes everything; flush, and everything that only reads, changes nothing. keys, keysAndValues and iteration deliver every element once, key and value side by side, and the vectors passed in are emptied first. The user data returned are those last inserted. The null map (MapObjectNull) never holds anything: insert and get return 1 and exist is false.',
     ['inputs', 'histories'], 'all keys, values and map contents',
     'The tests do not use these maps; results depend on the contents, which are whatever earlier calls left.',
     ['include/qdp_map_obj_memory.h', 'include/qdp_map_obj_null.h'],
     [('map in memory', 'MapObjectMemory in include/qdp_map_obj_memory.h')],
     observe=['return values and map contents'])
check('P23', 'Static analysis: SSA value numbering over an abstract hash table (event traces)', 'MapObjectMemory<int,double> stands for all instances. Insertion of an iterator range and the XML interface are not analysed.')

prop('P27', 'Threaded execution covers the same sites exactly once',
     'With OpenMP or QMT threading selected, every lattice statement, masked copy, kernel and reduction gives the same result as the serial build for every number of threads: the work handed to the workers tiles the range 0..n-1 of subset entries for every number of entries and threads (including more threads than entries and volumes whose product with the thread count exceeds int), each worker is told its own number, processes exactly its piece, writes only destination elements of its piece or its own reduction slot, and the slots of all threads, including idle ones, are combined into the result.',
     ['inputs', 'schedules', 'programs'], 'any number of threads and of subset entries up to 2^31-1, any piece of the work, any subset; the same types and statements as P06-P09',
     'The tests run the unthreaded build only: a piece boundary that skips or doubles a site, a kernel that ignores the start of its piece, or a partial sum of an idle thread that is not reset is invisible to them.',
     ['include/qdp_dispatch.h', 'include/qdp_scalar_specific.h', 'include/scalarsite_generic', 'include/scalarsite_sse'],
     [('distribution of work', 'dispatch_to_threads in include/qdp_dispatch.h'), ('worker functions', 'evaluate_userfunc, *_user_arg and *_evaluate_function in include/qdp_scalar_specific.h and include/scalarsite_*')],
     observe=['contents of the destination field', 'value of a reduction'])
check('P27', IRV, NOTE + ' The OpenMP and QMT variants are compiled against stand-in headers; one arbitrary worker is analysed and the tiling of the pieces is shown in normal form.')

prop('P16', 'Mixed-precision statements never lose the wider precision',
     'In every operation and lattice statement that combines single- and double-precision operands, an operand of double precision is not rounded to single precision before it is used, intermediate quantities (also reciprocals, norms and partial products) of an operation with a double-precision operand and result are computed in double precision, comparisons compare the unrounded values, and a single-precision destination is rounded once, when the result is stored.',
     ['inputs', 'programs'], 'every operator, function, lattice statement, masked copy and reduction of P01-P09, in all pairings of single and double precision',
     'Lost digits stay inside the tolerances of the tests, which moreover hardly mix precisions.',
     ['include/qdp_reality.h', 'include/qdp_primscalar.h', 'include/qdp_primmatrix.h', 'include/qdp_primvector.h', 'include/qdp_newops.h', 'include/scalarsite_generic/'],
     [('type promotion', 'BinaryReturn, UnaryReturn, RealScalar, DoublePrecision traits in include/qdp_*.h and include/PETE'), ('operators', 'include/qdp_reality.h, include/qdp_primmatrix.h')],
     observe=['value of the destination of an assignment'])
check('P16', 'Static analysis: forward taint (rounded value) dataflow over SSA form of the compiled statements', 'Operations whose operands are all single precision are C++ single-precision arithmetic and not claimed.')

prop('P18', 'Random numbers follow the documented generator, site by site',
     'Seeds are 47-bit integers in three 12-bit and one 11-bit digits; their product, left shift (up to 12), conversion from integers, comparison and conversion to a number are exactly x*y mod 2^47, x*2^n mod 2^47, and x/2^47. random() on a scalar draws its components in storage order from the linear congruential sequence with multiplier a=1645+712*2^12+1498*2^24+1222*2^36 and advances the global seed by one step per component; random() and gaussian() on a field or any subset of it fill exactly the sites of the subset, the numbers at a site depend only on the global seed and the lexicographic number of the site (its sequence starts at seed*a^(number+1) and steps by a^(volume+1)), and the global seed afterwards is advanced once per component drawn, unchanged if the subset has no site; gaussian numbers are the polar transform of two such draws. setrn and savern set and return the seed. The independent RANNYU generator is the 48-bit step X -> aX+1 on four 12-bit digits, returns numbers in [0,1), uses the seed given by setrn from the first call on, and refuses seeds of another length.',
     ['inputs', 'histories', 'programs'], 'all seeds, all subsets (also empty), all coordinates and extents, real, complex, colour, spin and propagator fields in single and double precision',
     'The tests print a few random numbers; a lost carry that needs large digits, a stream that depends on the subset or on the site order, a seed that is not restored, or an empty subset that corrupts the global seed is not noticed.',
     ['lib/qdp_random.cc', 'include/qdp_primseed.h', 'include/qdp_scalar_specific.h', 'include/qdp_random.h', 'lib/qdp_rannyu.cc', 'include/qdp_reality.h'],
     [('seed arithmetic', 'include/qdp_primseed.h'), ('generator and multipliers', 'lib/qdp_random.cc'), ('filling of scalars and fields', 'random, gaussian in include/qdp_scalar_specific.h, fill_random and fill_gaussian in the primitive headers'), ('RANNYU', 'lib/qdp_rannyu.cc')],
     observe=['contents of the destination', 'RNG::savern', 'RANNYU::savern'])
check('P18', IRV, NOTE + ' Rounding of the conversion to float is not modelled, so a number may round up to 1. Gaussian quality is not claimed, only the transform.')

prop('P13', 'Binary input/output transfers exactly the data, in order',
     'Writing a value with the binary writers transfers exactly its bytes: primitives as big-endian words of their size; strings, multi1d to multi5d, multiNd and std::vector with their extents first (row by row, in the order the reader expects) and then the elements in storage order; fields site by site in lexicographic order of the coordinates, whatever the layout, and slices of a time coordinate in the same order; the matching reader performs the same sequence of transfers, resizes to the extents read and stores every word where it belongs, so that reading what was written restores it. Byte swapping reverses the bytes of every element and touches nothing else. The running checksum covers exactly the bytes transferred, in order, starts at zero for every new reader or writer and every file opened, and is the same for writer and reader; buffers keep exactly the characters given to them; a file is opened under the name given, in binary mode, for reading (readers) or emptied for writing (writers), the program stops if that fails, and close and flush reach the file exactly when it is open.',
     ['inputs', 'programs', 'histories'], 'all primitive types, all extents and contents, every lattice layout, fields of real, complex, colour, spin and propagator type in single and double precision',
     'The tests write a few small objects and read them back with the same build, so an order or byte order wrong on both sides is invisible, as are an extent lost for non-square shapes, sites out of order for some layouts, or a checksum that skips data.',
     ['lib/qdp_io.cc', 'include/qdp_io.h', 'include/qdp_scalar_specific.h', 'lib/qdp_scalar_specific.cc', 'lib/qdp_byteorder.cc', 'include/qdp_disk_map_slice.h', 'include/qdp_iogauge.h'],
     [('binary readers and writers', 'BinaryReader, BinaryWriter and derived classes in lib/qdp_io.cc'), ('templates for containers and fields', 'read, write in include/qdp_io.h and include/qdp_scalar_specific.h'), ('byte order', 'lib/qdp_byteorder.cc'), ('text streams', 'TextReader, TextWriter in lib/qdp_io.cc')],
     observe=['bytes written', 'objects read', 'getChecksum'])
check('P13', 'Static analysis: effect analysis of the read and write functions on SSA form; the sequence of transfers in normal form is compared with the format', 'The stream library itself is an oracle (calls are observed, not analysed). Fewer than 2^32 elements per transfer. readers and writers of multiNd are only decided for the sizes, not the product of them.')

prop('P14', 'The checksum of binary files is CRC-32',
     'QDPUtil::crc32(crc, buf, len) is the standard CRC-32 (reflected polynomial 0xEDB88320, register preset and result complemented) continued from crc over exactly the len bytes at buf, for every seed, every length (0 leaves the seed unchanged) and every content, signed or unsigned char; hence the checksum of data passed in pieces equals that of the whole. A null buffer gives 0.',
     ['inputs'], 'all seeds, contents and lengths (also beyond 2^32 bytes)',
     'No test calls the routine with known answers; one wrong entry of the table, or a length handled wrongly for some remainder modulo 8, changes the checksum of some files only, and the writer and reader still agree.',
     ['lib/qdp_crc32.cc', 'include/qdp_byteorder.h'], [('checksum', 'QDPUtil::crc32 in lib/qdp_crc32.cc')], observe=['return value'])
check('P14', 'Static analysis: SSA value numbering with loop summaries, words normalised to affine forms over GF(2) in the bits of register and data (linear-relation dataflow)', 'Single steps are compared with the shift register itself, so tables, bitwise or sliced implementations are all decided. 64-bit arithmetic on the data words would be reported undecided.')

prop('P15', 'NERSC archive gauge fields are read and written in the archive layout',
     'readArchiv and writeArchiv transfer the links of a gauge field site by site in lexicographic order of the coordinates whatever the layout, direction fastest after the site, each 3x3 matrix row by row with real before imaginary part, as 18 or (matrix size 12) the first 12 reals; for size 12 the reader restores the third row as the conjugate of the cross product of the first two. Single precision and double precision records are both read. The checksum is the sum modulo 2^32 of all 32-bit words of the records, so a file read reports the checksum that computeChecksum gives for the field.',
     ['inputs'], 'all gauge configurations, lattice sizes and layouts; matrix sizes 12 and 18, 4 and 8 byte words',
     'The test suite never reads or writes an archive; one wrong index or sign of the reconstructed row changes configurations read from other programs, while files written and read by the same build still agree.',
     ['lib/qdp_scalar_specific.cc', 'include/qdp_iogauge.h', 'include/qdp_scalar_specific.h'],
     [('reader and writer', 'readArchiv, writeArchiv, computeChecksum in lib/qdp_scalar_specific.cc')], observe=['gauge field read', 'bytes written', 'checksum'])
check('P15', 'Static analysis: effect analysis of the archive reader and writer on SSA form; transfers, stores and the checksum in normal form are compared with the format', 'The text header (qdp_iogauge.cc) needs the XML library, which is not part of this build.')

prop('P24', 'A stopwatch reports the total length of its start-stop intervals',
     'StopWatch: the time reported is the sum, over all start-stop pairs since construction or the last reset, of the clock time between them, whatever the fractions of a second; time between stop and the next start is not counted, starting a running watch begins the interval anew, stopping a watch that is not running and reading the time change nothing, reset returns to zero and discards a running interval, an interval for which the clock could not be read counts nothing, and seconds and microseconds agree.',
     ['histories', 'inputs'], 'all clock readings and all earlier histories of the stopwatch',
     'The tests only print times; an interval that crosses a second boundary, a second interval or a reset is never checked against a clock.',
     ['lib/qdp_stopwatch.cc', 'include/qdp_stopwatch.h'], [('stopwatch', 'StopWatch in lib/qdp_stopwatch.cc')], observe=['getTimeInSeconds', 'getTimeInMicroseconds'])
check('P24', 'Static analysis: SSA value numbering of operation sequences from a free state with free clock readings', 'Inductive: one step from an arbitrary state, so all histories are covered.')

prop('P31', 'A flop counter holds exactly the flops added since its last reset',
     'FlopCounter: getFlops is the sum, since construction or the last reset, of the flops given to addFlops, of those given to addSiteFlops times the number of sites of the node, and of those given to addSiteFlops with a subset times the number of sites of that subset, whatever the order and number of calls; reading changes nothing; a copy starts with the count of the original and is independent of it.',
     ['histories', 'inputs'], 'all counts, subsets and earlier histories of the counter',
     'The tests count nothing; a count that forgets a call or uses the wrong number of sites only shows in a printed rate.',
     ['include/qdp_flopcount.h'], [('flop counter', 'FlopCounter in include/qdp_flopcount.h')], observe=['getFlops'])
check('P31', 'Static analysis: SSA value numbering of operation sequences from a free state', 'Inductive: one step from an arbitrary state, so all histories are covered. The printed report is not covered.')

prop('P32', 'The library starts once, reads its options safely and releases what it holds',
     'QDP_initialize stops the program when the library is already initialised, when a word of the command line asks for help (-h), or when -poolsize is the last word; otherwise it returns with QDP_isInitialized true, whatever the other words are; it never reads beyond the last word. QDP_finalize makes QDP_isInitialized false and releases exactly once the scratch space of the reductions (one real per thread for norms, two for inner products), also when it is called again or after another start; QDP_abort finalises and ends the program with the status given.',
     ['histories', 'inputs'], 'all command lines of up to four words, all earlier states of the library',
     'Every test starts the library once, without options, and ends it once.',
     ['lib/qdp_scalar_init.cc', 'include/qdp_init.h'], [('start and end', 'QDP_initialize, QDP_finalize, QDP_abort in lib/qdp_scalar_init.cc')], observe=['QDP_isInitialized', 'whether the call returns', 'exit status', 'memory obtained and released'])
check('P32', 'Static analysis: SSA value numbering with path conditions and an ownership (release exactly once) analysis over call sequences', 'Sequences of initialise and finalise calls from a free state; generic and OpenMP configurations.')

prop('P33', 'Several disk maps opened together answer with the first file holding the key',
     'MapObjectDiskMultiple: open opens every file given for reading, and only for reading; get returns 0 and the value of the first file in order that holds the key, and otherwise something else leaving the value alone; exist says whether any file holds it; fileExists says whether all the files named exist, before open as well; the user data are those of the first file; setDebug reaches every file. close ends every map; after it, as before open, no key is found, closing again does nothing and other files can be opened; nothing opened is lost or released twice.',
     ['inputs', 'histories'], 'all contents of up to three files, all histories of open, close and lookup decided one by one',
     'No test opens several files; a file skipped, or the wrong one of two values, is only seen with overlapping files.',
     ['include/qdp_map_obj_disk_multiple.h'], [('several files', 'MapObjectDiskMultiple in include/qdp_map_obj_disk_multiple.h')], observe=['return values', 'files opened and closed', 'memory obtained and released'])
check('P33', 'Static analysis: SSA value numbering of call histories over an abstract disk map, with ownership (release exactly once) analysis', 'The single map is decided by P22; the list of keys of all files is not covered.')

prop('P17', 'XML documents are read back as they were written',
     'Values written with XMLFileWriter or XMLBufferWriter and read with XMLReader at the same path give the original value, for every primitive, array and string.',
     ['inputs', 'histories'], 'all values', 'Only a few documents are tried.',
     ['include/qdp_xmlio.h', 'lib/qdp_xmlio.cc'], [('XML reader and writer', 'lib/qdp_xmlio.cc')], observe=['value read'])
na('P17', 'parsing and printing are done by the xpath_reader library on top of libxml2; neither is built in this configuration and libxml2 is not installed, so the translation units cannot be compiled to anything analysable; what remains is the behaviour of an external parser')

prop('P19', 'Several nodes give the same result as one',
     'With the parallel architecture layer, shifts, reductions, site access and input/output give the same results for every distribution of the lattice over nodes.',
     ['inputs', 'schedules', 'programs'], 'all node grids and message orders', 'The tests run on one node.',
     ['lib/qdp_parscalar_specific.cc', 'include/qdp_parscalar_specific.h', 'lib/qdp_parscalar_layout.cc'], [('communication', 'include/qdp_parscalar_specific.h')], observe=['contents of the destination field'])
na('P19', 'the layer is written against the QMP message-passing library, whose headers and semantics are absent here; the result depends on message matching between processes, a runtime quantity no static argument over one process bounds')

prop('P28', 'Floating-point results are accurate to rounding',
     'Results of expressions, reductions and elementary functions differ from the exact value by no more than accumulated rounding errors of the declared precision.',
     ['inputs'], 'all operand values', 'A few values are compared with loose tolerances.',
     ['include/'], [('arithmetic', 'include/qdp_reality.h')], observe=['value of the destination of an assignment'])
prop('P30', 'Text input/output passes every component of an object once, in order',
     'Writing an object as text passes each of its components exactly once to the stream given: vectors by rising index, matrices row index fastest, colour inside spin, real before imaginary part, seeds digit by digit. Complex numbers on standard streams appear as "( re , im )". A TextWriter leaves white space between the components of one object, so that a TextReader, which fills exactly the components in the same order, takes back what was written. Every primitive type, strings and literals included, is passed on unchanged by TextWriter, TextReader, StandardOutputStream and StandardInputStream. StandardOutputStream prints float with 7 and double with 15 significant digits and leaves the precision of the stream as it was. Text files are opened under the name given (writers empty them), the program stops if that fails, and close and flush reach the file exactly when it is open; text buffers keep exactly the characters given to them.',
     ['inputs', 'programs'], 'all values of 14 object types and 12 primitive types; all stream states',
     'The tests print a few objects without looking at the output; values that run together or a component in the wrong place are found only by reading back.',
     ['include/qdp_reality.h', 'include/qdp_primvector.h', 'include/qdp_primmatrix.h', 'include/qdp_primspinvec.h', 'include/qdp_primseed.h', 'include/qdp_primscalar.h', 'include/qdp_outer.h', 'lib/qdp_io.cc', 'lib/qdp_stdio.cc', 'include/qdp_stdio.h'],
     [('operators', 'operator<< and operator>> of the site types'), ('text files', 'TextReader, TextWriter in lib/qdp_io.cc'), ('standard streams', 'StandardOutputStream, StandardInputStream in lib/qdp_stdio.cc')],
     observe=['characters written, components read'])
check('P30', 'Static analysis: effect analysis on SSA form (sequence of stream operations in normal form against the format)', 'The stream library formats single values (oracle). XML streams are not built. TextWriter uses the default precision of the stream.')

na('P28', 'needs bounds on runtime magnitudes (cancellation, summation length, libm accuracy) that no static argument in reach gives; the checks read floating point as exact arithmetic, and only the loss of a wider precision (P16) and the accumulator type (P08) are decided')

prop('P29', 'QIO, HDF5 and database files hold what was stored',
     'Objects written through the QIO, HDF5 and FILEDB interfaces are read back unchanged.',
     ['inputs', 'histories', 'crash_points'], 'all objects and histories', 'None of these interfaces is built or tested.',
     ['include/qdp_qdpio.h', 'lib/qdp_qdpio.cc', 'include/qdp_hdf5.h', 'include/qdp_db_imp.h'], [('interfaces to external file formats', 'include/qdp_qdpio.h, include/qdp_hdf5.h, include/qdp_db_imp.h')], observe=['object read'])
na('P29', 'the formats are implemented by external libraries (QIO, HDF5, filedb) that are not present; the interface code does not compile in this configuration')
