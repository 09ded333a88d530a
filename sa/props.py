"""One function per property: what is analysed and the rule applied."""
import os
import re
import lib
import wit
import algebra
import lattice
import geo
import subty
import sets
import redm
import arr
import thr
import rng
import bio
import crc
import nersc
import watch
import life
import mdm
import prec
import own
import alloc
import dmap
import mmem
import text

UNSUP = [l.strip() for l in open(os.path.join(lib.HERE, 'unsupported.txt')) if l.strip() and l[0] != '#']


def supported(ws):
    return [w for w in ws if not any(re.match(p, w.name) for p in UNSUP)]


POINT_RULE = ('Each witness is a user-level expression on site objects; its optimised SSA form (all expression-template and primitive '
              'layers inlined) is normalised by value numbering to polynomials over the operand components, and every destination '
              'component must be identical to the textbook definition.')
POINT_ASSUME = ['floating-point arithmetic is read as exact real arithmetic (operation order, rounding and NaN payloads are not distinguished)',
                'operands of one witness are distinct objects except where the witness itself aliases them',
                'clang 18 translates the C++ source correctly to LLVM IR; Nc=3, Ns=4, Nd=4 as configured']


def algebra_check(fn, floor, chunk=16):
    def check(ctx, R):
        R.rules.append(POINT_RULE)
        R.assume += POINT_ASSUME
        ws = supported(fn())
        R.points(wit.run(ctx, [('generic', ws, '')], chunk), floor)
    return check


LAT_RULE = ('Each witness is a user-level statement on lattice fields over an arbitrary subset; the site loop (or table walk) of the optimised SSA form '
            'is recognised, the iteration range is required to be exactly the subset, every store must land in the destination at the current site, '
            'and each stored component must equal the site-wise definition in terms of the operands at that same site.')
LAT_ASSUME = POINT_ASSUME + ['subset tables hold distinct site numbers of the local volume (that is what P11 decides)',
                             'scalar (single-node) architecture layer, one thread, as built']


def lattice_check(jobs, floor, rule=LAT_RULE, assume=LAT_ASSUME):
    def check(ctx, R):
        R.rules.append(rule)
        R.assume += assume
        R.points(wit.run(ctx, [(c, supported(f()), lattice.sseprelude if c in ('sse', 'thrsse') else thr.prelude if f in (thr.serial, thr.qmt, thr.omp) else redm.prelude if f is redm.everything else lattice.prelude) for c, f in jobs]), floor)
    return check


GEO_RULE = ('Each witness fixes the lattice extents as free sizes and the site or coordinate as free digits below those sizes; the index arithmetic of the '
            'library routine, inlined into SSA form, is normalised with mixed-radix rules for quotients, remainders and bit operations and must equal the closed form required.')
GEO_ASSUME = ['index arithmetic does not overflow int', 'clang 18 translates the C++ source correctly to LLVM IR; Nd=4 as configured',
              'checkerboarded layouts require even extents (multiples of four in x for CB32), which Layout::create enforces or assumes']


def geo_check(jobs, floor, rule=GEO_RULE, assume=GEO_ASSUME, chunk=None):
    def check(ctx, R):
        R.rules.append(rule)
        R.assume += assume
        R.points(wit.run(ctx, jobs(), chunk), floor)
    return check


SHIFT_RULE = ('Each witness builds a map from an opaque site function (or the default nearest-neighbour maps over free extents) and assigns a shifted expression to a field over '
              'an arbitrary subset; after inlining and value numbering the value stored at every site must be the expression at the mapped site, through table construction, selection and expression evaluation.')
SHIFT_ASSUME = LAT_ASSUME + ['the layout maps are uninterpreted inverse functions (decided by P10)', 'site tables hold sites of the local volume']


ACCESS_RULE = ('Each witness peeks, pokes, extracts or inserts at an arbitrary coordinate or subset; the value read, and every element written, must be the one at the site number '
               'of that coordinate (respectively at that entry of the site table), and nothing else may be written.')
SUB_RULE = ('Each witness is a statement on a field that owns storage for a subset only; element j of it is tied to entry j of the site table, every assignment must write element j '
            'for all entries, from operands read at that entry, and reductions must run over exactly the entries.')

SET_RULE = ('Each witness builds a set (from an arbitrary colouring function, or the predefined ones) and reads one subset of it at an arbitrary index; the counting, table-filling and '
            'contiguity-scanning loops are summarised in normal form and the values read must be those of the partition by colour.')
SET_ASSUME = ['the coordinates of a site are what Layout::siteCoords returns (decided by P10); all sites are on this node (scalar layer)', 'clang 18 translates the C++ source correctly to LLVM IR',
              'pointers held in different elements of one array own different storage']

ARR_RULE = ('Each witness performs array operations with symbolic extents, indices and contents and reads sizes, element addresses, element values and abort conditions back; each must equal the specified '
            'normal form, and storage allocated inside the witness must be released exactly once and nothing else released.')
ARR_ASSUME = ['extents and indices do not overflow int', 'operator new returns fresh storage or null', 'clang 18 translates the C++ source correctly to LLVM IR']

THR_RULE = ('The same statements are compiled with threading enabled: an arbitrary worker must process exactly the piece of the subset (or volume) it was given, reductions must combine the slots of all '
            'workers, and the dispatcher itself must hand out pieces that tile the work, number the workers, pass on the argument record and write nothing shared.')
THR_ASSUME = ['each site is handled by one worker and site statements touch that site only (shown by the same witnesses), so the order of the workers does not matter',
              'the QMT runtime partitions the range it is given; operands of one witness are distinct objects except where aliased', POINT_ASSUME[0], POINT_ASSUME[2]]
THR_JOBS = [('thr', f) for f in (lattice.basic, lattice.kcm, lattice.masked, lattice.kf, lattice.g5f, lattice.laf, lattice.redf, lattice.redd)] + [
    ('thrsse', f) for f in (lattice.lad, lattice.kd, lattice.redd)] + [('generic', thr.serial), ('thr', thr.qmt), ('omp', thr.omp)]

OWN_RULE = ('Each witness creates, copies, assigns, converts, returns and destroys fields; every block obtained from and returned to the allocator is tracked over all paths: number, size (products kept exact, '
            'a reduction to 32 bits is seen), values found at an arbitrary site, and exactly one release. The allocator itself is reduced to the block it obtains, the address it hands out and its record, with the map kept abstract.')
DM_RULE = ('The member functions run (abstractly) over a model of the file - position, length, where the checksum counts from, every transfer an event - and of the index. Each witness is one operation on an arbitrary open map, or a '
           'history of open, insert, flush, get, close; the events left under each condition are compared with the specified ones: kind, order, place and content, the loop over the index included.')
DM_ASSUME = ['the stream classes move the position as P13 decides them', 'std::unordered_map finds what was inserted', 'serialisation of a key is injective', 'every value of one map has the same size on disk (a larger value stored under a known key reaches into the next record: see DESIGN.md)']
TX_RULE = ('Every insertion into and extraction from a stream is an event of the normal form of the operation: stream, value or address, text around it. The sequence of events must be exactly the components of the object in order; '
           'the precision cell of the stream is read off at each event and at the end. Opening, closing, flushing and setting of files and buffers must reach the library under exactly the specified condition.')
TX_ASSUME = ['the stream library formats and parses single values (oracle)', 'a single node']
MM_RULE = ('Each member function runs (abstractly) over a model of the hash table in which insertions, erasures and clearing are events and the table holds an arbitrary number of arbitrary entries; '
           'the events left for a known and for an unknown key, the value seen at the key afterwards and the results are compared with the specified ones.')
MM_ASSUME = ['std::unordered_map finds what was inserted', 'serialisation of a key is injective']
OWN_ASSUME = ['std::map finds what was inserted and not erased', 'operator new returns fresh storage or throws', 'at most 2^27 sites on a node', POINT_ASSUME[2]]

RNG_RULE = ('Seed arithmetic is value-numbered to nested quotients and remainders of its 12-bit digits and compared with multiplication, shift and scaling modulo 2^47; with the product of seeds then read as '
            'multiplication in a commutative monoid, every random number, the seed left behind and the multiplier of every site must be the prescribed monomial.')
RNG_ASSUME = ['seed digits are 0..4095 (top digit 0..2047)', 'the initialisation of the multipliers is decided for volumes of one to four bits with the bits themselves free (the squaring loop needs a known length)', POINT_ASSUME[0], POINT_ASSUME[2]]

IO_RULE = ('The library source is compiled together with each witness; every read or write function, applied to free data, is reduced to its sequence of transfers (element size, count, address or value, loop '
           'nest and condition), which must be the specified one for the writer and the same one for the reader; streams, checksums and byte swapping are value-numbered the same way. No transfer may leave a buffer whose size is known where it is obtained.')
IO_ASSUME = ['the file system and the C++ stream library behave as documented', 'extents do not overflow int; buffers of different objects do not overlap', 'clang 18 translates the C++ source correctly to LLVM IR',
             'single-node architecture layer']
IO_JOBS = lambda: [('generic', f(), bio.prelude) for f in (bio.prims, bio.conts, bio.multis, bio.lats, bio.slices, bio.swaps, bio.streams, bio.cksums, bio.strings)] + [('generic', text.bfiles(), text.fprelude)]

MDM_RULE = ('MapObjectDiskMultiple is compiled over an abstract disk map (whether a file holds a key, and the value, are free) for histories of one to three files; results, the files opened, '
            'and the maps ended and released must be the specified ones.')
MDM_ASSUME = ['a single disk map behaves as decided by P22', 'histories with up to three files; the loops treat every file alike', 'clang 18 translates the C++ source correctly to LLVM IR']
FLOP_RULE = 'The counter starts in a free state; every sequence of operations must report the count before plus the flops added, times the local volume or the number of sites of the subset where they are given per site.'
LIFE_RULE = ('The start and the end of the program are compiled with the library source for command lines of up to four free words; whether the program is stopped, the state reported, every word handed to the C library, '
             'the blocks allocated and released and the exit status must be the specified ones.')
LIFE_ASSUME = ['command lines of up to four words are decided; the option loop treats every word alike', 'strcmp and sscanf behave as documented', 'clang 18 translates the C++ source correctly to LLVM IR']
WATCH_RULE = 'Every reading of the clock is a free time and the stopwatch starts in a free state; the time reported after a sequence of operations must be the time reported before plus the intervals of the sequence.'
WATCH_ASSUME = ['the clock does not run backwards', 'total time below 2^53 microseconds', 'clang 18 translates the C++ source correctly to LLVM IR']
NERSC_RULE = ('readArchiv, writeArchiv and computeChecksum are compiled with the library source and reduced, for free fields and lattice sizes, to their transfers and stores (loop nest, site address, word '
              'within the record, value), which must be those of the NERSC archive format; no transfer may leave its buffer.')
CRC_RULE = ('The checksum routine is value-numbered for a free seed, buffer and length; words are then normalised to affine forms over GF(2) in the bits of the register and of the data. Every loop must be a whole number '
            'of steps of the shift register (polynomial 0xEDB88320) over consecutive bytes, every table used must be linear, and the result must be the complement of the register after exactly the given number of bytes.')
CRC_ASSUME = ['clang 18 translates the C++ source correctly to LLVM IR']

PREC_RULE = ('Forward dataflow over the SSA form of every witness: a value converted from double to float is rounded, and so is everything copied from it through selections, vectors and temporaries. '
             'A rounded value may be stored but never enter arithmetic, a comparison or a widening; a statement with a double operand and a double destination may contain no single-precision arithmetic at all.')


def prec_check(ctx, R):
    R.rules.append(PREC_RULE)
    R.assume += ['clang 18 translates the C++ source correctly to LLVM IR', 'a conversion of a value that is a float already is exact']
    R.points(wit.run(ctx, [('generic', prec.wrap(supported(algebra.scalars() + algebra.matrices() + algebra.gammas())), '')], 16))
    R.points(wit.run(ctx, [('generic', prec.wrap(supported(algebra.contractions())), '')], 4))
    jobs = [('generic', f) for f in (lattice.basic, lattice.kcm, lattice.kf, lattice.g5f, lattice.laf, lattice.masked, lattice.redf, lattice.redd)] + [('sse', f) for f in (lattice.lad, lattice.kd, lattice.redd)]
    R.points(wit.run(ctx, [(c, prec.wrap(supported(f())), lattice.sseprelude if c == 'sse' else lattice.prelude) for c, f in jobs]), 1400)


CHECKS = {
    'P16': prec_check,
    'P13': geo_check(IO_JOBS, 270, IO_RULE, IO_ASSUME),
    'P14': geo_check(lambda: [('generic', crc.crcs(), crc.prelude)], 20, CRC_RULE, CRC_ASSUME),
    'P15': geo_check(lambda: [('generic', f(), nersc.prelude) for f in (nersc.arch, nersc.rd, nersc.cks)], 8, NERSC_RULE, IO_ASSUME),
    'P24': geo_check(lambda: [('generic', watch.watches(), watch.prelude)], 16, WATCH_RULE, WATCH_ASSUME),
    'P31': geo_check(lambda: [('generic', life.counters(), life.prelude)], 12, FLOP_RULE, ['counts stay below 2^63', 'clang 18 translates the C++ source correctly to LLVM IR']),
    'P32': geo_check(lambda: [('generic', life.cycle(), life.lprelude), ('generic', life.aborting(), life.eprelude), ('omp', life.threaded(), life.lprelude)], 14, LIFE_RULE, LIFE_ASSUME),
    'P33': geo_check(lambda: [('generic', mdm.histories(), mdm.prelude)], 22, MDM_RULE, MDM_ASSUME),
    'P01': algebra_check(algebra.scalars, 299),
    'P02': algebra_check(algebra.matrices, 1160),
    'P03': algebra_check(algebra.contractions, 290, 4),
    'P04': algebra_check(lambda: [w for w in algebra.gammas() if w.name.startswith(('w_g', 'w_dp'))], 300),
    'P05': algebra_check(lambda: [w for w in algebra.gammas() if not w.name.startswith(('w_g', 'w_dp'))], 100),
    'P06': lattice_check([('generic', lattice.basic), ('generic', lattice.kcm)], 454),
    'P07': lattice_check([('generic', lattice.kf), ('generic', lattice.g5f), ('generic', lattice.laf), ('sse', lattice.lad), ('sse', lattice.kd)], 500),
    'P08': lattice_check([('generic', lattice.redf), ('generic', lattice.redd), ('sse', lattice.redd), ('generic', redm.everything)], 320),
    'P09': lattice_check([('generic', lattice.masked)], 190),
    'P10': geo_check(lambda: [('generic', geo.layouts(k) + geo.lexico(k) + geo.creation(k), geo.layout_prelude(k)) for k in geo.LAYOUTS] + [('generic', geo.coord_functions(), geo.geo_prelude)], 120),
    'P11': geo_check(lambda: [('generic', sets.witnesses(), sets.prelude)], 14, SET_RULE, SET_ASSUME, 1),
    'P12': geo_check(lambda: [('generic', geo.shifts(), geo.map_prelude), ('generic', geo.makers() + geo.neighbours(), geo.maker_prelude)], 115, SHIFT_RULE, SHIFT_ASSUME),
    'P25': geo_check(lambda: [('generic', supported(geo.access()), geo.access_prelude)], 60, ACCESS_RULE, SHIFT_ASSUME),
    'P26': geo_check(lambda: [('generic', supported(subty.witnesses()), subty.prelude)], 170, SUB_RULE, LAT_ASSUME),
    'P27': lattice_check(THR_JOBS, 900, THR_RULE, THR_ASSUME),
    'P18': geo_check(lambda: [('generic', f(), rng.prelude) for f in (rng.digits, rng.scalars, rng.fields, rng.init, rng.bits, rng.rannyu)], 60, RNG_RULE, RNG_ASSUME, 1),
    'P21': geo_check(lambda: [('generic', own.fields(), own.prelude), ('generic', alloc.allocator(), alloc.prelude)], 100, OWN_RULE, OWN_ASSUME),
    'P22': geo_check(lambda: [('generic', dmap.all_(), dmap.prelude)], 12, DM_RULE, DM_ASSUME),
    'P23': geo_check(lambda: [('generic', mmem.all_(), mmem.prelude)], 13, MM_RULE, MM_ASSUME),
    'P30': geo_check(lambda: [('generic', text.objects(), text.prelude), ('generic', text.primitives(), text.prelude), ('generic', text.tobjects(), text.tprelude), ('generic', text.tfiles(), text.fprelude)], 120, TX_RULE, TX_ASSUME),
    'P20': geo_check(lambda: [('generic', arr.all_(), arr.prelude)], 150, ARR_RULE, ARR_ASSUME, 12),
}
