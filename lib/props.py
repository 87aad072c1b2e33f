"""What each check runs: variant of the simulator, number of simulated runs per tier, and what the evidence says."""

STUBS = ('Simulated: the heap of the code under test (malloc, calloc, realloc, free, operator new and delete: contents of fresh memory, reuse of '
         'addresses, failures), the seam to LAPACK (passes on to the installed LAPACK and alters the answer when a fault says so), the streams '
         'std::cerr and std::cout (recorded, may fail), and the scheduling of the caller threads (one at a time, turns at control flow edges). '
         'Refused, as calls that must not occur: clocks, random numbers. The callers of the library are the generated plan.')
ASSUME_COMMON = [
    'the installed LAPACK and C++ library behave as documented when no fault is injected',
    'the code under test is compiled by clang at -O1 here; what is promised about arithmetic is checked with tolerances that cover other compilers',
]
GRIDS = ('Inputs are drawn, not listed: grids of up to some hundred cells, now and then of some ten thousand (uniform, stretched, sheared, rotated, distorted, nearly '
         'touching, polar, with common nodes and edges), coordinate scales from 1e-3 to 1e5, frames with offsets, and several generations of inputs on one object, often hardly different from those before.')


def spec(quick, thorough, rule, variant='plain', more=(), stubs=STUBS):
    return {'variant': variant, 'quick': quick, 'thorough': thorough, 'rule': rule, 'stubs': stubs, 'assumptions': ASSUME_COMMON + list(more)}


SPECS = {
    'C01': spec(16000, 800000, GRIDS + ' The weights of every pair of cells are compared with exact polygon clipping in extended precision.',
                more=['cells are convex quads of non-zero area; overlaps below the tolerance of the oracle are not distinguished from none']),
    'C02': spec(16000, 800000, GRIDS + ' Sums over fields and over cells are compared with those of the reference model after every apply.'),
    'C03': spec(16000, 800000, GRIDS + ' The cursor is driven through random interleavings of begin, next and reads, past the end and again.'),
    'C04': spec(120000, 6000000, GRIDS + ' Every segment flux is compared with the difference of the stream function over the exactly clipped part.',
                more=['segments that graze an edge so closely that rounding decides where they cross it are not judged']),
    'C05': spec(14000, 700000, GRIDS + ' Every destination value is compared with the inverse bilinear map of the cell the node lies in.',
                more=['nodes closer to the outer boundary than the tolerance may be found or not']),
    'C06': spec(160000, 8000000, GRIDS + ' The search is paused after every step and its position, error and status are recomputed from the grid.'),
    'C07': spec(14000, 700000, GRIDS + ' Searches run to their end, from guesses near and far, with solver faults up to some step and none after it.',
                more=['convergence is demanded for cells of moderate distortion and targets inside only']),
    'C08': spec(100000, 5000000, GRIDS + ' The list is compared with the cells whose exact overlap with the polygon is certain, and with those that may touch it.'),
    'C09': spec(160000, 8000000, 'Pairs of quads and triangles in general and in degenerate position (common nodes, common edges, contained, touching), '
                'in histories on one object; the area of the hull of the points is compared with exact clipping.'),
    'C10': spec(8000, 400000, 'Histories that reuse one object of each class with several inputs, with failed calls in between; after each step the '
                'visible state is compared with that of a fresh object given only the inputs that are in force, and one result of each run with that of a new process which made only the calls in force.'),
    'C11': spec(5000, 250000, 'Two to four caller threads with objects of their own; turns are taken at control flow edges and accesses to static data of the '
                'code under test, by a seeded scheduler; every thread is then run alone and must deliver the same bits.', variant='shared',
                more=['turns are taken between instructions of the code under test, memory is sequentially consistent']),
    'C12': spec(30000, 1500000, 'Inputs in read protected pages or in buffers freed after the call, outputs between guard words; every byte is compared.'),
    'C13': spec(5000, 250000, 'Histories with repeated cycles; the blocks the object owns are counted after every call, after deletion, and in the '
                'last cycles against the first, also after failed allocations.'),
    'C14': spec(14000, 700000, 'One allocation, or all from one on, fails in a call; the failure must be reported as std::bad_alloc, the object stay usable '
                'and deletable, other objects be untouched, and the call succeed with the right result when repeated.'),
    'C15': spec(12000, 600000, 'Every history is executed twice, with other contents of fresh memory and of the stack and other reuse of addresses, and often in a process that has a history behind it; '
                'all results must be the same bits.'),
    'C16': spec(14000, 700000, 'Histories of all classes, with faults, under AddressSanitizer with the simulated heap\'s red zones; any bad access is a violation.',
                variant='asan'),
    'C17': spec(14000, 700000, 'Solver calls fail (info > 0 or < 0, results finite garbage, NaN, huge, untouched) in random places of histories of all '
                'classes; no crash, no endless search, no NaN status, and correct results in the next call without fault.'),
    'C19': spec(200000, 10000000, 'Square, over- and underdetermined systems, regular and exactly singular, in histories on one object, with solver faults; '
                'solutions, residuals and failure reports are compared with a pivoted elimination in extended precision.'),
    'C20': spec(200000, 10000000, 'Lines and quads in general and degenerate position, in histories on one object; points, their number, order and '
                'coefficients and the edge projections are compared with exact clipping.'),
    'C21': spec(20000, 1000000, 'Tripolar grids of up to 150 by 150 nodes with the cap from any row on, many alive at a time; every node is compared with the geometry in extended precision, range, '
                'continuity at the rim, fold and sense of rotation of the cells are checked, and addresses handed out earlier are read again.'),
    'C25': spec(14000, 700000, 'Parsers with up to ten options of four types, declared and declared again, several command lines per parser with repeated, missing, unknown and odd options and values; '
                'after every step all options are compared with a model of four maps.'),
    'C26': spec(24000, 1200000, 'Rectangular, polar and rotated pole grids of up to 361 by 721 nodes at any place and scale, in guarded arrays and in between other calls; every node is compared with the formula in extended '
                'precision.'),
    'C22': spec(14000, 700000, 'Box and side iterators of one to six dimensions, many alive at a time and deleted in between; elements and flat indices are asked for forwards, backwards and at '
                'random and compared with division and remainder, the walk of a side iterator, interrupted and reset at random, with a counter in base three.'),
    'C23': spec(9000, 450000, 'Octrees over sets of one to forty points in one to four dimensions, at any scale and offset, on lattices and without extent in a direction; keys and boxes at every level are '
                'checked for points of the set and points between its extremes.'),
    'C24': spec(100000, 5000000, 'Lines, triangles and tetrahedra with coordinates of any magnitude, points that are equal or one and the same array; points, edges and faces are asked for in any order, and '
                'addresses handed out earlier are read again after the arrays of the caller were given back and other objects created and deleted.'),
    'C27': spec(120000, 6000000, 'Point sets in general position, on lattices, on lines, on parabolas and on circles, with repeated points, from none to 45; the area is compared with that of the monotone chain in extended precision.',
                more=['points closer than 1e-6 count as equal for the code under test, the sets drawn do not have such points unless they are equal']),
    'C18': dict(spec(8000, 400000, 'Two arrays per grid in any of nine layouts and number types; results are compared with the C interface called '
                     'with nothing in between.', variant='python',
                     stubs='Simulated: turns of the caller threads (at the lines of the class), runs of the garbage collector, failing conversions and failing '
                           'numpy calls, what the caller does with its arrays after a call. The library is called through a proxy that accounts for the handles.'),
                harness='python', assumptions=['a call into the library is one step (the library itself is simulated under C01 to C17)',
                                               'the shapes of the arrays are those of the grids, as the class documents'],
                technique='deterministic simulation with fault injection: seeded search over histories, thread schedules, collector runs, array layouts and failures of '
                          'conversions and allocations, the real Python class and library in one simulated process, refinement against the C interface as reference model'),
}
