#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

p('C01', 'Cells computed in parallel never interfere',
  'While cells are computed in parallel, the computation of one cell writes only memory that belongs to that cell alone: its own neighbour slots, its own workspace slices and its own status. Nothing shared between cells is modified while workers run, and every worker has finished before any result is read, reused or released.',
  ['schedules', 'inputs', 'configurations'],
  'every interleaving of workers, every thread count, chunk size, k, workspace size and point set',
  'A race only shows under particular schedules; the tests run a few small sets on whatever schedule the machine happens to produce and compare against voro++.',
  ['src/votess.ipp', 'src/cc.ipp', 'src/knn.ipp', 'src/heap.ipp', 'src/boundary.ipp'],
  [('thread fan-out and join', 'src/votess.ipp __cpu__tesellate, __cpu__recompute'),
   ('per-cell slices of knn, dknn, P, T, dR, states', 'src/cc.ipp cci::compute, src/knn.ipp knni::compute')])

p('C02', 'Every point is computed exactly once, whatever the threads and chunks',
  'For every number of points, thread count (including 0, meaning all hardware threads) and chunk size, each point of the set is assigned to exactly one worker of exactly one chunk. No point is skipped or taken from a previous chunk, and every chunk starts from freshly reset candidate lists and slot tables.',
  ['inputs', 'configurations'],
  'every (number of points, thread count, chunk size, chunking on/off) combination',
  'Tests use a handful of sizes, mostly with chunking off and default threads; remainders of the two divisions, more threads than points, and a chunk size dividing the set exactly are corner combinations.',
  ['src/votess.ipp'],
  [('run/chunk arithmetic', 'src/votess.ipp __cpu__tesellate: nruns, _cstart, _cend, subsize, indices'),
   ('thread ranges', 'src/votess.ipp __cpu__tesellate/__cpu__recompute: _tstart, _tend')])

p('C03', 'Cell workspaces are never overrun, and overflow is reported',
  'The computation of a cell never stores outside the plane, vertex and boundary workspace set aside for that cell, for every workspace size and every k. Whenever a cell needs more planes or vertices than its workspace holds, the computation of that cell stops and the cell is marked with the matching overflow status.',
  ['inputs', 'configurations'],
  'every plane/vertex capacity, every k, every arrangement of points',
  'Overflow needs capacities close to what a cell needs; tests use comfortable capacities and never check the guard at the exact boundary.',
  ['src/cc.ipp', 'src/boundary.ipp', 'src/votess.ipp'],
  [('capacity guards', 'src/cc.ipp cci::compute: p_size/p_maxsize, t_size/t_maxsize'),
   ('workspace allocation', 'src/votess.ipp P, T, dR, dknn, heap vectors')])

p('C04', 'Incomplete cells are flagged and recomputed until complete or exhausted',
  'A cell counts as complete only after a candidate neighbour was found to lie beyond twice its farthest vertex; every other cell stays flagged as incomplete. With recompute enabled, exactly the incomplete cells are computed again with a doubled, capped number of candidates and with larger workspaces after an overflow, replacing their stored neighbours, until all are complete or nothing can grow any more.',
  ['inputs', 'configurations', 'histories'],
  'every point set, initial k and capacities, and every sequence of recompute rounds',
  'Whether and how often cells are recomputed depends on the data; tests run recompute on a few random sets and look at the final neighbours only.',
  ['src/votess.ipp', 'src/cc.ipp', 'src/sradius.ipp', 'src/status.ipp'],
  [('completeness flag', 'src/cc.ipp: security_radius_reached'),
   ('recompute loop', 'src/votess.ipp __cpu__recompute')])

p('C05', 'Clipping geometry is algebraically exact',
  'As real-number formulas, the bisector of two points is the plane of points equidistant from both, oriented towards the first; the intersection of three planes lies on all three, and is the origin when they have no single common point; the plane-point product, squared distances, farthest-vertex update and the factor-of-two completeness test are the standard expressions. This holds for every argument value.',
  ['inputs'],
  'all real arguments',
  'Tests evaluate these formulas at a few tens of sample points; an error that vanishes at the samples or in symmetric configurations stays invisible.',
  ['src/planes.ipp', 'src/sradius.ipp', 'src/xyzset.ipp', 'src/utils.ipp'],
  [('bisect, intersect, dot', 'src/planes.ipp'), ('update, is_reached', 'src/sradius.ipp'),
   ('get_distance', 'src/xyzset.ipp'), ('square, bmin, bmax, swap', 'src/utils.ipp')])

p('C06', 'Each cell starts as the unit cube and is clipped by every needed candidate',
  'A cell starts as the unit cube and is cut, in order of increasing distance, by the bisector with each candidate until it is complete or candidates run out. For each candidate, exactly the vertices strictly on its side of the bisector are removed, and one new vertex is added per edge of the boundary of the removed region.',
  ['inputs'],
  'every point set and every state a cell can be in when the next candidate is processed',
  'Which vertices are cut, and in which order they sit in the table, varies with the data; tests sample a few hundred random cells and tolerate mismatches in some cases.',
  ['src/cc.ipp', 'src/boundary.ipp'],
  [('initial cube tables', 'src/cc.ipp p_init, t_init'),
   ('clip loop', 'src/cc.ipp cci::compute neighbour loop')])

p('C07', 'The candidate search returns the k nearest other points',
  'For every point, the search returns the k nearest other points in order of increasing distance, or all other points if there are fewer, never the point itself. Every grid cell of each successive shell inside the grid is visited once, and the search stops early only when no point of an unvisited shell can be nearer than the farthest candidate kept.',
  ['inputs', 'configurations'],
  'every point set, every k and every grid resolution',
  'The early-stop bound and the clipped shells at the domain boundary only matter for particular placements of points relative to the grid; tests use random sets.',
  ['src/knn.ipp', 'src/heap.ipp', 'src/xyzset.ipp', 'src/utils.ipp'],
  [('shell iteration and stop test', 'src/knn.ipp knni::compute, is_inshell'), ('bounded max-heap', 'src/heap.ipp')])

p('C08', 'Heap operations keep ids and distances paired and order them',
  'The heap operations only exchange whole (id, distance) pairs inside the addressed heap, so no pair is lost, duplicated or separated. Sifting down restores the max-heap order below the given node for any heap size, and sorting leaves the distances in ascending order.',
  ['inputs'],
  'every heap content, size (including 0 and 1), offset and start node, in all three storage layouts',
  'Heap tests use a few fixed arrays; off-by-one child or size tests are only visible for specific sizes and positions, and the device layouts are hardly tested.',
  ['src/heap.ipp'],
  [('swap, maxheapify, sort', 'src/heap.ipp (host, row and strided layouts)')])

p('C09', 'Grid sorting permutes the points and indexes every grid cell',
  'Sorting the point set only reorders it: every input point appears exactly once afterwards, unchanged and paired with its own cell id, and cell ids ascend. The offset table has one entry per grid cell plus one, and for every cell its two entries delimit exactly the points of that cell, with the last entry equal to the number of points.',
  ['inputs', 'configurations'],
  'every point set in the unit cube and every grid resolution',
  'Tests sort random sets at a few resolutions; high byte digits of the cell id, empty leading or trailing cells and duplicated points are rarely hit.',
  ['src/xyzset.ipp'],
  [('radix sort and prefix sum', 'src/xyzset.ipp sort')])

p('C10', 'Sorting, searching and validation agree on grid cells',
  'A point belongs to the grid cell obtained by flooring each coordinate times the resolution, kept inside the grid, combined in x-fastest order; the sort, the search and the validation functions all use this same numbering. The validation functions accept a set exactly when every coordinate lies strictly between 0 and 1, every id is non-descending, and every id is the cell of its point.',
  ['inputs', 'configurations'],
  'every coordinate value and grid resolution',
  'Two disagreeing copies of the numbering only differ for asymmetric positions or boundary coordinates, which random tests at fixed resolutions do not pin down.',
  ['src/xyzset.ipp', 'src/knn.ipp'],
  [('encode', 'src/xyzset.ipp sort/validate_sort/get_cell'), ('decode', 'src/knn.ipp px, py, pz, cid')])

p('C11', 'The result container gives every row its own neighbours',
  'The container reports one row per point; row i has as many entries as its two offsets delimit, indexing gives exactly those entries of the neighbour list in order, through const and non-const access alike. Printing and saving write every row, empty ones included, in order and with all its entries, and an empty container has size 0.',
  ['inputs', 'histories'],
  'every neighbour list and offset table, every row and entry index',
  'Tests never print or save and only index non-empty rows.',
  ['src/dnn.ipp', 'include/dnn.hpp'],
  [('dnn and its row proxy', 'src/dnn.ipp')])

p('C12', 'Exactly the candidates whose plane survives are reported as neighbours',
  'A candidate is reported as neighbour of a point exactly when the plane it contributed still supports a vertex of the finished cell; reported neighbours keep their order of distance and are stored without gaps. They are stored as the row of that point and no other, and the result has one row for every point in sorted order.',
  ['inputs'],
  'every finished cell and every set of candidates',
  'The matching between candidate slots and plane numbers only matters when some candidates were skipped or cut off again, which depends on the data.',
  ['src/cc.ipp', 'src/votess.ipp', 'src/dnn.ipp'],
  [('neighbour extraction', 'src/cc.ipp end of cci::compute'), ('tmpnn_fill, tmpnn_getdnn', 'src/votess.ipp')])

p('C13', 'Parameters are stored, converted and read back faithfully',
  'Every documented parameter exists from the start with its default from ARGS_DEFAULT (standard output suppressed); setting one to an integer, boolean or word and reading it back as a type that can represent it gives the same value and leaves all other parameters alone; unknown keys, and values that do not convert completely, raise an error instead of yielding a wrong value. Each computation stage receives the values stored under its own parameters.',
  ['inputs', 'histories'],
  'every key, every value and every sequence of settings',
  'Tests read and write a few parameters; swapped constructor arguments or keys only show when the values differ.',
  ['include/arguments.hpp', 'src/votess.ipp'],
  [('vtargs, vtargref, get_xyzset/get_knn/get_cc', 'include/arguments.hpp')])

p('C14', 'The command line passes every option to the tessellation',
  'Each documented option, in its long and short form, takes an argument exactly when documented and sets exactly the parameter it names; the chosen device and all parameters reach the tessellation. A missing or unreadable input file or a malformed line ends the program with an error status and no result, and every line of the file becomes one point in file order.',
  ['inputs', 'configurations'],
  'every command line and input file',
  'No test runs the command-line program.',
  ['src/main.cpp'],
  [('parse_args, main', 'src/main.cpp')])

p('C15', 'The Python module exposes the same behaviour safely',
  'From Python, every exposed class, method and function reaches the C++ operation of the same meaning with its arguments in order, and parameters accept integers, floats, strings and booleans and reject anything else. An index outside the result or a row raises IndexError, and a row or parameter object taken from a container keeps that container alive.',
  ['inputs', 'histories'],
  'every sequence of Python calls, including object lifetimes ending in any order',
  'No test imports the Python module.',
  ['src/pybind11/pyvotess.cpp'],
  [('module definition', 'src/pybind11/pyvotess.cpp')])

p('C16', 'Status flags are independent bits',
  'Setting, clearing, testing or resetting a status flag of a cell or of a boundary triangle affects and reports only that flag. All flags start cleared, all cell flags fit the stored byte, and the number and position of shared edges follow from the flags of a triangle for every combination.',
  ['inputs'],
  'all flag values and all prior byte values',
  'Tests exercise a few sequences of flags rather than every prior value.',
  ['src/status.ipp', 'include/status.hpp', 'src/boundary.ipp', 'include/boundary.hpp'],
  [('cc::state', 'src/status.ipp'), ('boundary::vstatus', 'src/boundary.ipp')])

p('C17', 'Tessellation leaves the surrounding program as it found it',
  'Whatever happens during a tessellation, including an exception, standard output works afterwards exactly as before, and nothing is printed to it while suppression is on. Apart from reordering the given points, a tessellation changes neither the caller\'s parameters nor any state that a later tessellation depends on.',
  ['inputs', 'histories', 'fault_sequences'],
  'every parameter setting, every exit of the function including exceptions, and every sequence of calls in one process',
  'Tests never fail in the middle of a call and do not look at the stream afterwards.',
  ['src/votess.ipp', 'include/votess.hpp'],
  [('suppress::stdout guard', 'src/votess.ipp'), ('tesellate parameter passing', 'src/votess.ipp tesellate')])

p('C18', 'Unsupported element types are rejected at compile time',
  'A tessellation or result container with an unsigned or non-integral index type, and a tessellation or search with a non-floating-point coordinate type, does not compile. All supported combinations of signed index and floating-point coordinate types do compile.',
  ['programs'],
  'every client program that instantiates the library',
  'A test that must not compile cannot be part of the test binary.',
  ['src/votess.ipp', 'src/dnn.ipp', 'src/knn.ipp'],
  [('static_asserts', 'src/votess.ipp tesellate, src/dnn.ipp check_sinteger, src/knn.ipp')])

p('C19', 'The requested device is used, with the CPU as the only fallback',
  'Requesting the CPU runs the CPU implementation; requesting the GPU runs the GPU implementation when a GPU exists and otherwise warns on standard error and runs the CPU implementation. In every case the cells are computed by exactly one of them, recompute runs afterwards exactly when it is enabled, and failures of all cells are counted in the summary.',
  ['configurations', 'inputs'],
  'every device request, machine and parameter setting',
  'The test machine has one device configuration.',
  ['src/votess.ipp'],
  [('device switch and summary', 'src/votess.ipp tesellate, device_found')])

p('C20', 'Device and host implementations compute the same function',
  'For the heap, the candidate search, the boundary walk and the cell construction, the device implementation performs the same computation as the host implementation, differing only in how its arrays are laid out. Index arithmetic maps each logical element of a cell to one location that no other cell uses.',
  ['inputs', 'configurations'],
  'every input and every layout stride',
  'No device is available to the tests, so the device code is compiled but never run.',
  ['src/heap.ipp', 'src/knn.ipp', 'src/boundary.ipp', 'src/cc.ipp'],
  [('device overloads', 'src/heap.ipp, src/knn.ipp, src/boundary.ipp, src/cc.ipp')])

p('C21', 'The boundary of the removed region is one closed cycle or an error',
  'Given the removed triangles of a cell, the boundary routine returns success only after every triangle was merged into a single closed cycle of edges, each vertex having one successor. Triangles that do not yet touch the cycle are deferred, a merge that would pinch the cycle is undone completely, and when no triangle can be merged the routine reports failure instead of looping forever.',
  ['inputs'],
  'every list of removed triangles in every order',
  'The order of removed triangles varies with the data; the tests feed a few fixed triangle lists.',
  ['src/boundary.ipp'],
  [('boundary::compute', 'src/boundary.ipp (host and device overloads)')])

p('C22', 'The result is the exact Voronoi adjacency for every input',
  'The neighbours reported for every point are exactly the neighbours in the mathematical Voronoi diagram of the set clipped to the unit cube, including degenerate and nearly degenerate configurations in floating point.',
  ['inputs'], 'all point sets representable in the coordinate type',
  'Tests compare with voro++ on random sets and tolerate differences.',
  ['src/cc.ipp', 'src/planes.ipp'],
  [('floating-point clip decisions', 'src/cc.ipp dot_product')])

p('C23', 'Memory use and running time stay bounded by the chosen configuration',
  'With chunking enabled, peak memory grows with the chunk size and not with the square of the number of points, and running time scales with the number of workers.',
  ['inputs', 'configurations'], 'all point sets and configurations',
  'Tests do not measure memory or time.',
  ['src/votess.ipp'],
  [('per-chunk workspaces', 'src/votess.ipp __cpu__tesellate')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
