'''Writes /verif/properties.jsonl.'''
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

EV, CS, EM, SP, SH, ST, PL, CA, CO = ('causetevent.py', 'causet.py',
    'embeddedcauset.py', 'sprinkledcauset.py', 'shapes.py', 'spacetimes.py',
    'causetplotting.py', 'calculations.py', 'colorschemes.py')

prop('C01', 'Events always form a strict partial order, exactly the one implied',
 'After any history of public operations on events and causets (creating events with a past and/or future, merging, disjoining, adding, discarding, building from matrices or permutations), the past/future relation is irreflexive, antisymmetric, transitive and mirrored (a is in the past of b iff b is in the future of a). It contains exactly the relations implied transitively by what was specified, nothing more and nothing less, whether the events are given as sets, lists or iterators.',
 ['histories', 'inputs'], 'all finite histories of construction and modification operations, all finite partial orders, all iteration orders of event sets',
 'The tests build three small fixed causets and never compare the whole relation to an independent model; histories mixing creation, merge and disjoin are not run at all.',
 [EV, CS, EM], [('CausetEvent.__init__, _addToPast, _addToFuture, _discard, disjoin', EV), ('Causet.merge', CS)], ['CausetEvent.Past', 'CausetEvent.Future'])
prop('C02', 'Comparison, separation, cone and cardinality queries agree with the order',
 'For every pair of events exactly one of a<b, b<a, a is b, spacelike holds; <, <=, >, >=, isCausalTo and isSpacelikeTo agree with it, also for events compared with themselves. Past, Future, Cone, PresentOrPast, PresentOrFuture, Spacelike and all their cardinalities are the sets and sizes that the order defines, whether or not the given event set contains the event itself.',
 ['inputs', 'histories'], 'all causets and all pairs of events and event subsets', 'Tests check a handful of pairs in one fixed causet.',
 [EV], [('comparison operators, isCausalTo, isSpacelikeTo, *Card properties', EV)], ['CausetEvent comparison operators'])
prop('C03', 'Links are exactly the covering pairs, in every link query',
 'Two events are linked iff one precedes the other with no event in between; LinkPast, LinkFuture, LinkCone, their cardinalities, isPastLink, isFutureLink, isLinkedTo, isLink, LinkCount/LinkCountOf and the link matrices all report exactly these pairs. The answer is the same whichever query comes first and whether or not links were computed or reset before with link()/unlink() of the events or of the causet.',
 ['inputs', 'histories'], 'all causets, all orders of link queries, all link-memory states', 'Tests look at link counts of two fixed causets in one memory state.',
 [EV, CS], [('link, unlink, isLink, lazy _lprec/_lsucc', EV), ('Causet.link, LinkCount, LinkPastMatrix', CS)], ['LinkPast', 'LinkFuture'])
prop('C04', 'Remembered links never go stale when the causal structure changes',
 'When the structure changes after links have been remembered (a new event is created with a past and/or future, causets are merged, an event is disjoined, sets are added or discarded with or without unlinking, an embedded causet is re-related), every later link query of every event reports the links of the new structure. Requests to unlink succeed in every memory state.',
 ['histories', 'schedules'], 'all interleavings of link queries with structural changes, all iteration orders of event sets', 'The tests never change a causet after linking it.',
 [EV, CS, EM], [('_addToPast, _addToFuture, _discard maintain _lprec/_lsucc', EV), ('merge, add, discard', CS), ('relate', EM)], ['LinkPast', 'LinkFuture', 'LinkCone'])
prop('C05', 'Named generators produce the documented orders and labels',
 'FromPermutation(P) yields the 2D order in which element i precedes j iff i<j and i stands before j in P; NewChain, NewAntichain, NewSimplex, NewFence and NewCrown yield the total, empty, face-inclusion and (closed or open, multi-level) fence orders for every valid size. Labels are the documented ones: integers by default, formatted strings with labelFormat, none with the empty string; all queries keep working on unlabelled causets.',
 ['inputs'], 'all permutations, sizes, heights and label formats', 'Tests generate a few sizes and compare counts only.',
 [CS], [('FromPermutation, NewChain, NewAntichain, NewSimplex, NewFence, NewCrown', CS)], ['Causet generators'])
prop('C06', 'Matrix construction and matrix output are inverse and reject non-orders',
 'Building from a past (future) matrix of all relations or of links only, also with fewer rows than columns, yields exactly the transitively closed order of the matrix with labels 1..n; a matrix with a causal loop of any length or with more rows than columns raises ValueError. PastMatrix, FutureMatrix, LinkPastMatrix and LinkFutureMatrix report the order for any given event list and dtype, so that construction from the output reproduces the causet.',
 ['inputs'], 'all logical matrices (cyclic, sparse, dense, rectangular), all event lists and dtypes', 'Tests use one matrix; loops, long link chains and rectangular input are not tried.',
 [CS], [('FromPastMatrix, FromFutureMatrix', CS), ('PastMatrix, FutureMatrix, LinkPastMatrix, LinkFutureMatrix', CS)], ['Causet.FromPastMatrix', 'Causet.PastMatrix'])
prop('C07', 'Saving to and loading from text files preserves the causet',
 'A causet saved with saveAsCSV and loaded with FromTextFile is isomorphic to the original, with the k-th event of the causal sort as label k, for every non-empty size. FromTextFile reads past or future matrices with any delimiter and further reader options exactly as FromPastMatrix/FromFutureMatrix would, and saving does not change the causet.',
 ['inputs', 'configurations'], 'all causets including single events, all delimiters and both orientations', 'No test writes or reads a file.',
 [CS], [('saveAsCSV, FromTextFile', CS)], ['files written by saveAsCSV'])
prop('C08', 'A causet behaves as a set of events, closed under causality when built',
 'A new causet holds the causal closure of the given events; iteration, Card, membership, -, |, &, ^ with the causet on either side, the named set methods, add, discard, find, findAny and findAll behave exactly as for a Python set of these events with any iterable operand (also iterators that can be read only once). Causets never share hidden state: modifying one causet (or a returned result of set algebra) does not modify another causet or the argument it was built from.',
 ['inputs', 'histories'], 'all causets, operands (set, list, generator, causet) and operation histories', 'Tests do not exercise set algebra, reflected operators or aliasing.',
 [CS], [('__init__, set operators, add, discard, find*', CS)], ['Causet operators'])
prop('C09', 'Chain, path, antichain, disjointness and infinity tests follow the order',
 'isChain, isAntichain and isPath (non-empty chain of consecutive links) decide exactly these notions for any set of events of the causet and for the whole causet, also after events were discarded from it. disjoint returns the connected components as a partition, isDisjoint tells whether there is more than one, and PastInf, FutureInf (with Of and Card forms) are exactly the minimal and maximal events.',
 ['inputs', 'histories'], 'all causets, all event subsets, causets after add/discard', 'Tests evaluate them on a few fixed sets that are chains or antichains.',
 [CS], [('isChain, isPath, isAntichain, disjoint, isDisjoint, PastInf*, FutureInf*', CS)], ['predicates of Causet'])
prop('C10', 'Past, future, cone and spacelike complement of event sets are exact',
 'PastOf, FutureOf and ConeOf of any set of events return the union of the pasts, futures or cones of the single events, with the events themselves included as requested, and with intersect the intersection over the single events. SpacelikeTo returns exactly the events of the causet that are unrelated to and not in the set, and the argument is never modified or returned as alias.',
 ['inputs'], 'all causets, event subsets (also empty) and flag combinations', 'Tests use PastOf/FutureOf with one flag combination on one causet.',
 [CS], [('PastOf, FutureOf, ConeOf, SpacelikeTo', CS)], ['set-valued queries'])
prop('C11', 'Causal intervals and their parts are exact in content and size',
 'Interval(a,b) is the set of events between a and b, with or without the boundary, the single event if a is b, and empty if not a<=b; IntervalCard is its size. PerimetralEvents and InternalEvents (and their counts) partition the inside of the interval into those linked to both ends and the rest; SmallestIntervalCard is the interval size for causal pairs in either argument order and, for spacelike pairs, the least size over intervals from a common past to a common future event among those searched, counting only events to be intersected, with the documented fallbacks.',
 ['inputs'], 'all causets, all pairs, all searching/intersecting sets', 'Tests check a few interval sizes.',
 [CS], [('Interval, IntervalCard, PerimetralEvents, InternalEvents, SmallestIntervalCard', CS)], ['interval queries'])
prop('C12', 'Layers and layer numbers follow interval sizes and decompose the causet',
 'The layer number of an event relative to an event set is the largest interval cardinality minus one between it and the events of the set in its past (positive) or future (negative), zero for none; Layers returns exactly the events with number in the requested range and LayerNumbers the numbers themselves in list order, forwards and in reverse. layered() partitions the causet into antichains, starting with its past (future) infinity, such that each next layer consists of the events of layer number one above (below) the one before.',
 ['inputs'], 'all causets, event sets, ranges, directions', 'Tests evaluate layers of one causet.',
 [CS], [('Layers, LayerNumbers, layered', CS)], ['Layers'])
prop('C13', 'Rank is the length of the shortest link path, consistently everywhere',
 'a.Rank(b) is the least number of links on a path of links from a to b, 0 for the same event and infinity if b is not in the future of a, whatever the link memory holds. Ranks and RankNumbers use the largest such rank between an event and the events of the given set in its past (or, negatively, in its future), return exactly the events in the requested range or the numbers in list order, forwards and in reverse.',
 ['inputs'], 'all causets, pairs, event sets, ranges', 'Tests check a few ranks in one causet where all paths are short.',
 [EV, CS], [('CausetEvent.Rank', EV), ('Ranks, RankNumbers', CS)], ['Rank'])
prop('C14', 'Path enumeration is sound, complete and free of duplicates',
 'Paths(a,b) yields every sequence of consecutive links from a to b exactly once and nothing else. The length argument selects exactly the paths of minimal or maximal length, of a given number of events, or within a given range of numbers of events, and yields none if there is no such path.',
 ['inputs'], 'all causets, pairs and length arguments', 'Tests count paths for one pair.',
 [CS], [('Paths', CS)], ['lists yielded by Paths'])
prop('C15', 'The central antichain is a maximal antichain near the requested event',
 'CentralAntichain returns a maximal antichain of the causet: no two of its events are related and every other event of the causet is related to one of its events. It prefers events whose difference of past and future cardinality is closest to zero, or to that of the given event, which is then contained in it.',
 ['inputs', 'schedules'], 'all causets, all events, all set iteration orders', 'Tests check one cardinality.',
 [CS], [('CentralAntichain', CS)], ['CentralAntichain'])
prop('C16', 'Antichain distances are a symmetric graph distance that antipaths realise',
 'In the slice of an antichain (its events with the adjacent layers) two events are neighbours if they share a past or future event; DistanceMatrix holds the number of steps of the shortest chains of neighbours between every two events (-1 if there is none), or for counting by intersection the documented interval sizes, symmetric with zero diagonal. Antipaths from a to b yield every shortest chain of neighbours exactly once and nothing else, the trivial path for equal events, and none for unconnected ones, with the antichain given as any iterable.',
 ['inputs'], 'all causets, maximal antichains, counting methods', 'No test computes a distance matrix.',
 [CS], [('DistanceMatrix, Antipaths, SmallestIntervalCard', CS)], ['DistanceMatrix'])
prop('C17', 'Sorting by causality is a linear extension; sorting by label is sorted',
 'sortedByCausality returns every event of the set exactly once such that no event comes after one of its future events (before, if reversed), for every set of events, labelling and iteration order. sortedByLabels returns every event exactly once ascending (descending) by mutually comparable labels, the unlabelled ones together.',
 ['inputs', 'schedules'], 'all causets, subsets, labellings (integers, strings, repeated, none), set iteration orders', 'Tests sort one causet with one labelling.',
 [CS], [('sortedByCausality, sortedByLabels', CS)], ['lists returned'])
prop('C18', 'Queries never change the causet, the events or their arguments',
 'No query of events or causets (comparisons, cones, links, intervals, layers, ranks, paths, sorting, matrices, antichains, representation, plotting) changes the order, the membership of the causet, labels, coordinates or positions, or the sets and lists given as arguments. Asking the same query again gives the same answer.',
 ['histories', 'inputs'], 'all sequences of queries on all causets', 'Tests never compare the state before and after queries.',
 [EV, CS, EM, PL], [('all query methods; copies before modification', CS)], ['snapshots of state around each query'])
prop('C19', 'Embedding coordinates determines exactly the relations of the spacetime',
 'The events created from coordinates carry these coordinates and the documented consecutive (or formatted) labels (unrelated if so requested), and two events are related iff the spacetime calls their coordinates causal, in the direction of time, also after further creation, re-embedding, relate and relabel; relating a causet resets the relations of its events and leaves no one-sided relation to events outside of it. EmbeddedCauset.FromPermutation yields the same order as Causet.FromPermutation inside the given diamond; names of spacetimes and shapes select the documented objects and incompatible dimensions (spacetime, shape, coordinate arrays or lists) raise ValueError; Density is events per volume and LengthScale its inverse d-th root.',
 ['inputs', 'histories'], 'all spacetimes, shapes, coordinate lists, creation histories', 'Tests embed one permutation and a few points.',
 [EM], [('__init__, create, relate, relabel, FromPermutation', EM)], ['relations after create/relate'])
prop('C20', 'Flat causality is the Minkowski light cone, also on periodic space',
 'In flat spacetime of any dimension two points are causally related iff their time difference is at least their spatial distance (null separation included), where along each periodic direction the distance is measured modulo the period, for any number of windings. The earlier point precedes the later one, the relation is invariant under translations, and it is a partial order on points off the light cones.',
 ['inputs'], 'all dimensions, periods and point pairs', 'Tests check a few sprinkles by cardinality only.',
 [ST], [('FlatSpacetime.Causality', ST)], ['relations of embedded events'])
prop('C21', 'De Sitter and anti-de Sitter causality match the embedding geometry',
 'In de Sitter static coordinates (dimension >= 2, any horizon radius) points inside the horizon are related iff their time separation is at least the light travel time through the static patch, and in anti-de Sitter space iff it is at least the light travel time of the conformal sphere, including any longer time separation. The earlier point precedes the later one, and the relation is invariant under time translation and spatial rotation.',
 ['inputs'], 'all dimensions >= 2, radii, point pairs off the light cones', 'Tests compare relation counts for a fixed list of points.',
 [ST], [('deSitterSpacetime.Causality, AntideSitterSpacetime.Causality', ST)], ['relations of embedded events'])
prop('C22', 'Black hole causality follows the radial light rays in both metrics',
 'In two-dimensional black hole spacetime, for ingoing Eddington-Finkelstein and Schwarzschild coordinates and any horizon radius, two points on the same side are related iff one lies in the region bounded by the ingoing and outgoing radial light rays through the other; nothing inside the horizon influences the outside, and inside, causality runs towards smaller radius. Points on opposite sides are unrelated and the relation is a strict partial order.',
 ['inputs'], 'both metrics, radii, point pairs off the light rays and horizon', 'Tests do not check black hole relations against light rays.',
 [ST], [('BlackHoleSpacetime.Causality', ST)], ['relations of embedded events'])
prop('C23', 'Coordinate shapes report exact volume, limits and extents, and validate',
 'For every shape name, dimension, center and parameters, Volume is the exact volume of the (hollow) region, Limits (and MaxEdgeHalf, the largest half extent along the given dimensions) are its exact extent to single precision, and Center, Dim, Name and Parameter return what was given or the documented defaults. Unknown names, dimensions below one, centers and edges of wrong length and parameters out of range or not a number raise ValueError; center and edges may be any iterables; str and repr always work.',
 ['inputs'], 'all shapes, dimensions 1..6, centers, parameters valid and invalid', 'Tests check one volume per shape.',
 [SH], [('CoordinateShape.__init__, Volume, Limits, MaxEdgeHalf', SH)], ['CoordinateShape'])
prop('C24', 'Sprinkling fills exactly the shape, uniformly, with Poisson counts',
 'Every sprinkled event lies inside the shape and outside its hollow part, around the shape center, for all shapes and dimensions, and the coordinates of the events are independent and uniformly distributed with respect to volume (the hole of a hollow cylinder extends through its whole duration). sprinkle creates exactly the requested number of events and intensify a Poisson distributed number with the given mean; the events of one sprinkle and of different sprinkles without given generator (in one process or several) differ.',
 ['inputs'], 'all shapes, dimensions, centers, hollow fractions, random streams', 'Tests sprinkle a few shapes and check only cardinalities.',
 [SP], [('_sprinkle_coords, sprinkle, intensify', SP)], ['coordinates of sprinkled events'])
prop('C25', 'Sprinkle bookkeeping: intensity, density, length scale, reproducibility',
 'The intensity of a sprinkled causet follows every operation: sprinkle adds the requested count, intensify the given intensity, creating and adding events the number of new events, and discarding events scales it by the fraction kept; Density is intensity per volume and LengthScale its inverse d-th root (0 if the intensity is 0). Given generators with equal seeds produce equal coordinates, new events are related to all existing ones by the spacetime, and negative counts or intensities raise ValueError without changing anything.',
 ['histories', 'inputs'], 'all histories of sprinkle/intensify/create/add/discard', 'Tests create single sprinkles only.',
 [SP], [('Intensity, Density, LengthScale, create, add, discard', SP)], ['Intensity'])
prop('C26', 'Plotted light cones contain exactly the causally related points',
 'The cone returned for an event up to a time slice covers exactly the points of the plotted plane that the spacetime calls causally related to the event on the requested side of time, for flat (also periodic, within one period around the event), de Sitter (hidden coordinates zero in more than three dimensions) and black hole spacetimes. No cone is returned if the slice lies on the wrong side or the origin admits none, and the opacity follows the given fade.',
 ['inputs', 'configurations'], 'all implemented spacetimes, plot dimensions, origins, slices', 'Tests only call the plotting routines without looking at the result.',
 [ST], [('ConePlotter, _XT_slice, _XY_slice', ST)], ['patches returned by ConePlotter'])
prop('C27', 'Plots draw exactly the events, links, labels and cones requested',
 'A plot of a causet, event list or single event draws one marker at the coordinates (or diagram position) of every event, one line per link between plotted events, one label per event with its text, and one cone per event as requested, in the given dimension order in 2D and 3D, with the axis limits asked for. In dynamic mode only objects on the side and (linear fading) within the time depth appear, faded as documented, with links cut at the slice and marked there, and every documented option value is accepted; a link whose line passes through other plotted events is marked at exactly these. Plotting changes no event except the positions that plotDiagram sets from a permutation. The diagram of the causet of a permutation, plotted with this permutation, places its events (in label order) in their causal order.',
 ['inputs', 'configurations'], 'all causets and documented plot options', 'Tests only check that plotting does not raise for few options.',
 [PL], [('Plotter, plot, plotDiagram, plot_parameters', PL)], ['matplotlib artists returned and found in the axes'])
prop('C28', 'Shape outlines and surfaces lie on the boundary of the shape',
 'For every shape, center, parameter and choice of two or three plot dimensions (time on any axis), the drawn outline or surface lies on the boundary of the central cut of the shape, including the hollow part, and spans its full extent. The filled area is exactly the cut. Plotting never changes the shape. The edge and surface helper functions return matrices of the documented sizes for every sampling size (cuboid surfaces excepted, whose documented size fits neither matrix).',
 ['inputs', 'configurations'], 'all shapes, dims selections, sampling sizes', 'Tests plot shapes without inspecting vertices.',
 [SH], [('CoordinateShape.plot, *Edge, *Surface', SH)], ['patch vertices and surface arrays'])
prop('C29', 'Colour schemes resolve every documented colour to a valid colour',
 'Every colour of every scheme, and every default plot colour under every scheme, resolves to a colour matplotlib accepts; other colour strings pass unchanged, unknown schemes raise ValueError without changing the current scheme, and converting dictionaries or lists agrees with converting single colours. Setting the default colours changes exactly the scheme and colours given.',
 ['inputs', 'configurations'], 'all schemes, colours, containers', 'Tests use one scheme and one colour.',
 [CO, PL], [('getColor, convertColorsIn*, setGlobalColorScheme', CO), ('setDefaultColors', PL)], ['colours returned'])
prop('C30', 'Harmonic numbers and Newton iteration are accurate and consistent',
 'HarmonicNumber, HarmonicNumbers and the exact fraction versions agree with the defining sum to near machine precision (1/(252 n^6) where approximated) for every n and every approximation threshold of at least 1, and with each other element by element. NewtonsMethod never evaluates outside of the given bounds or more often than allowed, returns a root inside the bounds to the given precision whenever the iteration converges, and the default otherwise.',
 ['inputs'], 'all n up to 10^6, thresholds, functions, bounds', 'Tests check a few n.',
 [CA], [('HarmonicNumber*, NewtonsMethod', CA)], ['returned numbers'])
prop('C31', 'Event embedding, position, copies and text forms follow the documentation',
 'isEmbedded, embed, disembed, Coordinates and CoordinatesDim follow the life cycle of an event: embedding an embedded event without reembed raises AttributeError and changes nothing, reading coordinates of an unembedded event raises AttributeError. Position is [0.0, 0.0] until set and accepts exactly pairs; copy() preserves label, past, future and links without embedding and is independent of the original; str and repr work for every event, causet, shape and spacetime; the repr of an event names label, linked past and coordinates (labels 0, empty or None are not shown), that of a spacetime evaluates to an equal spacetime.',
 ['histories', 'inputs'], 'all life-cycle histories of events', 'Tests never disembed, copy or reposition events.',
 [EV, SH, ST], [('embed, disembed, Position, copy, __str__, __repr__', EV)], ['event attributes'])
prop('C32', 'A rejected request leaves everything as it was',
 'A request that raises an error because of its arguments (creating an event with unusable past, future, coordinates or position; embedding an embedded event again; creating events in a causet or sprinkling into a shape of another dimension; sprinkling a negative number or with a failing generator; relating or relabelling with events that are not embedded; merging, finding, loading, building, drawing or selecting with unusable arguments) changes nothing: order, links, labels, embedding, positions, membership, intensity and shape stay as they were, and later requests are answered as if it had not been made. Coordinates and sprinkle shapes of another dimension and positions that are not pairs are rejected.',
 ['histories', 'inputs'], 'all histories of valid and rejected requests on events, causets, embedded and sprinkled causets', 'Tests never look at the state after an exception.',
 [EV, CS, EM, SP], [('CausetEvent.__init__, embed, Position', EV), ('relate, relabel, create', EM), ('sprinkle, intensify, create', SP), ('merge, find, FromPastMatrix, FromTextFile', CS)], ['exceptions and the state of all objects around them'])
prop('C33', 'Operations affect nothing but the objects they are called for',
 'Constructing, querying, changing, sprinkling, saving, drawing into given axes and rejected requests on some objects leave everything else as it was: all other events, causets, embedded and sprinkled causets, shapes, spacetimes (with the causality and cone functions taken from them), generators, option dictionaries and drawings, also when they were made with the same shape, spacetime, arrays or default arguments; another causet over the same events keeps its members; the random states and settings of Python, NumPy and matplotlib, the current figure, the colours (unless they are set), the working folder and other files stay, and nothing is printed. Objects used in turns answer as if each was used alone, and whatever is made with default arguments after any history is the same as what was made first in the process.',
 ['histories', 'inputs'], 'all histories of operations on several objects of all kinds in one process, with shared arguments', 'Tests use one object at a time, in a fresh process, and never look at anything but the answer.',
 [CS, EV, EM, SP, SH, ST, PL, CO, CA], [('default arguments and class attributes', CS), ('default shapes, causality closures and cone plotters', ST), ('plot_parameters, Plotter, default_colors', PL), ('global scheme', CO)], ['state of all objects and of the interpreter around every operation'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
