"""Which groups of obligations decide which property.  RULES[pid] is the list of
groups to run, the obligations that count for the property, and what that means."""
from . import graph as G
from . import traversal as TR
from . import matching as MT
from . import maxmatch as MM
from . import blossom as BL
from . import ending as EN
from . import order as OR
from . import surface as SU
from . import labels as LB
from . import stack as SK
from . import safety as SF
from . import halting as HA

RULES = {}


def rule(pid, groups, pats, about, via=()):
    RULES[pid] = (list(groups), ['^(?:%s)' % p for p in pats], about, list(via))


add_node = ('add_node', G.add_node)
add_edge = ('add_edge', G.add_edge)
queries = ('query', G.queries)
new_graph = ('new', G.new_graph)
adjacency = ('adjacency', G.from_adjacency)
edges = ('edges', G.from_edges)
equality = ('eq', G.equality)
dfs = ('dfs', TR.dfs)
bfs = ('bfs', TR.bfs)
table = ('table', TR.into_table)
convert = ('convert', TR.from_dfs)
components = ('components', TR.components)
pairing = ('pairing', MT.pairing)
augment = ('augment', MT.augment)
greedy = ('greedy', MT.greedy)
driver = ('driver', MM.driver)
search = ('search', MM.search)
marker = ('marker', MM.marker)
forest = ('forest', MM.forest)
ends = [('end/turn', HA.matching), ('end/search', EN.search), ('end/driver', EN.driver), ('end/marker', EN.marker)]
collapse = ('collapse', BL.contraction)
reproducible = ('order', OR.reproducible)
surface = ('surface', SU.surface)
reads = ('reads', SU.purity)
opaque = ('labels', LB.labels)
depth = ('stack', SK.stack)
safe = ('unsafe', SF.safety)
halts = ('halts', HA.halting)
ALLG = [add_node, add_edge, queries, new_graph, adjacency, edges, equality]
ALLT = [dfs, bfs, table, convert, components]
# what a caller relies on: operation -> (group, obligations)
NODE = [(r'DefaultGraph::add_node', add_node, [r'add_node/new/']), (r'DefaultGraph::new', new_graph, [r'new/empty']),
        (r'Graph::has_node', queries, [r'query/has_node/(?!panic)'])]
EDGE = [(r'DefaultGraph::add_edge', add_edge, [r'add_edge/new/'])]
EDGE2 = [(r'DefaultGraph::add_edge', add_edge, [r'add_edge/(new|duplicate)/'])]
EDGE3 = [(r'DefaultGraph::add_edge', add_edge, [r'add_edge/new/(result|listed|nodes|index|degree)'])]
DFS_ = [(r'DepthFirst::(new|next|into_iter|into_table)|DefaultGraph::try_from\(DepthFirst\)', dfs,
         [r'dfs/new/(ok|seen|pending|graph)', r'dfs/next/(edge|more|end|graph|cut|seen|cut/pending)', r'dfs/next/new/(exact|purged|kept|found)'])]
CONV = [(r'DefaultGraph::try_from\(DepthFirst\)', convert, [r'convert/(ok|value|empty|nodes|edges)']), (r'DepthFirst::into_table', table, [r'table/(?!panic)'])]
COMP = [(r'Components::', components, [r'components/(?!.*panic)'])]
PAIR = [(r'Pairing::%s$' % n, pairing, [r'pairing/%s/(?!panic)' % n]) for n in ('new', 'pair', 'order', 'has_node', 'mate', 'edges')]
HOW = ('Every path through the named functions (MIR of the current source, loops summarised by the effect of one iteration over an abstract '
       'container) is executed on an arbitrary well-formed receiver with uninterpreted arguments. ')

rule('G01', [add_node, add_edge], [r'add_(node|edge)/error/unchanged'],
     HOW + 'On each path that returns an error every field of the graph must equal its value before the call.')
rule('G02', [add_node], [r'add_node/(?!panic)'],
     HOW + 'add_node: for a new id the result is Ok, the id is appended to the nodes and mapped to the last position with an empty neighbor list, and '
     'nothing else changes; for a known id the result is DuplicateNode(id).')
rule('G03', [add_edge], [r'add_edge/(?!panic)'],
     HOW + 'add_edge: in each of the four cases (first end absent, second absent, already joined, new) the result and every field afterwards are compared '
     'with the specification.')
rule('G04', [queries, new_graph, add_node, add_edge, adjacency],
     [r'query/(?!.*panic)', r'new/empty', r'add_node/new/', r'add_edge/new/(listed|nodes|index|degree|neighbors|later)', r'add_edge/duplicate', r'add_edge/error', r'add_node/(error|duplicate)',
      r'adjacency/ok/(edge-set|index|nodes|neighbors|well-formed|later)', r'new/later'],
     HOW + 'The views agree in an empty graph, every way of building or extending a graph keeps nodes, positions, neighbor lists and edge list in step, and '
     'each query reads the view it is named for.')
rule('G05', [adjacency], [r'adjacency/(?!panic)'],
     HOW + 'try_from(adjacency lists): an Ok path must entail that every entry is well formed and give the specified nodes, lists and edges; an Err path '
     'must name an entry, entail its fault, and entail that no earlier entry (of the same list or an earlier one) is faulty.')
rule('G06', [edges], [r'edges/(?!panic)'],
     HOW + 'try_from(edges): the loop must run over the whole list from the empty graph, each iteration adding the unknown ends left before right and the '
     'edge; an error must be DuplicateEdge of an edge that the graph built so far has.', NODE + EDGE2)
rule('G07', [queries, add_node, add_edge, adjacency, edges],
     [r'query/(nodes|edges|neighbors)/(value|present)', r'add_node/new/(nodes|edges|adjacency)', r'add_edge/new/(nodes|edges|neighbors)',
      r'adjacency/ok/(nodes|neighbors|edges$)', r'edges/(ok|step/(nodes|edges))'],
     HOW + 'Each way of building or extending a graph appends at the end of the lists concerned and keeps what is there; the iterators run over them '
     'forwards and completely.')
rule('G08', [queries], [r'query/(neighbors|degree|has_edge|has_node)/(?!panic)'],
     HOW + 'In each case of presence and absence of the arguments the query must return MissingNode of the first absent one, or a value.')
rule('G09', [equality], [r'eq/(?!panic)'],
     HOW + 'eq of two arbitrary graphs: a path returning true must entail that both have the same node and undirected edge sets, a path returning false '
     'must exhibit a node or edge that only one has, or different counts.')
rule('T01', [dfs, bfs], [r'(dfs|bfs)/new/(missing-root|ok|seen|pending)'],
     HOW + 'new: for an absent root MissingNode(root), otherwise a traversal that has seen exactly the root, with exactly the edges at the root pending.')
rule('T02', [dfs, bfs], [r'(dfs|bfs)/new/(seen|pending|graph)', r'(dfs|bfs)/next/(edge|cut$|seen|more|end|graph|cut/pending)', r'(dfs|bfs)/next/new/(found|kept)'],
     HOW + 'new establishes and next maintains: the seen set grows by exactly the target of each step that is not a cut; a step is a cut exactly when its '
     'target had been seen; every unseen neighbor of a found node becomes pending and stays so until taken; the traversal ends only with nothing pending.')
rule('T03', [dfs, bfs], [r'(dfs|bfs)/new/(pending|graph)', r'(dfs|bfs)/next/(edge|more|end|graph|cut/pending)', r'(dfs|bfs)/next/new/(exact|purged|kept)'],
     HOW + 'Each edge enters the pending edges in exactly one direction: all edges at the root at the start, those of a found node but for the one it was found by '
     '(breadth-first: and those to seen nodes; depth-first: the reverse ones are dropped instead); a step takes exactly one pending edge and reports it.')
rule('T04', [dfs, bfs], [r'(dfs|bfs)/new/(pending|order)', r'(dfs|bfs)/next/(edge|cut/pending)', r'(dfs|bfs)/next/new/(order|kept)'],
     HOW + 'Breadth-first: pending edges are taken at the front and appended at the back in neighbor order. Depth-first: taken at the back and appended at the back in '
     'reverse neighbor order. The other pending edges keep their order.')
rule('T05', [table, convert], [r'(table|convert)/(?!panic)'],
     HOW + 'The loops over the steps of an arbitrary traversal (first step peeled, facts about steps as stated by T01-T03) append exactly the first source, the target of '
     'each step that is not a cut, and each step as an edge.', NODE + EDGE)
rule('S01', [components], [r'components/(?!.*panic)'],
     HOW + 'components starts with nothing covered and all nodes ahead; next returns what a traversal from the first uncovered node reaches, or that node alone, '
     'covers exactly those nodes, and ends only when no uncovered node is ahead.', NODE + EDGE3 + DFS_ + CONV)
rule('G10', ALLG + ALLT, [r'.*panic$'],
     HOW + 'No path of a public function of graphs, traversals or components ends in a panic (failed assertion, bounds or overflow check, unwrap of an empty value, '
     'slice or queue index out of range, unreachable).')
rule('M01', [pairing, augment], [r'pairing/(new|pair|mate)/', r'augment/even/base'],
     HOW + 'pair, on an arbitrary symmetric map and in every combination of presence and equality of the two ids and their mates: afterwards the two are each other\'s '
     'mates, their former mates are free and all other entries are as before; augment changes the pairs by nothing but pair.', PAIR)
rule('M02', [pairing], [r'pairing/(order|has_node|mate|edges)/'],
     HOW + 'order, has_node and mate return the size, membership and value of the map, and mate panics for an absent node; edges, taken over an arbitrary pair of the map '
     '(which holds both directions), lists exactly one of the two directions, and that with the smaller id first, and none for a node paired with itself.')
rule('M03', [augment], [r'augment/'],
     HOW + 'augment: odd length panics before any change; the pairs added to the present ones cover the path two by two from its start (the loop\'s trip count, step '
     'and indices are compared with the length of the path); even length has no path to a panic.', PAIR)
rule('M04', [greedy], [r'greedy/(?!panic)'],
     HOW + 'greedy: the loops run over all components (or nodes) and, within, over every edge; a turn that pairs entails that its ends are distinct, joined by the graph and both free; a turn '
     'that does not pair entails that one of them is paired or that they are equal; a set that tracks paired nodes grows by exactly the paired ones.',
     NODE + EDGE3 + DFS_ + CONV + COMP + PAIR)
FOREST = [(r'Forest::', forest, [r'forest/(?!.*panic)'])]
MARKER = [(r'Marker::', marker, [r'marker/(?!.*panic)'])]
AUGMENT = [(r'Pairing::augment', augment, [r'augment/even'])]
rule('M05', [driver, search], [r'driver/(?!.*panic)', r'search/(?!.*panic)'],
     HOW + 'maximum_matching: on every path that returns, the last search was over the final pairing and found nothing, and between searches the pairing changes by augmenting with the '
     'found path only. The search: every unpaired node is a root, it ends without a path only when every even node is marked, a node is marked only when all its edges are, an edge is '
     'passed over or marked only when it is matched, its far end is odd, or it has been used to grow the forest; a path it returns joins two different trees through an unexamined edge, '
     'or is what the search of the contracted problem found, expanded.', NODE + EDGE3 + PAIR + AUGMENT + FOREST + MARKER)
rule('M06', [collapse, search], [r'blossom/', r'contract/', r'lift/', r'search/blossom/(?!.*panic)'],
     HOW + 'The cycle is both tree paths up to their first common node. The smaller graph: node by node and edge by edge, in each case of membership in the cycle, what the loops over the '
     'whole graph add is compared with what the smaller graph must have; likewise for each pair. Expansion: on every path the result is the part before the fresh node, a run of a rotated or '
     'reversed cycle, and the part after it; each junction is an edge that the path has tested, the parity is even, and the search for the run skips only runs that would not do.',
     NODE + EDGE3 + [(r'Graph::has_edge', queries, [r'query/has_edge/(?!.*panic)'])] + PAIR)
rule('M10', [driver, search], [r'search/pairing', r'search/path/', r'search/blossom/(problem|fresh|cycle|lift|walk)', r'valid/'],
     HOW + 'The search leaves the pairing as it is and the driver changes it by augmenting with found paths only. The forest grows along edges of the graph away from nodes at even distance and '
     'along pairs away from the others, from unpaired roots, so the two halves of a path that is found alternate and end at unpaired nodes; they are joined by an edge of the graph. A path of the '
     'contracted problem is expanded (junctions are edges: M06) and then rerouted: the result starts at an unpaired node and follows in turn the pairs that the expanded path would make and the '
     'former mates, for as long as there is one.', NODE + EDGE3 + PAIR + AUGMENT + FOREST + [(r'Graph::has_edge', queries, [r'query/has_edge/(?!.*panic)']),
     (r'Blossom::lift', collapse, [r'lift/(?!.*panic|complete|fails)'])])
rule('M11', ends + [collapse, search], [r'end/', r'contract/', r'lift/(complete|fails)', r'search/blossom/(problem|fresh|cycle)'],
     HOW + 'Each turn of a loop of the search or of maximum matching that does not run over a list takes something off a list or marks something not marked before (which counts as marked ever after); '
     'the search calls itself on the contracted graph only, which has the edges with an end outside the cycle and no others; maximum matching starts over only with a pairing that has been augmented. '
     'Each path of the search to a panic contradicts what is known of every forest, marker and matching; expansion gives up only when no run of the cycle fits.',
     NODE + EDGE3 + PAIR + AUGMENT + FOREST + MARKER)
rule('M07', [reproducible, reads], [r'order/', r'reads/varies'],
     'Taint analysis over the MIR of every function of the crate, closures included, to a fixpoint over the call graph: the order in which a hash map or set lists its contents, elements '
     'picked by it, and values decided by it must not reach a result, a mutable argument or the state of a public type (except through Pairing::edges and Debug, whose order is not promised). Nor may what reading reaches hash with a random seed, use an address as a number, or ask for the time, the environment or the thread.')
rule('G11', [surface], [r'surface/'],
     'Signatures and fields of everything exported: no field of a graph or pairing is visible, nothing but the documented operations takes one by mutable reference, nothing returns a mutable '
     'reference or handle. Programs that change, move or outlive a graph in use are checked against the crate and must be rejected by the borrow checker, while their twins compile.')
rule('G12', [reads], [r'reads/'],
     'Everything reachable from the reading operations in the call graph: no call to I/O, clock, environment, threads, thread-local state or random hashing, no address used as a number, no '
     'mutable global, no cell in a graph or pairing, no shared reference made mutable; programs that share a graph among threads must compile.')
rule('M08', [opaque], [r'labels/'],
     'A whole-program flow analysis over the MIR finds which integers are node ids, through containers, tuples, iterators, closures and fields. Comparison by size, with a constant or with a count, '
     'arithmetic, casts, indexing, sorting, and use of a count as an id are not allowed to involve one, except in Pairing::edges, try_from(adjacency lists), Debug, and where the obligations of the '
     'operation show that the outcome is the same. Orders by size (sorting, ordered maps and sets, minimum and maximum) must not reach a result.')

rule('U01', [safe], [r'unsafe/'],
     'Every operation of the crate (MIR) that the compiler takes on trust is listed: calls of unsafe functions, raw pointers followed, values taken for another type, Send and Sync by declaration. '
     'Each must be an unchecked access that is in range (or an unchecked unwrapping of a value that is there) on every path of the operations that reach it.')
rule('C02', [depth], [r'stack/'],
     'The call graph of the whole crate (MIR, closures, trait methods resolved or over every implementation) has no cycle but through a call that passes a graph held by the caller itself, '
     'which is the search for a contracted graph. No type owns a chain of itself, whose drop would nest; no boxed iterator or closure is built from the one before in a loop.')

rule('C03', [halts], [r'halts/'],
     'Every loop met on any path of the operations (MIR, one symbolic turn from arbitrary loop variables) either runs over a finite list, takes something off a list, or each way round it '
     'changes something that the choice of the way depends on and does not lead to the same way again whatever that is; no call of a function within itself finds its arguments, and what they refer to, as they were.')

TECH = {
    'C03': 'progress analysis of loop summaries from path-sensitive abstract execution of compiler MIR (variables each way round a loop depends on against those it changes)',
    'U01': 'effect lint over compiler MIR (operations outside the safe language), discharged by path-sensitive abstract execution',
    'C02': 'strongly connected components of the call graph over compiler MIR, ownership of types, dataflow of boxed iterators',
    'M08': 'interprocedural flow analysis classifying integers as ids or counts over compiler MIR, with a rule per use; order taint',
    'G11': 'signature and visibility lints over the type-checked crate; compile-fail witnesses with compiling twins',
    'G12': 'effect analysis over the call graph (MIR), type walk for interior mutability, Send/Sync witnesses',
    'M07': 'interprocedural taint analysis of hash iteration order over compiler MIR',
    '': 'path-sensitive abstract execution of compiler MIR with loop summaries and per-operation contracts',
}
NA = {
    'M09': 'Optimality of the matching is a global fact about the search (Berge\'s theorem and the correctness of the blossom algorithm over all graphs): it is not visible in the '
           'shape of the code. Its structural parts are claimed as M05 (exhaustive search, full application) and M06 (contraction).',
    'M12': 'A contracted problem has an augmenting path only if the problem has one, and rerouting the expanded path finds it: that the panics of these steps are out of reach is a theorem '
           'about matchings, not visible in the shape of the code. That the steps do what they are meant to is claimed as M06 and M10; the other panics and endless loops are M11.',
    'C01': 'Running time over all inputs: amortised costs of hash tables and of repeated scans are runtime quantities that no static rule here can bound without guessing.',
}
if __import__('os').environ.get('GAMMA_ALL'):
    rule('ALLG', ALLG, ['.'], '')
    rule('ALLT', ALLT, ['.'], '')
if __import__('os').environ.get('GAMMA_ALL'):
    rule('ALLP', [pairing, augment, greedy], ['.'], '')
    rule('ALLS', [driver, search, marker, forest], ['.'], '')
    rule('ALLB', [collapse], ['.'], '')
    rule('ALLE', ends, ['.'], '')
