"""What each check runs: flavor x mode with the measured cost of one case; budgets turn that into chunks and cases."""
import math

QUICK = 120.0      # worker seconds per check and quick run (8 workers)
THOROUGH = 3600.0


def plan(entries, tier, budget=1.0):
    """entries: (flavor, mode, ms per case, weight[, options])."""
    out = []
    total = sum(e[3] for e in entries)
    for e in entries:
        flavor, mode, ms, weight = e[:4]
        opt = dict(e[4]) if len(e) > 4 else {}
        fixed = opt.pop('fixed', None)
        if fixed:
            chunks, cases = fixed if tier == 'quick' else opt.pop('fixed_thorough', (fixed[0] * 8, fixed[1]))
        else:
            secs = (QUICK if tier == 'quick' else THOROUGH) * budget * weight / total
            per = 1.5 if tier == 'quick' else 15.0
            # thorough workloads are larger per case
            cost = ms / 1000.0 * (1 if tier == 'quick' else opt.get('grow', 1.5))
            chunks = max(8, int(math.ceil(secs / per)))
            cases = max(1, int(secs / chunks / cost))
        opt.pop('fixed_thorough', None)
        opt.pop('grow', None)
        d = dict(flavor=flavor, mode=mode, chunks=chunks, cases=cases, cpu=60 if tier == 'quick' else 900)
        d.update(opt)
        out.append(d)
    return out


PROPS = {}


def prop(pid, rule, entries, mins=None, budget=1.0, assumptions=()):
    if any(e[1] == 'scale' for e in entries):
        rule = rule.replace(HISTORY, LARGE + HISTORY)
    PROPS[pid] = dict(src=pid.lower() + '.cpp', rule=rule, quick=plan(entries, 'quick', budget), thorough=plan(entries, 'thorough', budget),
                      min=mins or {}, assumptions=list(assumptions))


LARGE = ('; plus histories over large diagrams (thousands of nodes, up to 150 000, over up to 60 variables placed anywhere up to 65 600) and over deep ones (hundreds to 70 000 variables), judged node by node against an '
         'independent reference implementation; there a result counts by (function, operation)')
HISTORY = ('; "distinct" counts by content: the hash covers what is named here, not seeds or case numbers')

prop('C01', 'cases are generated histories of 30-160 manager operations over 1-8 variables (with collections in between), histories over 9-14 variables, and sweeps over '
     'all pairs/triples of functions of 2 variables and samples of the triples of 3 variables; every result is judged against its truth table by walking the diagram and by evaluate(). '
     'One judged result counts as distinct by (operation, resulting function) in histories and (operation, operand functions) in sweeps' + HISTORY,
     [('san', 'hist', 16, 3), ('opt', 'hist', 1.5, 3), ('opt', 'exh2', 3.5, 1), ('opt', 'exh3', 98, 1.5), ('san', 'big', 275, 1.5), ('opt', 'big', 19, 2), ('opt', 'scale', 60, 2.5), ('san', 'scale-san', 151, 2), ('opt', 'scale-deep', 530, 2), ('san', 'scale-deep-san', 700, 1)])
prop('C02', 'cases are histories (1-7 variables), algebraic identities over 8-15 variables whose two sides are built by different operations, and single variables with thousands of nodes; '
     'every result is compared as a handle with a bottom-up construction of the same function and with all handles held. Distinct: (operation, function) for histories; the operation history '
     'so far with the shapes of its operands for identities and wide tables' + HISTORY,
     [('san', 'hist', 18, 3), ('opt', 'hist', 1.4, 3), ('opt', 'laws', 19, 2), ('san', 'laws', 150, 1), ('opt', 'wide', 35, 2), ('san', 'wide', 144, 1), ('opt', 'scale', 64, 2.5), ('san', 'scale-san', 180, 2), ('opt', 'scale-deep', 570, 2), ('san', 'scale-deep-san', 560, 1)])
prop('C03', 'cases are lists of 1-9 arbitrary functions (repetitions, complements, constants) under all counting constructors with bounds 0..n+1 and huge bounds, judged by truth table; and lists of up to '
     '150 variables (400 thorough), shuffled, judged exactly by exploring (node, position, number of true variables). Distinct: (constructor, resulting function) or (constructor, length, bound, order)' + HISTORY,
     [('san', 'mixed', 15.5, 3), ('opt', 'mixed', 1.2, 3), ('opt', 'sym', 2, 2, {'grow': 8}), ('san', 'sym', 15, 1, {'grow': 8})])
prop('C04', 'cases are histories with node-limited conjunctions at limits below, at and above the exact size, and unlimited; judged against truth table and exact node count. '
     'Distinct: (resulting function, limit), and (operation, function) for the surrounding history' + HISTORY,
     [('san', 'hist', 17, 3), ('opt', 'hist', 1.4, 3), ('opt', 'big', 18, 2), ('san', 'big', 182, 2), ('opt', 'scale', 42, 2.5), ('san', 'scale-san', 207, 2), ('opt', 'scale-deep', 300, 2), ('san', 'scale-deep-san', 390, 1)])
prop('C05', 'cases are histories with renamings by map and by vector over random strictly increasing maps, and shifts of long diagrams; judged by truth table of the renamed function, and by handle identity when '
     'renamed back. Distinct: (operation, function), (length, shape parameters) for shifts' + HISTORY,
     [('san', 'hist', 30, 3), ('opt', 'hist', 2.3, 3), ('opt', 'shift', 13, 2), ('san', 'shift', 71, 2), ('opt', 'scale', 125, 2.5), ('san', 'scale-san', 256, 2), ('opt', 'scale-deep', 750, 2), ('san', 'scale-deep-san', 745, 1)])
prop('C06', 'cases are histories that drop random handles, collect garbage at random points (also twice, and with only inner nodes held), and go on working; after every collection each held handle is '
     'judged against its truth table and re-found. Distinct: (operation, function), held inner functions' + HISTORY,
     [('san', 'hist', 32, 3), ('opt', 'hist', 2.7, 3), ('opt', 'big', 12, 2), ('san', 'big', 171, 2), ('san', 'inner', 37, 1), ('opt', 'inner', 4, 1), ('opt', 'scale', 91, 2.5), ('san', 'scale-san', 260, 2), ('opt', 'scale-deep', 700, 2), ('san', 'scale-deep-san', 740, 1)])
prop('C07', 'cases are histories, chains of single-parent nodes, build/drop cycles and tables that grow and shrink thousands of times; the reported node count is compared with an independent reachability count after every collection, and the set of '
     'addresses ever handed out with the peak number of nodes, the bytes allocated after a cycle with those after the second one. Distinct: (operation, function), the operation history up to the judged collection, (chain length, cut)' + HISTORY,
     [('san', 'hist', 15, 3), ('opt', 'hist', 1.1, 3), ('opt', 'big', 6.3, 2), ('san', 'big', 101, 2), ('san', 'chain', 11, 1, {'grow': 2.5}), ('opt', 'chain', 0.8, 1, {'grow': 2.5}), ('opt', 'cycles', 28, 2, {'grow': 3}), ('opt', 'scale', 52, 2.5), ('san', 'scale-san', 283, 2), ('opt', 'scale-deep', 630, 2), ('san', 'scale-deep-san', 500, 1), ('opt', 'plateau', 40, 1), ('opt', 'plateau-large', 350, 1)])
prop('C08', 'cases are histories with random handle copies, moves, assignments, containers and drops; after collections the reference count of every node is compared with handles plus arcs. '
     'Distinct: (operation, function), the operation history up to the judged collection' + HISTORY,
     [('san', 'hist', 11.5, 3), ('opt', 'hist', 1.0, 3), ('opt', 'big', 4.8, 2), ('san', 'big', 65, 2), ('opt', 'scale', 64, 2.5), ('san', 'scale-san', 384, 2), ('opt', 'scale-deep', 840, 2), ('san', 'scale-deep-san', 640, 1)])
prop('C09', 'cases are diagrams from histories (1-14 variables), cubes and near-cubes, and thin diagrams of up to 1500 (4000) levels; every traversal and structural query is judged against an independent breadth-first '
     'exploration. Distinct: shape of the queried diagram; (operation, function)' + HISTORY,
     [('san', 'hist', 14, 3), ('opt', 'hist', 1.3, 3), ('opt', 'big', 10, 2), ('san', 'big', 101, 2), ('opt', 'chain', 6, 1, {'grow': 3}), ('san', 'chain', 45, 1, {'grow': 3}), ('opt', 'scale', 112, 2.5), ('san', 'scale-san', 375, 2), ('opt', 'scale-deep', 460, 2), ('san', 'scale-deep-san', 800, 1)])
prop('C10', 'cases are diagrams from histories and entries of collections; the printed text and the graphviz output are parsed back and the parsed graph is evaluated on every assignment. '
     'Distinct: function printed or drawn; (operation, function)' + HISTORY,
     [('san', 'hist', 19, 1), ('opt', 'hist', 1.9, 1), ('opt', 'scale', 95, 2.5), ('san', 'scale-san', 350, 2), ('opt', 'scale-deep', 710, 2), ('san', 'scale-deep-san', 1080, 1), ('san', 'wide', 6.5, 1), ('opt', 'wide', 0.7, 1)])
prop('C11', 'cases are histories in which variables come into existence one after another, next to each other or up to 3000 apart, and managers with up to some thousand, or more than 2^20, variables; number and numbering of variables and all functions are '
     'judged. Distinct: (operation, function), (history, variables probed)' + HISTORY,
     [('san', 'hist', 16, 3), ('opt', 'hist', 1.8, 3), ('opt', 'many', 5.5, 2, {'grow': 3}), ('san', 'many', 25, 2, {'grow': 3}), ('opt', 'million', 1400, 1, {'fixed': (2, 1), 'fixed_thorough': (16, 1)}), ('opt', 'scale', 46, 2.5), ('san', 'scale-san', 397, 2), ('opt', 'scale-deep', 250, 2), ('san', 'scale-deep-san', 480, 1)])
prop('C12', 'cases are histories mixing every public operation of managers and collections, run under AddressSanitizer+UBSan, under valgrind memcheck, and under an allocation monitor that fills fresh and released storage and compares '
     'blocks and bytes before and after a lifetime. Distinct: (operation, function), the history of a leak-checked lifetime' + HISTORY,
     [('san', 'mix', 23, 4), ('dbg', 'mix', 2.4, 2), ('opt', 'mix', 2.0, 1), ('dbg', 'leak', 1.8, 1), ('opt', 'leak', 2, 1), ('dbg', 'coll-leak', 0.8, 0.7), ('san', 'large', 144, 2), ('opt', 'pools', 55, 1), ('dbg', 'pools', 75, 1), ('vg', 'small', 1312, 3), ('opt', 'scale', 52, 2.5), ('san', 'scale-san', 213, 2), ('opt', 'scale-deep', 550, 2), ('san', 'scale-deep-san', 610, 1)])
prop('C13', 'cases are 2-4 managers with collections whose operations are interleaved in one thread (node counts and contents of the others compared after each step), and 2-5 (8) threads working on managers of their own, '
     'also handed between threads and with diagrams of thousands of nodes, under ThreadSanitizer and in an optimised build. Distinct: (operation, function), the operation history up to the judged step or of the thread group' + HISTORY,
     [('san', 'interleave', 68, 3), ('opt', 'interleave', 4.8, 3), ('tsan', 'threads', 170, 3, {'grow': 3}), ('opt', 'threads', 13, 1, {'grow': 3}), ('tsan', 'threads-large', 500, 2, {'grow': 3}), ('opt', 'threads-large', 80, 1, {'grow': 3}), ('opt', 'scale', 70, 2.5), ('san', 'scale-san', 212, 2)])
prop('C14', 'cases are histories of a collection: imports, exports into the same and other managers, evaluation at all or sampled assignments, node counts, variables, instruction lists in both directions. Distinct: '
     '(operation, function), (length, kind) of long entries' + HISTORY,
     [('san', 'hist', 125, 3), ('opt', 'hist', 5.5, 3), ('opt', 'big', 22, 2), ('san', 'big', 253, 2), ('opt', 'chain', 5.6, 1, {'grow': 4}), ('san', 'chain', 50, 1, {'grow': 4}), ('opt', 'scale', 109, 2.5), ('san', 'scale-san', 195, 2), ('opt', 'scale-deep', 550, 2), ('san', 'scale-deep-san', 680, 1), ('san', 'wide', 9, 1), ('opt', 'wide', 1.2, 1)])
prop('C15', 'cases are two-way and n-way conjunctions of entries with and without limit, limits around the exact size, and chains of constraints over up to 120 (400) variables compared with the manager. Distinct: '
     '(resulting function, limit, operands), shape of the conjunction; (operation, function)' + HISTORY,
     [('san', 'hist', 31, 3), ('opt', 'hist', 2.7, 3), ('opt', 'big', 7, 2), ('san', 'big', 87, 2), ('opt', 'chain', 1, 1, {'grow': 20}), ('san', 'chain', 12, 1, {'grow': 20}), ('opt', 'scale', 173, 2.5), ('san', 'scale-san', 582, 2), ('opt', 'scale-deep', 2100, 2), ('san', 'scale-deep-san', 3300, 1), ('san', 'wide', 9, 1), ('opt', 'wide', 1, 1)])
prop('C16', 'cases are disjunctions of entries with sets of positive and negative literals (overlapping sets, literals above, inside and below the support), judged by truth table and minimal size, and long diagrams compared with '
     'the manager. Distinct: (resulting function, operand), shapes; (operation, function)' + HISTORY,
     [('san', 'hist', 27, 3), ('opt', 'hist', 2.4, 3), ('opt', 'big', 4.5, 2), ('san', 'big', 38, 2), ('opt', 'chain', 1.8, 1, {'grow': 8}), ('san', 'chain', 20, 1, {'grow': 8}), ('opt', 'scale', 42, 2.5), ('san', 'scale-san', 152, 2), ('opt', 'scale-deep', 250, 2), ('san', 'scale-deep-san', 840, 1), ('san', 'wide', 9, 1), ('opt', 'wide', 1.2, 1)])
prop('C17', 'cases are histories of a collection with removals of nothing, everything, first, last, ranges, suffixes and random subsets; the survivors are compared literally, by evaluation and by export. Distinct: the '
     'operation history up to the judged removal; (operation, function)' + HISTORY,
     [('san', 'hist', 29, 1), ('opt', 'hist', 2.5, 1), ('opt', 'scale', 59, 2.5), ('san', 'scale-san', 171, 2), ('opt', 'scale-deep', 820, 2), ('san', 'scale-deep-san', 600, 1), ('san', 'wide', 10, 1), ('opt', 'wide', 1.3, 1)])
prop('C18', 'cases are histories of a collection with renamings by map and by vector over random strictly increasing maps; the renamed entry is judged by evaluation, structure, variables and export, the others compared literally. '
     'Distinct: (function after renaming, entry); (operation, function)' + HISTORY,
     [('san', 'hist', 36, 1), ('opt', 'hist', 3.1, 1), ('opt', 'scale', 48, 2.5), ('san', 'scale-san', 193, 2), ('opt', 'scale-deep', 900, 2), ('san', 'scale-deep-san', 810, 1), ('san', 'wide', 8, 1), ('opt', 'wide', 0.9, 1)])
prop('C19', 'cases are entries of collections walked node by node through every navigation function, re-routed arc by arc and judged against a model of the graph. Distinct: function of the walked entry; (operation, function)' + HISTORY,
     [('san', 'hist', 17, 1), ('opt', 'hist', 1.5, 1), ('opt', 'scale', 67, 2.5), ('san', 'scale-san', 148, 2), ('opt', 'scale-deep', 390, 2), ('san', 'scale-deep-san', 370, 1), ('san', 'wide', 4, 1), ('opt', 'wide', 0.5, 1)])
prop('C20', 'cases are diagrams built node by node in random arc order through every arc-setting function, closed and judged by evaluation, structure, export and later operations. Distinct: (operation, function)' + HISTORY,
     [('san', 'hist', 21, 1), ('opt', 'hist', 1.8, 1), ('opt', 'scale', 170, 2.5), ('san', 'scale-san', 270, 2), ('opt', 'scale-deep', 1450, 2), ('san', 'scale-deep-san', 640, 1), ('san', 'wide', 9, 1), ('opt', 'wide', 1.2, 1)])
prop('C21', 'cases are tables of 1-16 variables filled, thinned out and collected through all growth steps, up to 300 000 nodes of one variable, and one table filled until it refuses; every node asked for is compared with the '
     'model of the table. Distinct: the history (node keys made, rounds) up to the judged state' + HISTORY,
     [('opt', 'full', 4490, 1, {'fixed': (2, 1), 'fixed_thorough': (16, 2)}), ('san', 'grow-small', 67, 2), ('opt', 'grow-small', 8, 2), ('opt', 'grow', 251, 2), ('san', 'many', 80, 2), ('opt', 'many', 11, 2)])
prop('C22', 'cases are single operations on symmetric and modular functions over 8-44 (70) variables, on diagrams of up to 40 000 (120 000) nodes combined with small ones, in collections of thousands of entries, and garbage collections of tables that were far larger before; the basic blocks the library executes are counted and compared with a bound in the sizes of operands '
     'and result. Distinct: (operation, size bound, blocks executed)' + HISTORY,
     [('steps', 'run', 4.7, 2, {'grow': 6}), ('steps', 'coll', 1.6, 2, {'grow': 6}), ('steps', 'memo', 3.4, 1), ('steps', 'big', 155, 3), ('steps', 'many', 40, 1.5), ('steps', 'collect', 25, 1)])
prop('C23', 'cases are sequences of reserving and releasing nodes and table pages directly at the pools (18 page geometries), and managers whose tables of 2-5 variables grow to 290 000 nodes, shrink and grow again, and one table that grows and shrinks up to thousands of times; every slot handed out is compared with a model of what is in use and with its contents, every class of pages with the number of tables. Distinct: '
     'the sequence of reservations and releases up to the judged state' + HISTORY,
     [('san', 'nodes', 30, 2), ('opt', 'nodes', 6, 2), ('san', 'pages', 2.8, 2), ('opt', 'pages', 0.6, 2), ('opt', 'pages-large', 100, 1), ('opt', 'tables', 55, 2), ('san', 'tables', 170, 2), ('opt', 'tables-large', 420, 3), ('opt', 'cycling', 40, 1.5), ('opt', 'cycling-large', 320, 1), ('san', 'cycling', 350, 1)])
prop('C24', 'cases are sequences of insertions, look-ups (stored keys, permuted keys, other operation symbols, keys never stored), purges after nodes died, and reuse of their storage, against a map. Distinct: the sequence of keys up to '
     'the judged insertion' + HISTORY,
     [('san', 'hist', 40, 2), ('opt', 'hist', 5.7, 2), ('opt', 'big', 586, 2)], budget=0.5)
prop('C25', 'cases are random diagrams and chains whose nodes are added in postorder to 1-3 depth tables; each depth is compared with the longest path. Distinct: shape of the diagram added' + HISTORY,
     [('san', 'hist', 11, 2), ('opt', 'hist', 1, 2), ('opt', 'chain', 39, 2), ('san', 'chain', 290, 2), ('opt', 'deep', 95, 1), ('san', 'deep', 360, 1)], budget=0.5)

try:
    from mins import MINS
    for _p, _m in MINS.items():
        if _p in PROPS:
            PROPS[_p]['min'] = _m
except ImportError:
    pass
