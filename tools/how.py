"""How each property is decided, in more detail: printed into DESIGN.md by specs.py."""
HOW = {
    'C01': 'Logs with values of every kind (nested lists, dictionaries, tuples, sets, bytearrays, events and traces as values, plain objects), copied by copy.copy, copy.deepcopy and the copy constructors; after the copy one of 20 mutations is applied to one side and both sides are compared with deep snapshots. A deep copy must share no mutable part at any depth.',
    'C02': 'Pairs of logs equal by construction (rebuilt, permuted keys) or edited at one place (25 kinds of edits: moved boundary between key and value, swapped values, moved events between traces, metadata order, ...); __eq__, __ne__ and __hash__ of logs, traces and events must agree with equality of the textual content, also after the objects are edited in place and compared again (nothing remembered may go stale), and hashing is deterministic.',
    'C03': 'A model of two traces, one log and one event as lists and dictionaries is edited step by step with the objects, negative and out-of-range indices included; refused edits must raise in both. Equality is asked in between, so that anything cached by it would show in later steps.',
    'C04': 'Written by every route (file, text, indented text, the pipeline part, over an existing longer file, under a bare name) and read by the function or the part; compared with the generated description with types.',
    'C05': 'Documents are generated as element trees and rendered with random namespaces, comments, unknown elements, quoting, encodings, BOMs; the expected log comes from the tree.',
    'C06': 'Texts and logs are generated from each other by separators of 1-2 characters; shared event objects, defaults and several logs per text included.',
    'C07': 'Both directions with deep snapshots of both sides, then a mutation on either side that must not show on the other one.',
    'C08': 'Counting model over the names; predicates that answer with other values than True/False (numbers, lists), events shared between traces, graphs with and without artificial ends, the artificial names themselves as class names, the log unchanged afterwards.',
    'C09': 'Definition implemented from the formulas over all predecessors and successors of a class, averages and sums and the data frame of the report included.',
    'C10': 'Definition implemented over positions, direct and vectorised computations, averages, sums, standard deviation and variance, probabilities of each position.',
    'C11': 'The chain of results for limits 1, 2, 3, ... is checked step by step: each step removes one whole class, among those the metric ranks worst (ties within 1e-9 accept any), not untouchable, until threshold/limit/nothing left. Functions and parts, parts used before on another log, untouchable functions answering by other truthy values, traces shared between logs, till-end variants for all metrics.',
    'C12': 'Model on lists of dictionaries; a history of 1-8 mutations by function or by part; parts run before on another log; predicates that answer with truthy values; the source log of filters is compared with its snapshot.',
    'C13': 'Grouping by tuples of names; names that collide under weak hashes, near copies with one edit; order of groups, representatives, counts, variants filter, merging with separators that must be fresh.',
    'C14': 'Brute force over all start positions and block lengths below the limit, functions and parts, with class extractors; primitive arrays by the same definition.',
    'C15': 'Brute force over all sub-sequences with left and right contexts (maximal: an occurrence pair with different contexts on both sides; super-maximal: not inside of another one; near super-maximal: some occurrence not inside of another one), per trace and over the merged log; every reported location is read back from the trace.',
    'C16': 'Model of class sets ordered by inclusion: number of nodes, parents, children, roots, names, lengths, with class extractors and levels, arbitrary marked sub-sequences, patterns at several places, shared traces.',
    'C17': 'Reference extraction on class sets plus invariants (order, disjointness, maximality), narrowing down the tree, filters of instances rejecting by truthy values, ambiguous sub-activities accept any smallest one.',
    'C18': 'Partition of every trace by arbitrary disjoint instances; logs per activity with and without promotion, instances searched in gaps, adding of unattached activities, parts used before.',
    'C19': 'History of abstraction steps with the three strategies; underlying events by identity through all steps; substitution back; distinct activities get distinct unique names.',
    'C20': 'The composed parts (loops, repeats, several levels, until no more) against running the single steps with the same options; finishing is decided by a CPU limit; nothing is left in the result of a last round that found no instances.',
    'C21': 'The description is handed to graphviz (dot -Tjson) and the nodes and edges are compared with the model; unusual names (colons, angle brackets, quotes, equal names) included.',
    'C22': 'Interpreter over dictionaries for random trees of combinators (parallel, if, for-each and filtering branches, nested pipelines) edited before running, run once or twice; contexts: set, get, remove, missing values, copies.',
    'C23': 'Standard output and files are captured and parsed back; every entry is compared with the generated context, several reports after one another, log and activities compared with snapshots.',
    'C24': 'Rectangles, legends, ticks, titles and limits are read off the matplotlib figure at the moment it is shown or saved; a layout model built from the log, instances and patterns says what they must be; random colors are drawn from 512 values so that clashes happen.',
    'C25': 'The message is serialised and parsed as the wire would, then compared with the value.',
    'C26': 'The contract (names, keys, types) was recorded from the Rust readers; generated pipelines are turned into requests and compared with it, with omitted, positional and keyword arguments and defaults.',
    'C27': 'A scripted gRPC server on the loopback interface sends generated streams; the parts record what reaches them.',
    'C28': 'As C21, for nets and graphs received from the backend: shapes, labels, arcs, markings, exported files.',
    'C29': 'pm4py is called directly on an independently built log; nets are compared up to names, markings exactly; replay of every trace for the inductive miner without noise; pictures ask pm4py for the stored net.',
    'C30': 'As C24, on figures and on a recording canvas; datasets are compared by centring and principal components up to sign.',
}
