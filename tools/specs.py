"""Source of properties.jsonl and MANIFEST.json: python3 tools/specs.py rewrites both."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from how import HOW  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'src/python/ficus/legacy/'
G = 'src/python/ficus/grpc_pipelines/'
SPECS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note):
    SPECS.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note))


prop('C01', 'Copies of events, traces and logs are complete and isolated',
     'A copy of an event, a trace or a log has the same content as the original: the same events with all attributes and values, '
     'trace and log attributes, extensions, classifiers, properties and global values. '
     'Changing either side of a deep copy afterwards (events, attributes, nested values, metadata lists) never shows on the other side; a shallow copy shares the elements it holds, but adding, replacing or removing elements on one side does not show on the other.',
     ['inputs', 'histories'], 'every log with arbitrary (also nested) attribute values and metadata, every way to copy it, every later change of either side',
     'the tests copy a handful of fixed logs and compare names only; nothing mutates after copying across the kinds of content',
     [L + 'log/event_log.py', L + 'log/functions.py'],
     [{'name': '__copy__ / copy constructors', 'where': L + 'log/event_log.py'}],
     'property-based testing: generated logs, copy kinds and mutations against a deep snapshot',
     'oracle is an independent deep snapshot of both sides before and after the mutation')

prop('C02', 'Equality and hashing of events, traces and logs follow their content',
     'Two events, traces or logs are equal exactly when their content is equal: names, timestamps, lifecycle transitions, all further attributes '
     '(in any key order), the order of events and traces, log attributes, extensions, classifiers and properties, values being compared by their textual form. '
     'Equal objects have equal hashes, and a difference at a single place makes them unequal.',
     ['inputs'], 'every pair of logs that are equal by construction or differ at exactly one place',
     'tests compare a few pairs; collisions, key order and boundary effects need adversarial pairs over all content kinds',
     [L + 'log/event_log.py', L + 'util.py', L + 'log/functions.py'],
     [{'name': '__eq__ / __hash__', 'where': L + 'log/event_log.py'}, {'name': 'hash helpers', 'where': L + 'util.py'}],
     'property-based testing: metamorphic pairs (rebuilt / edited at one place)',
     'content equality is computed on the generated description, not on the objects')

prop('C03', 'Edit histories of events, traces and logs behave like maps and lists',
     'Any sequence of additions, replacements, insertions and removals on events, traces and logs leaves exactly what the same sequence leaves in plain '
     'dictionaries and lists: same elements, same order, same lengths, same answers to lookups. '
     'Objects created without content are empty and share nothing with each other.',
     ['histories'], 'every sequence of up to 30 edits and lookups',
     'the tests run single operations on fixed objects; interactions between operations are not covered',
     [L + 'log/event_log.py'], [{'name': 'MyEvent, MyTrace, MyEventLog', 'where': L + 'log/event_log.py'}],
     'model-based (stateful) testing against lists and dictionaries',
     'the model is rebuilt from the history; compared after every step')

prop('C04', 'Saving a log as XES and reading it back changes nothing',
     'For every log whose texts XML can carry, saving it as XES and reading the document gives an equal log: the same traces and events in order, '
     'all attributes with values and types (text, date, integer, float, boolean), extensions, classifiers, properties and global values. '
     'The same holds for every way of writing (file, text, pipeline).',
     ['inputs'], 'every log built from the supported value types',
     'the existing read/write tests need files that are not in the repository, and sample a few real logs',
     [L + 'log/functions.py', L + 'pipelines/serialization/pipeline_parts.py', L + 'pipelines/start/start_parts.py'],
     [{'name': 'XES writer and reader', 'where': L + 'log/functions.py'}],
     'property-based testing: round trip', 'compares with the generated description, types included')

prop('C05', 'Reading a XES document yields exactly the log it describes',
     'For every well-formed XES document the log that is read holds exactly the traces, events, typed attributes, extensions, classifiers, properties '
     'and global values written in it, in document order, whatever the layout, encoding, namespaces or quoting; '
     'values declared global are supplied to the traces and events that lack them only, and unknown elements are ignored.',
     ['inputs'], 'every document assembled from XES elements in any legal layout',
     'reading tests need files that are not in the repository; layouts and encodings form an unbounded space',
     [L + 'log/functions.py', L + 'log/event_log.py'], [{'name': 'XES reader', 'where': L + 'log/functions.py'}],
     'grammar-based generation of documents against an independent reader model',
     'the expected log is derived from the generated element tree, never from the parser')

prop('C06', 'The compact text form of logs is faithful',
     'Parsing the compact text form of logs gives one log per part, one trace per line part and one event per name, in order, '
     'and printing a log gives back its text, so that printing and parsing are inverse to each other for every choice of separators.',
     ['inputs', 'configurations'], 'every list of logs of names and every choice of separators',
     'tests use single-letter logs and default separators',
     [L + 'log/event_log.py', L + 'log/functions.py'], [{'name': 'text parser and printer', 'where': L + 'log/functions.py'}],
     'property-based testing: round trip both ways', 'names do not contain separators')

prop('C07', 'Conversion to and from pm4py logs loses nothing and shares nothing',
     'Converting a log to a pm4py log keeps every trace and event with all attributes and values, in order; converting a pm4py log to ours keeps them and also trace attributes, log attributes, extensions, classifiers, properties and global values. '
     'Later changes of the source or of the result do not show on the other one, and a change of one trace or event of the result shows in no other, also when the source holds equal ones.',
     ['inputs', 'histories'], 'every log with nested values, both directions, and every later change',
     'no test converts anything but through discovery on files that are missing',
     [L + 'log/pm4py_converters.py'], [{'name': 'converters', 'where': L + 'log/pm4py_converters.py'}],
     'property-based testing: round trip and mutation after conversion', 'deep snapshots as in C01')

prop('C08', 'Log statistics and the directly-follows graph count exactly',
     'The numbers reported for a log (all events, events of each class, events of each class in each trace) and its directly-follows graph, with and without artificial trace ends, equal direct counting over '
     'the traces, ignoring exactly the classes asked to be ignored. The names reported for a predicate are those all of whose events satisfy it, and counting never changes the log.',
     ['inputs', 'configurations'], 'every log, every set of ignored names and every event predicate',
     'tests count on a few fixed logs',
     [L + 'analysis/event_log_info.py', L + 'analysis/event_log_analysis.py', L + 'discovery/graph.py'],
     [{'name': 'create_event_log_info, discovery of the DFG', 'where': L + 'analysis/event_log_info.py'}],
     'property-based testing against a direct counting model', 'exact integer comparison')

prop('C09', 'Entropies over the directly-follows relation follow their definition',
     'For every log and every set of ignored classes, the entropy of each remaining event class computed from what directly precedes and follows it '
     'equals its definition, plain and with Laplace smoothing: classes that are not ignored are all reported, ignored classes never, and following and preceding at trace ends are counted.',
     ['inputs', 'configurations'], 'every log and set of ignored classes',
     'tests pin a few numbers for fixed logs',
     [L + 'analysis/event_log_analysis_entropy.py'], [{'name': 'DFG entropies', 'where': L + 'analysis/event_log_analysis_entropy.py'}],
     'property-based testing against a reference implementation from the definition', 'relative tolerance 1e-7')

prop('C10', 'Positional entropies follow their definition in both computations',
     'For every log and every set of ignored classes the positional entropy of each remaining class equals its definition over the positions of its events in the traces, '
     'and the fast vectorised computation gives the same numbers as the direct one.',
     ['inputs', 'configurations'], 'every log (empty traces included) and set of ignored classes',
     'tests pin a few numbers for fixed logs',
     [L + 'analysis/event_log_analysis_entropy.py'], [{'name': 'positional entropies', 'where': L + 'analysis/event_log_analysis_entropy.py'}],
     'property-based testing: reference model and differential (direct vs fast)', 'relative tolerance 1e-7')

prop('C11', 'Entropy filters remove the right classes and always stop',
     'An entropy filter removes whole event classes one by one, each time the one its metric ranks worst among the removable ones, never an untouchable class, '
     'until the threshold or the number of removals asked for is reached or nothing may be removed; it always terminates. '
     'What is left is the original log without the events of the removed classes, in the original order, and the original log is unchanged.',
     ['inputs', 'configurations'], 'every log, filter kind, threshold, limit and set of untouchable classes',
     'tests sample a few logs; termination and tie handling need the whole configuration space',
     [L + 'filtering/event_log_filters.py', L + 'pipelines/filtering/filter_parts.py'],
     [{'name': 'entropy filters', 'where': L + 'filtering/event_log_filters.py'}],
     'property-based testing: step-by-step greedy reference over chains of limits', 'ties within 1e-9 accept any of the tied classes')

prop('C12', 'Log mutations and filters change exactly what is asked for',
     'Every mutation or filter (dropping events by name, names or predicate, dropping short traces, renaming, changing attributes, dropping lifecycle transitions, artificial start and end events, classes as names) changes exactly '
     'the events and traces it is asked to and keeps all others, with their attributes, in order. Filters give a new log and leave the one they were given alone; traces left without events by them are dropped.',
     ['histories', 'configurations'], 'every log and every history of 1-8 mutations and filters, called directly or through the pipeline',
     'tests run each operation alone on tiny logs',
     [L + 'mutations/event_log_mutations.py', L + 'filtering/event_log_filters.py', L + 'pipelines/mutations/mutations_parts.py', L + 'pipelines/filtering/filter_parts.py'],
     [{'name': 'mutations and filters', 'where': L + 'mutations/event_log_mutations.py'}],
     'model-based testing of operation histories', 'the model works on lists of dictionaries')

prop('C13', 'Trace variants are exactly the distinct sequences of event names',
     'Grouping a log by variants puts two traces together exactly when their sequences of event names are equal, with the right counts, however similar or colliding the names are. '
     'The variants filter keeps the first trace of each variant, and merging the traces of a log into one keeps every event, in order, between separators that occur nowhere else.',
     ['inputs'], 'every log, in particular with near copies of traces and names that collide under weak hashes',
     'tests group a few letters; collisions need adversarial names',
     [L + 'analysis/event_log_split.py', L + 'analysis/event_log_analysis.py', L + 'util.py'],
     [{'name': 'variant grouping', 'where': L + 'analysis/event_log_split.py'}],
     'property-based testing against grouping by tuples', 'exact')

prop('C14', 'Loops (tandem arrays) found in traces are exactly those that exist',
     'For every trace the reported tandem arrays are exactly the distinct blocks of at least two events (below the length limit) that are immediately repeated, each once, at the first place where it is, with the right block length and the full number of repetitions; '
     'the primitive ones are those at whose place no tandem array of a shorter block, up to half as long (rounded up), begins.',
     ['inputs', 'configurations'], 'every log, class extractor and limit of the block length',
     'tests pin results for a few strings',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [{'name': 'tandem array search', 'where': L + 'analysis/patterns/event_log_patterns.py'}],
     'property-based testing against a brute-force definition', 'exact')

prop('C15', 'Repeats found in traces agree with their definitions',
     'The maximal, super-maximal and near super-maximal repeats reported for a trace or for a whole log are exactly the sub-sequences that satisfy the respective definition, '
     'each reported once, and every reported location really holds the repeat.',
     ['inputs', 'configurations'], 'every log, class extractor and kind of repeat',
     'tests pin results for a few strings',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [{'name': 'repeat search (suffix tree)', 'where': L + 'analysis/patterns/event_log_patterns.py'}],
     'property-based testing against brute-force definitions', 'exact')

prop('C16', 'Activities are the distinct class sets of patterns, in a tree by inclusion',
     'From patterns marked in a log exactly one activity is made for each distinct set of event classes of a pattern, and the activity tree orders them by inclusion: every activity that is included in others hangs below one of the smallest of them, '
     'the others are the roots, and no class set is lost or doubled. Names and sizes of activities follow from their class sets.',
     ['inputs', 'configurations'], 'every log, set of patterns, class extractor and activity level',
     'tests build trees from a few strings',
     [L + 'analysis/patterns/patterns_graphs.py', L + 'analysis/patterns/event_log_patterns.py'],
     [{'name': 'activity tree', 'where': L + 'analysis/patterns/patterns_graphs.py'}],
     'property-based testing against a set-inclusion model', 'exact')

prop('C17', 'Activity instances are ordered, disjoint, complete and rightly attributed',
     'The activity instances found in a trace are ordered, disjoint, inside of the trace and cannot be made longer, every event of an instance belongs to its activity, no event that belongs to some activity is left out when nothing is filtered, '
     'and narrowing picks a smallest sub-activity that holds all the classes met. Filters of instances drop exactly those they reject.',
     ['inputs', 'configurations'], 'every log, activity tree, narrowing choice and filter of instances',
     'tests pin instances for a few logs',
     [L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [{'name': 'extract_activities_instances', 'where': L + 'analysis/patterns/event_log_patterns.py'}],
     'property-based testing: reference extraction plus invariants', 'exact')

prop('C18', 'Events inside and outside of activity instances are told apart exactly',
     'Given instances in the traces of a log, the events attached to them and the events outside of them partition every trace: none is lost, invented or taken twice. '
     'Logs made per activity hold one trace per instance with exactly its events; when lower levels are promoted, an instance is taken exactly when its classes on the wanted level are those of its activity. Instances looked for later lie only in the gaps between the existing ones, which stay as they are.',
     ['inputs', 'configurations'], 'every log, activities of several levels and arbitrary disjoint instances',
     'tests look at a few logs with one activity level',
     [L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [{'name': 'attached / unattached events, activity logs', 'where': L + 'analysis/patterns/patterns_graphs.py'}],
     'property-based testing against a partition model', 'exact')

prop('C19', 'Abstraction of a log keeps every event and can be undone',
     'Replacing activity instances by single events gives, in order, one event per instance and treats the other events as asked (kept, dropped, or put under an undefined activity), '
     'the underlying events of every abstract event are exactly those it replaced through any number of steps, and substituting them back restores the covered events in order. Distinct activities are told apart by their unique names.',
     ['inputs', 'histories', 'configurations'], 'every log and history of 1-3 abstraction steps',
     'tests abstract a few logs once',
     [L + 'analysis/patterns/patterns_graphs.py', L + 'mutations/event_log_mutations.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [{'name': 'create_new_log_from_activities_instances', 'where': L + 'analysis/patterns/patterns_graphs.py'}],
     'property-based testing: round trip and history model', 'exact')

prop('C20', 'High-level activity discovery is right on every level and finishes',
     'Discovering activities from loops, from repeats, on several levels of event classes or until nothing more is found yields the same activities and instances as running the single steps one after the other with the same options, '
     'finishes for every log, and leaves every event of the log either in an instance or outside; options such as narrowing, strategies and filters are honoured. Repeating until nothing more is found leaves no activities of the last, fruitless round in the result. '
     'A pipeline for the logs of activities runs once for each of them in a context of its own.',
     ['inputs', 'configurations'], 'every log and combination of options',
     'tests run two or three option combinations on small logs',
     [L + 'pipelines/analysis/high_level.py', L + 'pipelines/analysis/patterns/patterns_parts.py'],
     [{'name': 'high level parts', 'where': L + 'pipelines/analysis/high_level.py'}],
     'property-based testing: differential between composed parts and a reference', 'exact; CPU limit decides termination')

prop('C21', 'Class trees and drawn graphs show exactly the classes, activities and relations',
     'The tree of event classes holds every class of the log once under the class it generalises to, and graphs drawn of class trees and of activity trees have exactly one node per class or activity and one edge per relation, '
     'whatever the names look like.',
     ['inputs', 'configurations'], 'every log, chain of class extractors and activity forest',
     'nothing tests the drawn graphs',
     [L + 'pipelines/analysis/patterns/patterns_graph_parts.py', L + 'analysis/patterns/patterns_graphs.py', L + 'analysis/event_log_analysis.py', L + 'discovery/graph.py'],
     [{'name': 'graph construction', 'where': L + 'pipelines/analysis/patterns/patterns_graph_parts.py'}],
     'property-based testing: graph description parsed by graphviz, compared with the model', 'trusts graphviz for the meaning of a description')

prop('C22', 'Pipelines run parts in order, branches work on copies, contexts are faithful',
     'A pipeline (also after adding, inserting and removing parts) runs its parts one after the other, each seeing exactly the context the previous one left; branching parts run on copies of the context so that nothing they put into it or take out of it shows outside, and every branch sees the same start. '
     'A context hands back exactly what was put in, and reports missing values.',
     ['histories', 'configurations'], 'every tree of combinators and parts that read, set, remove and replace context values',
     'tests run a few linear pipelines',
     [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/accessors.py', L + 'pipelines/contexts/keys.py', L + 'pipelines/common.py'],
     [{'name': 'Pipeline and combinators', 'where': L + 'pipelines/pipelines.py'}],
     'model-based testing of pipeline programs', 'interpreter over dictionaries as model')

prop('C25', 'Values cross the wire between frontend and backend unchanged',
     'Every value a user hands to a remote pipeline (texts, numbers, flags, lists of texts, enum values, logs of names or hashes, log information) reaches the backend as a context value of that kind with the same content and order, '
     'and every value the backend sends (logs of names, coloured logs, log information, Petri nets with arcs, tokens and markings, annotations of arcs, graphs, plain and labeled datasets) is read with exactly the sent content.',
     ['inputs'], 'every value of every kind that is exchanged',
     'no test touches the remote frontend',
     [G + 'context_values.py', G + 'data_models.py'], [{'name': 'conversion of context values', 'where': G + 'context_values.py'}],
     'property-based testing: messages serialised and parsed, compared with the generated values', 'exact; trusts the protobuf library')

prop('C26', 'Every part of a remote pipeline asks the backend for exactly what the user asked',
     'A remote pipeline is sent as its parts in their order, nested pipelines included; every part is sent under the name the backend knows, with every parameter under the key and with the type the backend reads and with the value the user gave (or the default). '
     'Parts that wait for values send an identifier of their own that does not change, are registered under it exactly once also when nested, and ask for the context keys they read. Anything that is not a part is refused.',
     ['inputs', 'configurations'], 'every pipeline of remote parts with any parameters, nested up to 3 levels',
     'no test touches the remote frontend, and the contract with the backend spans two languages',
     [G + 'grpc_pipelines.py', G + 'activities_parts.py', G + 'discovery_parts.py', G + 'filtering_parts.py', G + 'patterns_parts.py', G + 'util_parts.py',
      G + 'xes_parts.py', G + 'drawing_parts.py', G + 'mutation_parts.py', G + 'constants.py'],
     [{'name': 'to_grpc_part of all parts', 'where': G + 'activities_parts.py'}, {'name': 'Pipeline2.to_grpc_pipeline', 'where': G + 'grpc_pipelines.py'}],
     'property-based testing: generated pipelines against the contract table of the backend', 'the contract was taken from the Rust readers, which cannot be run offline')

prop('C27', 'A remote execution hands every result to the part that asked for it',
     'Executing a remote pipeline sends one request with the pipeline and exactly the given context, hands every result of the backend to the part whose identifier it bears, with its values, in the order of arrival and however deep the part is nested, prints log messages in between, '
     'ignores results of unknown parts and all that follows the final result, returns the final result, and releases the result at the backend exactly when the execution succeeded. The context of the caller stays as it was, so a pipeline can be executed again.',
     ['inputs', 'histories', 'schedules'], 'every pipeline with waiting parts, initial context and stream of answers, executed once or twice',
     'no test runs a remote pipeline; the order and addressing of answers form an unbounded space',
     [G + 'grpc_pipelines.py', G + 'util_parts.py', G + 'activities_parts.py'], [{'name': 'Pipeline2.execute', 'where': G + 'grpc_pipelines.py'}],
     'model-based testing against a scripted backend on the loopback interface', 'the backend is a stand-in for the Rust one')

prop('C28', 'Drawn Petri nets and graphs show exactly what was received',
     'A drawn Petri net has exactly one circle per place and one box per transition with its name, one arrow per arc in its direction with its annotation, and tokens and double circles on the places of the initial and final marking; a drawn graph has one node per node and one arrow per edge, labelled as given. '
     'Names are shown literally whatever they contain, and shown and exported drawings agree.',
     ['inputs', 'configurations'], 'every net, graph, annotation and drawing option',
     'nothing tests drawings',
     [L + 'discovery/petri_net.py', L + 'discovery/graph.py', G + 'discovery_parts.py'],
     [{'name': 'draw_petri_net / draw_graph', 'where': L + 'discovery/petri_net.py'}],
     'property-based testing: the description given to graphviz is parsed by graphviz and compared with the generated net',
     'trusts graphviz for the meaning of a description')

prop('C29', 'Discovered Petri nets are those of the chosen algorithm on the given log',
     'The discovery parts give pm4py exactly the given log (names, order, multiplicity of traces) and the chosen algorithm and parameters, and store its net and markings unchanged; nets of the inductive miner replay every trace of the log; '
     'the log itself stays as it was.',
     ['inputs', 'configurations'], 'every log, algorithm and threshold',
     'the tests discover from a few fixed logs and only look at whether it works',
     [L + 'pipelines/discovery/discovery_parts.py', L + 'log/functions.py'],
     [{'name': 'discovery parts', 'where': L + 'pipelines/discovery/discovery_parts.py'}],
     'property-based testing: differential against pm4py called directly, and replay', 'trusts pm4py for the algorithms')

prop('C23', 'Text reports name exactly what is in the context',
     'Saved and printed reports (names of events, activities by level, activities of instances, places of instances, information about a log before and after an operation, followers of events, numbers of activities and of underlying events, events outside of instances) '
     'list exactly the events, activities, instances and numbers of the context they are made from, each once and under the right heading, and leave log and activities as they were.',
     ['inputs', 'configurations'], 'every log, activities of several levels and disjoint instances',
     'no test looks at reports',
     [L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/patterns/util.py', L + 'analysis/event_log_info.py'],
     [{'name': 'Save..., Print... and Write... parts', 'where': L + 'pipelines/analysis/patterns/patterns_parts.py'}],
     'property-based testing: reports are parsed and compared with the generated context', 'exact')

prop('C24', 'Diagrams show every event and instance at its place in the color of its name',
     'Diagrams of a log draw one row per trace in order and, from left to right without gaps or overlaps, one rectangle per event, activity instance or pattern and per stretch outside of them, of the asked width and height. '
     'A name has one color, which stays the same in all diagrams of a context and differs from the colors of other names; what is not selected or not defined is black. Legends list exactly the names that are drawn with their colors, the axes end at the number of traces and the longest length, '
     'histograms show the size of every trace variant and the entropy of every event, the parts honour all their options, and saved diagrams hold nothing of earlier ones.',
     ['inputs', 'histories', 'configurations'], 'every non-empty log with activities, patterns and instances, and every sequence of diagrams with any options',
     'nothing tests diagrams',
     [L + 'analysis/event_log_analysis.py', L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/common.py',
      L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'util.py'],
     [{'name': 'diversity-like diagrams', 'where': L + 'analysis/event_log_analysis.py'}, {'name': 'activity and pattern diagrams', 'where': L + 'analysis/patterns/patterns_graphs.py'}],
     'property-based testing: the shapes on the figure that is shown or saved are compared with a layout model', 'trusts matplotlib for the rendering')

prop('C30', 'Coloured logs and clustered datasets of the backend are drawn as they are sent',
     'A coloured log that the backend sends is drawn on a figure or a canvas with one row per trace and one rectangle per coloured stretch, in order and without gaps, of its length and color, with its name and color in the legend, inside of the drawing area. '
     'A labeled dataset is drawn with one point per row, in the color and under the name of its label, centred and with the spread of its principal components for that method; nothing is drawn if visualisation is switched off.',
     ['inputs', 'configurations'], 'every coloured log and labeled dataset, every remote part and option',
     'nothing tests the remote frontend or its drawings',
     [G + 'drawing_parts.py', G + 'grpc_pipelines.py', G + 'activities_parts.py', L + 'analysis/event_log_analysis.py', L + 'analysis/event_log_analysis_canvas.py'],
     [{'name': 'draw_colors_event_log', 'where': L + 'analysis/event_log_analysis.py'}, {'name': 'canvas diagrams', 'where': L + 'analysis/event_log_analysis_canvas.py'}],
     'property-based testing: the shapes on the figure or recorded canvas are compared with a layout model', 'trusts matplotlib and ipycanvas for the rendering')


def main():
    SPECS.sort(key=lambda s: s['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for s in SPECS:
            assert len(s['title']) <= 80, (s['id'], len(s['title']))
            f.write(json.dumps({
                'id': s['id'], 'title': s['title'], 'statement': s['statement'],
                'quantifier': {'over': s['over'], 'text': s['text']}, 'why_tests_cant': s['why'],
                'anchors': {'files': s['files'], 'mechanism': s['mechanism']}}) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [{
            'property': s['id'], 'quick_cmd': f'bash check.sh {s["id"]}',
            'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {s["id"]}',
            'technique': s['technique'], 'level': 'exploration',
            'level_note': 'random exploration of generated inputs, no exhaustiveness; ' + s['note']} for s in SPECS],
        'not_applicable': [],
        'notes': 'No hooks in /repo. Checks import the Python sources from /repo/src directly (nothing to build) and write nothing there.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    design()


def design():
    """Fills the table of properties in DESIGN.md."""
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as f:
        text = f.read()
    head, rest = text.split('## Properties\n', 1)
    tail = rest[rest.index('\n## Defects'):].split('\n## Planted bugs')[0] + planted()
    rows = []
    for s in SPECS:
        ns = rule_of(s['id'])
        rows.append(f'### {s["id"]} {s["title"]}\n\n{s["statement"]}\n\n'
                    f'* Decided by: {s["technique"]}. {HOW[s["id"]]}\n* Generated: {ns.get("RULE", "")}.\n'
                    f'* Reach beyond the tests: {s["why"]}.\n* Bounds: {ns["CASES"]["quick"]} cases quick, {ns["CASES"]["thorough"]} thorough '
                    f'(or the time budget); {s["note"]}.\n'
                    + ''.join(f'* Assumes: {a}.\n' for a in ns.get('ASSUMPTIONS', [])))
    with open(path, 'w') as f:
        f.write(head + '## Properties\n\n' + '\n'.join(rows) + tail)


def planted():
    """Which checks catch which planted bugs, from the last run of tools/plant.py on each."""
    with open(os.path.join(HERE, 'tools', 'catches.json')) as f:
        catches = json.load(f)
    rows = ['\n## Planted bugs\n\n',
            'Each is kept in `seeded/<id>` (patch, demo, meta) after its tests passed and its demo failed; `tools/plant.py` ran the '
            'quick check of its property on it. Those missed at first led to the strengthenings described with the properties.\n\n']
    for s in SPECS:
        bugs = [(n, b) for n, b in sorted(catches.items()) if b['property'] == s['id'] and os.path.isdir(os.path.join(HERE, 'seeded', n))]
        if bugs:
            rows.append(f'* {s["id"]}: ' + '; '.join(
                f'`{n}` ({b["needs"]}){"" if b["caught"] else " NOT CAUGHT"}' for n, b in bugs) + '\n')
    return ''.join(rows)


def rule_of(pid):
    import ast
    with open(os.path.join(HERE, 'pbt', 'props', pid.lower() + '.py')) as f:
        tree = ast.parse(f.read())
    result = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'CASES', 'ASSUMPTIONS'):
            result[n.targets[0].id] = ast.literal_eval(n.value)
    return result


if __name__ == '__main__':
    main()
