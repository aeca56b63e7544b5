"""The properties, as data."""
G = 'src/python/ficus/grpc_pipelines/'
L = 'src/python/ficus/legacy/'
PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPERTIES.append({
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe or [], 'hook_needed': None},
        'level_note': note})


GRPC = [G + f for f in ('grpc_pipelines.py', 'activities_parts.py', 'discovery_parts.py', 'drawing_parts.py', 'patterns_parts.py',
                        'util_parts.py', 'xes_parts.py', 'filtering_parts.py', 'mutation_parts.py', 'context_values.py')]

prop('C01', 'Each result reaches the callback of its own part once, in order, unaltered',
     'While a remote pipeline executes, every result the backend streams for a part is handed to that very part (also when the part '
     'sits inside nested pipelines or the same part class is used several times) exactly once, in the order sent and with exactly '
     'the values sent. A message for a part that is not in the pipeline never reaches another part\'s callback, and log messages of '
     'the backend are shown in place between the results.',
     ['inputs', 'histories', 'fault_sequences'],
     'every composition of parts, every order, number and size of streamed messages, every point at which the stream breaks or a '
     'callback fails, and every earlier execution of the same pipeline',
     'The tests run fixed pipelines against a live backend (not available in the stable set) and look at nothing streamed; no test '
     'breaks the stream, repeats an execution or sends results in a different order.',
     GRPC, [('stream loop', G + 'grpc_pipelines.py Pipeline.execute'), ('part identity and callback routing', G +
            'grpc_pipelines.py append_parts_with_callbacks / PipelinePartWithCallback')],
     'Seeded search over compositions, message sequences and stream faults against a reference backend; the transport is a model of '
     'ordered gRPC streaming. Assumes the part results carry the identifiers of the request.', ['user callbacks', 'standard output'])

prop('C02', 'The outcome of an execution is reported truthfully whatever the stream does',
     'Executing a remote pipeline returns the backend\'s final result only when the backend really sent one, and otherwise the '
     'caller sees an error: a broken, refused, late, truncated or cancelled stream, a failing callback or a user interrupt never '
     'looks like success. A confirmed success or failure is reported as the one it is, with the identifier or message the backend gave.',
     ['fault_sequences', 'histories', 'schedules'],
     'every status code and every point of the stream at which the call fails, stalls or ends early, over repeated executions',
     'No test injects a transport failure; a real backend would have to be killed at each message boundary.',
     [G + 'grpc_pipelines.py', G + 'models/backend_service_pb2_grpc.py'],
     [('final result handling', G + 'grpc_pipelines.py Pipeline.execute')],
     'Seeded search over fault points; each execution judged against what the simulated backend knows it sent.',
     ['return value or exception of execute'])

prop('C03', 'Backend results are released once on success and the channel always closes',
     'After a successful execution the client asks the same backend exactly once to release the results of exactly that execution; '
     'after any other ending it releases nothing it was not given. However the execution ends - success, failure, stream fault, '
     'failing callback, user interrupt - its network channel is closed when the call returns.',
     ['fault_sequences', 'histories', 'schedules'],
     'every ending of every execution in every sequence of executions against any mix of backends',
     'Leaks only show in the backend\'s memory and in open sockets after many failed executions; no test looks there.',
     [G + 'grpc_pipelines.py'], [('release of results and channel life cycle', G + 'grpc_pipelines.py Pipeline.execute')],
     'Seeded search; conservation checked on the simulated backend\'s store and on the channel objects after every call.',
     ['release requests', 'channel close'])

prop('C04', 'The backend is asked exactly what the user composed, at the address given',
     'The request a remote pipeline produces holds the composed parts in order, each with its name and exactly the configuration '
     'given to it (nested pipelines and context values included), and is sent to the backend address the user gave or the default '
     'one. Building or executing a pipeline, failing or not, changes neither the user\'s context nor the pipeline: the next execution '
     'asks the same again.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every part class and parameter value, every nesting, every context value, and every sequence of successful and failed executions',
     'Existing tests cover a few parts with one parameter set and never compare the request with what was asked, nor execute twice.',
     GRPC + [G + 'constants.py'], [('request encoding', G + 'grpc_pipelines.py to_grpc_part, append_*_value'),
                                   ('address choice', G + 'grpc_pipelines.py Pipeline.execute')],
     'Independent encoder model of every part compared with the decoded request before, between and after faulty executions.',
     ['the request as received by the backend'])

prop('C05', 'Executions in several threads do not disturb each other',
     'Remote pipelines executed at the same time by several threads - the same pipeline object or different ones, the same backend or '
     'different ones - each send their own request to their own backend, hand every result to the right callback of the right '
     'execution, and report and release their own outcome exactly as if they had run alone.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every interleaving of the threads at source-line granularity and at network waits, with faults in any of them',
     'The tests are single-threaded.', [G + 'grpc_pipelines.py', G + 'context_values.py'],
     [('per-execution state', G + 'grpc_pipelines.py Pipeline.execute')],
     'Seeded preemptive schedules at line granularity; no real threads race.', ['callbacks, outcome, release per thread'])

prop('C06', 'Built-in parts render exactly the result that triggered them',
     'What a built-in remote part prints, draws, displays or saves shows exactly the content of the backend result that triggered it: '
     'every event, rectangle, node, edge, arc, weight, label and point, no more and no less, with the colours and names sent, under '
     'the options given to the part. It holds for every result in every order, whatever was rendered or failed before.',
     ['inputs', 'histories', 'fault_sequences'],
     'every result value the protocol allows (empty ones, odd characters, large numbers), every option, every history of renderings '
     'and rendering faults',
     'Tests only check that drawing does not raise for a few samples; pictures are never compared with the data.',
     [G + 'drawing_parts.py', G + 'discovery_parts.py', G + 'activities_parts.py', G + 'util_parts.py', L + 'analysis/event_log_analysis.py',
      L + 'analysis/event_log_analysis_canvas.py', L + 'discovery/graph.py', L + 'discovery/petri_net.py'],
     [('diagram drawing', L + 'analysis/event_log_analysis.py draw_colors_event_log'),
      ('canvas drawing', L + 'analysis/event_log_analysis_canvas.py'), ('graph drawing', L + 'discovery/graph.py draw_graph'),
      ('net drawing', L + 'discovery/petri_net.py draw_petri_net')],
     'Figures are read back from their artists, canvases from their calls, graphs from the DOT handed to a stub renderer; rasterisers '
     'are trusted.', ['figures, canvases, DOT sources, standard output'])

prop('C07', 'A log saved as XES and loaded again is the same log',
     'Saving an event log to XES and loading it gives back the same traces and events in the same order with the same attribute names, '
     'values and types, and the same log attributes, extensions, classifiers, properties and global defaults. It holds for any '
     'characters XML can hold, any path, any platform default encoding or line ending, any chunking of I/O, and when overwriting older files; XES '
     'written by other tools with the same content loads to the same log.',
     ['inputs', 'configurations', 'histories'],
     'every log content, every platform encoding and I/O granularity, every history of saves and overwrites',
     'Tests round-trip a few sample logs on one platform and compare hashes that ignore part of the data.',
     [L + 'log/functions.py', L + 'log/event_log.py', L + 'pipelines/serialization/pipeline_parts.py', L + 'pipelines/start/start_parts.py'],
     [('writer', L + 'log/functions.py save_event_log_to_xes'), ('reader', L + 'log/functions.py read_log_from_xes')],
     'Generated logs compared value by value (not with the package\'s own equality) under simulated platforms.', ['files, loaded logs'])

prop('C08', 'Storage faults during XES save or load are reported, never a wrong log',
     'When storage fails, fills up, tears a write, or the process is interrupted or dies while a log is saved or loaded, a save that '
     'returned normally has left the complete log on disk and a load that returned normally gives exactly the log some completed save '
     'wrote; everything else is an error the caller sees. A log that cannot be serialised leaves the previous file as it was, and '
     'after the fault the same operations work again.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every position and kind of storage fault, interrupt and crash in every history of saves and loads',
     'No test injects a storage fault.',
     [L + 'log/functions.py'], [('writer', L + 'log/functions.py save_event_log_to_xes'), ('reader', L + 'log/functions.py read_log_from_xes')],
     'Seeded fault plans at the raw-I/O layer under the real text layer; a crash keeps a prefix of the bytes written.', ['files'])

prop('C09', 'Exported graphs and Petri nets are complete and never mixed up',
     'Exporting a graph or Petri net to a file produces a picture of exactly that graph at exactly that path, or reports an error and '
     'leaves what was there before; displaying shows exactly the graph given. Renderer crashes, hangs, missing renderers, full disks '
     'and exports running at the same time in other threads neither mix pictures up nor leave temporary files behind.',
     ['fault_sequences', 'schedules', 'inputs', 'histories'],
     'every graph, path, renderer or storage fault and interleaving of concurrent exports',
     'Tests never render; a renderer fault between writing and moving the file needs injection.',
     [L + 'discovery/graph.py', L + 'discovery/petri_net.py'],
     [('export through a temporary file', L + 'discovery/graph.py draw_graph; ' + L + 'discovery/petri_net.py')],
     'The renderer is a DOT-parsing stub; graphviz driver, tempfile and shutil run for real on a faulty simulated disk.',
     ['exported files, temporary directory, displayed objects'])

prop('C10', 'Local pipelines run their parts in order, once each, and stop at a failure',
     'Running a local pipeline runs its parts one after another in the composed order, each exactly once on the result of the previous '
     'one; branches and copy-isolated, conditional, temporary-input and per-activity blocks run their inner parts on the input the '
     'block defines and hand on the result it defines. When a part fails or is interrupted no later part runs and the caller gets that '
     'very failure; edits between runs take effect exactly, and the same pipeline object runs again as if nothing had happened.',
     ['programs', 'fault_sequences', 'histories'],
     'every composition and nesting of parts and blocks, every failing position, every history of runs and edits',
     'Tests run straight-line pipelines without failures and never twice.',
     [L + 'pipelines/pipelines.py', L + 'pipelines/contexts/part_results.py', L + 'pipelines/analysis/high_level.py',
      L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/start/start_parts.py'],
     [('sequencing and blocks', L + 'pipelines/pipelines.py'), ('per-activity block', L + 'pipelines/analysis/high_level.py ExecuteWithEachActivityLog')],
     'Reference interpreter of the composition language; leaves are probes that fail on command.', ['what each part was given'])

prop('C11', 'Copies of logs and isolated pipeline branches are complete and independent',
     'A deep copy of an event log, trace or event and a conversion to or from pm4py objects holds every event with all its attributes in '
     'order (a deep copy also all trace and log data), and editing either side never shows on the other. Branches run with copied '
     'input (parallel branches, copy-isolated blocks) leave the caller\'s result - log, activities, instances, patterns - '
     'exactly as it was, see nothing of each other, and do so also when a branch fails or is interrupted at any point.',
     ['histories', 'programs', 'fault_sequences', 'inputs'],
     'every history of copies, conversions and edits, every composition of branches out of built-in parts, every failing or '
     'interrupted position inside a branch',
     'Tests copy one log and compare; none edits one side afterwards, nests branches, or fails inside one.',
     [L + 'log/event_log.py', L + 'log/pm4py_converters.py', L + 'pipelines/pipelines.py', L + 'pipelines/contexts/part_results.py',
      L + 'pipelines/contexts/accessors.py'],
     [('copies', L + 'log/event_log.py __copy__/__deepcopy__'), ('isolation', L + 'pipelines/pipelines.py CollectInputs/ExecuteWithCopy parts'),
      ('result contexts', L + 'pipelines/contexts/part_results.py')],
     'Reference heap for copies and edits; branches compared with the same branch run alone, with interrupts at seeded source lines and '
     'failing storage and renderers.', ['logs and pipeline results'])

prop('C12', 'Local pipelines run in several threads give what they give alone',
     'Local pipelines running at the same time in several threads - sharing a pipeline object, sharing a source log that no part '
     'edits, or sharing nothing - each produce exactly the result, printed text and files they produce when run alone, and '
     'activities discovered in one process never get the name of another activity.',
     ['schedules', 'programs', 'inputs'],
     'every interleaving of 2-3 threads at source-line granularity, for every composition of discovery, filtering, mutation, '
     'printing and saving parts',
     'The tests are single-threaded.',
     [L + 'pipelines/pipelines.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/patterns/event_log_patterns.py',
      L + 'analysis/patterns/patterns_models.py', L + 'util.py'],
     [('shared part objects', L + 'pipelines/pipelines.py'), ('activity names', L + 'analysis/patterns/patterns_models.py')],
     'Seeded preemptive schedules at line granularity inside the package; third-party code is atomic; pyplot drawing is left out.',
     ['pipeline results, printed text, files per thread'])

prop('C13', 'Local diagrams show every event and activity in place, in a colour of its own',
     'A diagram drawn from a local log or from discovered activities (full, short, placement, single activity, patterns) has one row '
     'per trace in order and, in it, every event or activity instance exactly at its position and length and nothing else; equal '
     'names have one colour within a diagram and different names never share one, undefined activities keep theirs, and the legend names what '
     'is drawn. It holds whatever the random colour source yields and whatever was drawn, failed or interrupted before; a diagram '
     'reported as saved is complete on disk.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every log and set of instances, every sequence of random numbers, every history of drawings with interrupts and storage faults',
     'Tests never look at a picture, and the colour collisions need a particular random sequence.',
     [L + 'analysis/event_log_analysis.py', L + 'analysis/event_log_analysis_canvas.py', L + 'analysis/common/common_models.py', L + 'util.py',
      L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/patterns/event_log_patterns.py'],
     [('diagram drawing', L + 'analysis/event_log_analysis.py'), ('colour choice', L + 'util.py random_unique_color_provider')],
     'Figures are read back from their artists under a random source that repeats itself; rasterisers are trusted.',
     ['figures, legends, saved files'])

prop('C14', 'Discovery, abstraction and filtering neither lose, invent nor reorder events',
     'Every pattern, activity and activity instance reported for a local log lies inside its trace, instances of a trace are in order '
     'and do not overlap, and each covers only events of its activity\'s classes. Repeats reported are exactly the maximal, super-maximal or '
     'near-super-maximal ones, activities hang below a smallest one that holds all their classes, and a trace is read from left to right into '
     'the instances its activities allow. A log built from activities holds every event exactly once '
     'in the original order, as itself or below an activity event, and unfolding it gives the original events; filters, removals '
     'and mutations remove or change exactly what they are documented to and nothing else. It holds '
     'whatever user functions failed, whichever earlier attempts the user stopped, and whichever names events have.',
     ['inputs', 'histories', 'fault_sequences', 'programs'],
     'every log, every chain of discovery, abstraction, filtering and mutation steps with every option, every failing call of a user '
     'function and every interrupted attempt before',
     'Tests compare a few hand-made logs with gold results; names whose hashes collide, chains of steps and failing user functions '
     'are not among them.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py', L + 'pipelines/analysis/patterns/patterns_parts.py',
      L + 'pipelines/analysis/high_level.py', L + 'filtering/event_log_filters.py', L + 'mutations/event_log_mutations.py',
      L + 'analysis/event_log_split.py', L + 'analysis/event_log_analysis_entropy.py'],
     [('instances', L + 'analysis/patterns/event_log_patterns.py extract_activities_from_log'),
      ('abstraction', L + 'analysis/patterns/event_log_patterns.py create_new_log_from_activities'),
      ('filters', L + 'filtering/event_log_filters.py'), ('mutations', L + 'mutations/event_log_mutations.py')],
     'Reference transformations and conservation checks per step; entropy formulas are not judged, and of tandem arrays later occurrences of '
     'a stretch seen before may be left out.',
     ['logs and discovered structures of the pipeline result'])

prop('C15', 'Analysing a log never changes it, however the analysis ends',
     'Whatever is discovered, drawn, printed, saved, filtered, abstracted or mined from a local log, the log it was made from - and every '
     'log derived earlier - keeps the very same traces, events, attributes and order. Only the parts that edit a log by contract '
     '(preprocessing, class extraction, life-cycle removal, artificial start and end events, naming events by activity) change it. '
     'It holds when a user function, the storage or the renderer fails and when the user stops the cell in the middle.',
     ['histories', 'programs', 'fault_sequences', 'inputs'],
     'every chain of parts, every failure and interrupt position',
     'Tests look at the result, not at the input afterwards, and never fail in the middle.',
     [L + 'pipelines/pipelines.py', L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py',
      L + 'analysis/patterns/event_log_patterns.py', L + 'filtering/event_log_filters.py', L + 'mutations/event_log_mutations.py',
      L + 'log/pm4py_converters.py', L + 'log/event_log.py', L + 'log/functions.py'],
     [('derived logs', L + 'analysis/patterns/event_log_patterns.py create_new_log_from_activities, create_logs_for_activities'),
      ('filters', L + 'filtering/event_log_filters.py')],
     'All logs of a history compared with their snapshots, values and object identities, after every step.', ['the logs'])

prop('C16', 'The same analysis of the same log gives the same result every time',
     'Running the same local pipeline on an equal log gives the same discovered activities, instances, logs, trees, graphs, nets, printed text '
     'and files: again in the same process, after other or interrupted uses of the same parts, whatever the random source, the clock and '
     'the unique-id source yield, and in another process with another string-hash seed. Only colours and the running numbers of '
     'activities may differ.',
     ['histories', 'configurations', 'programs', 'inputs'],
     'every chain of parts without drawing, every earlier use of the parts, every hash seed, random source and clock',
     'Tests run each analysis once in one process.',
     [L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/event_log_split.py', L + 'pipelines/pipelines.py',
      L + 'pipelines/analysis/high_level.py', L + 'util.py', L + 'analysis/event_log_info.py'],
     [('hashing and ordering', L + 'util.py; ' + L + 'analysis/patterns/util.py'), ('merged traces', L + 'analysis/event_log_split.py')],
     'Three executions of each generated history compared field by field, one of them in a helper process with another PYTHONHASHSEED.',
     ['pipeline results, printed text, files'])

prop('C17', 'Reports about a log and its activities are complete and true, or an error',
     'What local report parts print, save or plot - numbers of traces, events, event classes, activities and instances, followers with '
     'counts, underlying and unattached events, names and hashes, activity names by level, instance positions, trace histograms, '
     'information before and after an operation - equals what the log and the activities hold, everything once and nothing else. On '
     'any platform encoding or line ending a report that could not be written completely (full disk, broken pipe, failing user '
     'function, interrupt) is an error, and the next attempt gives the whole report.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every log and set of activities, every history of discoveries and reports, every storage, output and user fault before the judged attempt',
     'Tests never look at what reports print or save.',
     [L + 'pipelines/analysis/analysis_parts.py', L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/event_log_info.py',
      L + 'analysis/patterns/util.py', L + 'analysis/event_log_analysis.py'],
     [('report parts', L + 'pipelines/analysis/analysis_parts.py; ' + L + 'pipelines/analysis/patterns/patterns_parts.py'),
      ('log information', L + 'analysis/event_log_info.py create_log_information')],
     'Printed text, files and figures are read back and compared with a reference computed from the pipeline result.',
     ['standard output, text files, figures'])

prop('C18', 'Activity and event class graphs show exactly the hierarchy they are made of',
     'The event class tree of a log holds each event class once below the class its extractor gives. A graph drawn, saved, displayed '
     'or serialised from activities or a class tree has one node per shown name with that text as its label, whatever characters it '
     'holds, one edge from every child to its parent and no others, a root only when asked for, and the user\'s attributes; '
     'graphs by level go to a file each. A failing renderer, storage or user function is an error, and graphs shown at the same time '
     'by other threads do not mix.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'every hierarchy and naming, every option, every history of graphs with renderer, storage and user faults, every interleaving of two threads',
     'Tests compare serialised graphs of a few plain-named logs and never render.',
     [L + 'analysis/patterns/patterns_graphs.py', L + 'pipelines/analysis/patterns/patterns_graph_parts.py',
      L + 'pipelines/analysis/patterns/patterns_parts.py', L + 'analysis/patterns/event_log_patterns.py', L + 'analysis/patterns/util.py'],
     [('graph building', L + 'analysis/patterns/patterns_graphs.py build_graph'), ('class tree', L + 'analysis/patterns/event_log_patterns.py build_class_tree'),
      ('level graphs', L + 'pipelines/analysis/patterns/patterns_graph_parts.py')],
     'The DOT handed to a stub renderer is parsed and compared with the hierarchy; the real Graphviz is not run.',
     ['pictures, displayed images, serialised graphs'])

R = 'src/rust/ficus_backend/src/'
prop('C19', 'Backend executions of different clients do not see each other',
     'The backend keeps the context of every execution apart: a client gets and releases the values of its own execution only, whatever '
     'other clients run at the same time.',
     ['schedules', 'histories'], 'every interleaving of executions, reads and releases of any number of clients',
     'Tests run one client at a time.',
     [R + 'grpc/backend_service.rs', R + 'grpc/get_context_pipeline.rs'], [('context store', R + 'grpc/backend_service.rs')],
     'Not applicable here: the backend cannot be built offline.', ['gRPC answers'])

prop('C20', 'The generated protobuf models are in step with the .proto files',
     'The Python message and service modules describe the messages, field numbers and methods of protos/*.proto.',
     ['configurations'], 'every message, field and method of the protocol', 'Tests use the generated modules on both sides.',
     ['protos/backend_service.proto', 'protos/pipelines_and_context.proto', 'protos/pm_models.proto', 'protos/util.proto',
      G + 'models/backend_service_pb2.py'], [('generated models', G + 'models')],
     'Not applicable: a static relation between files.', ['descriptors'])

prop('C21', 'Entropies and mined models follow their published formulas',
     'Position, DFG and default entropies of a log and the models mined by pm4py are the values their definitions give.',
     ['inputs'], 'every event log', 'Tests compare a few values.',
     [L + 'analysis/event_log_analysis_entropy.py'], [('entropies', L + 'analysis/event_log_analysis_entropy.py')],
     'Not applicable: pure functions of one argument.', ['returned numbers and models'])

KNOWN = []
NA = {
    'C19': 'The Rust backend needs crates (tonic, prost, linfa, quick-xml and the external bxes path dependency) that are not in the '
           'offline cache, so it can neither be built nor simulated; a reference model stands for it in C01-C06.',
    'C20': 'A static relation between files: nothing in it depends on a schedule, time, I/O, faults or history.',
    'C21': 'Pure numeric functions of one argument with no schedule, time, I/O or history; their determinism and use by filters are '
           'covered by C14 and C16.',
}
NOTES = ('All checks are seeded deterministic simulations (see DESIGN.md). Replay: python3 check.py <id> --replay <file>.')
FIXED = {
    'keep the earlier export when storage fails while a graph is exported': ('C09', 'when temporary storage was another file system and the disk was full, an export left a truncated picture or destroyed the earlier one'),
    'report a stream that ends without a final result as an error': ('C02', 'a stream cut without an error status was returned as if it were the result'),
    'do not remove the backend address from the caller\'s context on execute': ('C04', 'the second execution with the same context went to the default backend'),
    'send max_array_length of DiscoverActivitiesUntilNoMore2 to the backend': ('C04', 'max_array_length was dropped from the request'),
    'make PrintEventlogInfoBeforeAfter produce a request and receive its callbacks': ('C04', 'the part could not be encoded and its inner callbacks never fired'),
    'export graphs through a private temporary directory, also to a bare file name': ('C09', 'concurrent exports shared temporary files, residue was left and bare file names failed'),
    'save traces diversity diagrams to a bare file name': ('C06', 'saving a diagram to a bare file name raised'),
    'show graph and petri net labels literally, whatever characters they hold': ('C09', 'labels with backslashes or angle brackets were rendered as something else'),
    'draw an empty log instead of failing on it': ('C06', 'drawing an empty log raised'),
    'write log properties to XES as typed key and value tags that can be read back': ('C07', 'log properties were not read back'),
    'read false boolean attributes of XES as false': ('C07', 'false booleans were loaded as true'),
    'save XES as UTF-8 whatever the locale, also to a bare file name': ('C07', 'non-UTF-8 locales wrote files that load differently or not at all; bare file names failed'),
    'keep the types of XES global defaults': ('C07', 'typed global defaults came back as strings'),
    'do not extend the activities list shared with copies of the pipeline input': ('C11', 'adjusting activities changed the list held by other copies of the input'),
    'give activities unique names also when they are discovered concurrently': ('C12', 'two activities discovered concurrently could get the same name'),
    'never give an event or activity the color of another one or of undefined activities': ('C13', 'two events could get the same colour, or the colour of undefined activities'),
    'stop filtering when no event is left to remove': ('C14', 'filters looped for ever or raised when nothing was left to remove'),
    'keep trace attributes and global values when copying logs and traces': ('C11', 'copies of logs and traces lost attributes'),
    'draw traces histograms on a figure of their own, also for a single log': ('C17', 'histograms were drawn into whatever figure was current, or failed'),
    'do not let string hash randomisation order class trees and printed events': ('C16', 'the order of class trees and printed events changed from process to process'),
    'draw activity and class graphs by quoted ids, so that names with colons keep their edges': ('C18', 'edges of activities or classes with a colon in their name went to other nodes'),
    'keep separators of merged traces apart from all event classes': ('C16', 'discovery from a merged trace depended on random separators, which a class extractor could take for an event class'),
    'draw activities of different names in different colors': ('C13', 'two activities of one set of classes but of different names (given by a name creator) were drawn in one colour'),
    'show names and titles in diagrams literally, also with leading underscores and dollar signs': ('C13', 'names with a leading underscore were missing in legends, and names or titles with two dollar signs were shown as formulas or made the drawing fail'),
    'list undefined activities in the legend also when they only end a trace': ('C13', 'the legend lacked undefined activities that only end a trace'),
    'do not take different event classes and sequences for one because of colliding hashes': ('C14', 'different event classes with one polynomial hash (aa and Bb) were taken for one'),
    'narrow activities in discovery from repeats and tandem arrays only when asked to': ('C14', 'the parts that discover from repeats or tandem arrays narrowed activities whatever should_narrow_activity said'),
    'show the children of every node in graphs, also of nodes that share their name': ('C18', 'children of a node whose name was already drawn were left out of activity and class graphs'),
    'save names of the children of every activity, also of activities that share their name': ('C17', 'names of activities below a second activity with the same name were not saved'),
    'display activity and class graphs without sharing a file in the working directory': ('C18', 'graphs displayed at the same time went through one file and showed each other'),
    'keep spaces in the keys of XES classifiers': ('C07', 'a classifier key with a space came back as two keys, a classifier without keys with an empty one'),
    'load dates whose time zone offset has seconds': ('C07', 'a log with such a date was saved without an error and could not be loaded'),
    'refuse to save characters that XML can not hold': ('C08', 'saving such a log succeeded or destroyed the old file, and the file could not be loaded'),
    'save timestamps that are of a derived type, as the ones of pm4py logs': ('C07', 'timestamps of logs converted from pm4py were silently left out of the file'),
    'draw equal patterns in one color whatever else their events hold': ('C13', 'equal patterns got different colours'),
}
