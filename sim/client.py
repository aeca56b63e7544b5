"""Workloads for the gRPC client: pipelines as JSON, built through the package's public classes, and an
independent model of the request each pipeline must become on the wire."""
import copy
import importlib
import struct

from .core import HarnessError, Violation, derive, Rng
from .net import pb

REQ = object()   # the argument has no default

# ---- enums: python enum -> (module, wire type name, members) -------------------------------------
ENUMS = {
    'PatternsDiscoveryStrategy': ('grpc_pipelines.data_models', 'PatternsDiscoveryStrategy',
                                  ['FromAllTraces', 'FromSingleMergedTrace']),
    'PatternsKind': ('grpc_pipelines.data_models', 'PatternsKindDto',
                     ['PrimitiveTandemArrays', 'MaximalTandemArrays', 'MaximalRepeats', 'SuperMaximalRepeats',
                      'NearSuperMaximalRepeats']),
    'NarrowActivityKind': ('grpc_pipelines.data_models', 'ActivityNarrowingKind',
                           ['DontNarrow', 'StayTheSame', 'NarrowUp', 'NarrowDown']),
    'ActivityFilterKind': ('grpc_pipelines.data_models', 'ActivityInTraceFilterKind', ['NoFilter', 'DefaultFilter']),
    'ActivitiesLogsSource': ('grpc_pipelines.data_models', 'ActivitiesLogsSourceDto', ['Log', 'TracesActivities']),
    'ActivitiesRepresentationSource': ('grpc_pipelines.data_models', 'ActivityRepresentationSource',
                                       ['EventClasses', 'SubTraces', 'SubTracesUnderlyingEvents']),
    'Distance': ('grpc_pipelines.data_models', 'FicusDistance', ['Cosine', 'L1', 'L2', 'Levenshtein']),
    'TracesRepresentationSource': ('grpc_pipelines.data_models', 'TracesRepresentationSource',
                                   ['Events', 'UnderlyingEvents', 'DeepestUnderlyingEvents']),
    'UndefinedActivityHandlingStrategy': ('legacy.analysis.patterns.patterns_models',
                                          'UndefActivityHandlingStrategyDto',
                                          ['DontInsert', 'InsertAsSingleEvent', 'InsertAllEvents']),
    'AdjustingMode': ('legacy.pipelines.analysis.patterns.models', 'AdjustingMode',
                      ['FromUnattachedSubTraces', 'FromAllLog']),
}

_narrow = ('narrow_activities', 'NarrowActivityKind', 'narrow_activities', 'NarrowDown')
_filter = ('activity_filter_kind', 'ActivityFilterKind', 'activity_in_trace_filter_kind', 'DefaultFilter')
_level0 = ('activity_level', 'U', 'activity_level', 0)
_regex_cls = ('class_extractor', 'S?', 'event_class_regex', None)
_strat_req = ('strategy', 'PatternsDiscoveryStrategy', 'patterns_discovery_strategy', REQ)
_strat = ('strategy', 'PatternsDiscoveryStrategy', 'patterns_discovery_strategy', 'FromAllTraces')
_arr_req = ('max_array_length', 'U', 'tandem_array_length', REQ)
_arr = ('max_array_length', 'U', 'tandem_array_length', 20)
_adj = ('adjusting_mode', 'AdjustingMode', 'adjusting_mode', 'FromAllLog')
_kind_req = ('patterns_kind', 'PatternsKind', 'patterns_kind', REQ)
_min_act = ('min_events_in_activity_count', 'U', 'min_activity_length', 0)
_min_un = ('min_events_in_unattached_subtrace_count', 'U', 'events_count', 0)
_tol = ('tolerance', 'F', 'tolerance', 1e-5)
_src = ('activities_repr_source', 'ActivitiesRepresentationSource', 'activities_repr_source', 'EventClasses')
_dist = ('distance', 'Distance', 'distance', 'Cosine')
_term = ('terminate_on_unreplayable_trace', 'B', 'terminate_on_unreplayable_traces', False)

# class -> (module, shape, backend part name, keys, parameters)
#   shape: D default part, C complex context request, S simple context request, N frontend pipeline
PARTS = {
    # xes / bxes
    'ReadLogFromXes2': ('xes_parts', 'D', 'ReadLogFromXes', (), ()),
    'WriteLogToXes2': ('xes_parts', 'D', 'WriteLogToXes', (), (('save_path', 'S', 'path', REQ),)),
    'ReadLogFromBxes2': ('xes_parts', 'D', 'ReadLogFromBxes', (), ()),
    'WriteLogToBxes2': ('xes_parts', 'D', 'WriteLogToBxes', (), (('save_path', 'S', 'path', REQ),)),
    # util
    'UseNamesEventLog2': ('util_parts', 'D', 'UseNamesEventLog', (), ()),
    'PrintEventLog2': ('util_parts', 'C', 'GetNamesEventLog', ('names_event_log',), ()),
    'PrintEventLogInfo2': ('grpc_pipelines', 'C', 'GetEventLogInfo', ('event_log_info',), ()),
    'PrintEventlogInfoBeforeAfter': ('util_parts', 'N', 'ExecuteFrontendPipeline', (),
                                     (('inner_pipeline', 'PBA', 'pipeline', REQ),)),
    # filtering / mutation
    'FilterTracesByEventsCount2': ('filtering_parts', 'D', 'FilterTracesByEventsCount', (),
                                   (('min_events_in_trace', 'U', 'events_count', REQ),)),
    'FilterEventsByName2': ('filtering_parts', 'D', 'FilterEventsByName', (), (('event_name', 'S', 'event_name', REQ),)),
    'FilterEventsByRegex2': ('filtering_parts', 'D', 'FilterEventsByRegex', (), (('regex', 'S', 'regex', REQ),)),
    'FilterLogByVariants2': ('filtering_parts', 'D', 'FilterLogByVariants', (), ()),
    'AddStartEndArtificialEvents2': ('mutation_parts', 'D', 'AddArtificialStartEndEvents', (), ()),
    'AddStartArtificialEvents2': ('mutation_parts', 'D', 'AddArtificialStartEvents', (), ()),
    'AddEndArtificialEvents2': ('mutation_parts', 'D', 'AddArtificialEndEvents', (), ()),
    # patterns
    'FindPrimitiveTandemArrays2': ('patterns_parts', 'D', 'FindPrimitiveTandemArrays', (), (_arr_req, _regex_cls)),
    'FindMaximalTandemArrays2': ('patterns_parts', 'D', 'FindMaximalTandemArrays', (), (_arr_req, _regex_cls)),
    'FindMaximalRepeats2': ('patterns_parts', 'D', 'FindMaximalRepeats', (), (_strat_req, _regex_cls)),
    'FindSuperMaximalRepeats2': ('patterns_parts', 'D', 'FindSuperMaximalRepeats', (), (_strat_req, _regex_cls)),
    'FindNearSuperMaximalRepeats2': ('patterns_parts', 'D', 'FindNearSuperMaximalRepeats', (),
                                     (_strat_req, _regex_cls)),
    # activities
    'DiscoverActivities2': ('activities_parts', 'D', 'DiscoverActivities', (),
                            (('activity_level', 'U', 'activity_level', REQ),)),
    'DiscoverActivitiesInstances2': ('activities_parts', 'D', 'DiscoverActivitiesInstances', (),
                                     (_narrow, ('min_events_in_activity', 'U', 'min_activity_length', 0), _filter)),
    'CreateLogFromActivitiesInstances2': ('activities_parts', 'D', 'CreateLogFromActivities', (),
                                          (('strategy', 'UndefinedActivityHandlingStrategy',
                                            'undef_activity_handling_strategy', 'DontInsert'),)),
    'DiscoverActivitiesForSeveralLevels2': ('activities_parts', 'D', 'DiscoverActivitiesForSeveralLevels', (),
                                            (('event_classes', 'SL', 'event_classes_regexes', REQ), _kind_req, _narrow,
                                             _level0, _strat, _arr, _adj, _min_un, _min_act, _filter)),
    'DiscoverActivitiesFromPatterns2': ('activities_parts', 'N', 'ExecuteFrontendPipeline', (),
                                        (('patterns_kind', 'PFP', 'pipeline', REQ),
                                         ('strategy', 'PatternsDiscoveryStrategy', None, 'FromAllTraces'),
                                         ('max_array_length', 'U', None, 20), ('activity_level', 'U', None, 0))),
    'DiscoverActivitiesUntilNoMore2': ('activities_parts', 'D', 'DiscoverActivitiesUntilNoMore', (),
                                       (('event_class', 'S?', 'event_class_regex', None),
                                        ('patterns_kind', 'PatternsKind', 'patterns_kind', 'MaximalRepeats'),
                                        _narrow, _level0, _strat,
                                        ('undef_strategy', 'UndefinedActivityHandlingStrategy',
                                         'undef_activity_handling_strategy', 'DontInsert'), _arr, _adj, _min_un,
                                        _min_act, _filter,
                                        ('after_activities_extraction_pipeline', 'P?', 'pipeline', None),
                                        ('execute_only_on_last_extraction', 'B', 'execute_only_on_last_extraction',
                                         False))),
    'ExecuteWithEachActivityLog2': ('activities_parts', 'D', 'ExecuteWithEachActivityLog', (),
                                    (('activities_logs_source', 'ActivitiesLogsSource', 'activities_logs_source', REQ),
                                     ('activity_level', 'U', 'activity_level', REQ),
                                     ('activity_log_pipeline', 'P', 'pipeline', REQ))),
    'SubstituteUnderlyingEvents2': ('activities_parts', 'D', 'SubstituteUnderlyingEvents', (), ()),
    'ClearActivitiesRelatedStuff2': ('activities_parts', 'D', 'ClearActivities', (), ()),
    'PrintNumberOfUnderlyingEvents2': ('activities_parts', 'C', 'GetUnderlyingEventsCount',
                                       ('underlying_events_count',), ()),
    'ApplyClassExtractor2': ('activities_parts', 'D', 'ApplyClassExtractor', (),
                             (('class_extractor_regex', 'S', 'event_class_regex', REQ),
                              ('filter_regex', 'S', 'regex', '.*'))),
    'ClusterizeActivitiesFromTracesKMeans': (
        'activities_parts', 'C', 'ClusterizeActivitiesFromTracesKMeans', ('labeled_traces_activities_dataset',),
        (_level0, ('clusters_count', 'U', 'clusters_count', 10),
         ('learning_iterations_count', 'U', 'learning_iterations_count', 200), _tol, _regex_cls, _src, _dist)),
    'ClusterizeActivitiesFromTracesKMeansGridSearch': (
        'activities_parts', 'C', 'ClusterizeActivitiesFromTracesKMeansGridSearch',
        ('labeled_traces_activities_dataset',),
        (_level0, ('learning_iterations_count', 'U', 'learning_iterations_count', 200), _tol, _regex_cls, _src, _dist)),
    'ClusterizeActivitiesFromTracesDbscan': (
        'activities_parts', 'C', 'ClusterizeActivitiesFromTracesDbscan', ('labeled_traces_activities_dataset',),
        (_level0, ('min_events_count_in_cluster', 'U', 'min_events_in_cluster_count', 1), _tol, _regex_cls, _src,
         _dist)),
    'VisualizeTracesActivities2': ('activities_parts', 'C', 'CreateTracesActivitiesDataset',
                                   ('traces_activities_dataset',), (_level0, _regex_cls, _src)),
    'ClusterizeLogTracesDbscan': (
        'activities_parts', 'C', 'ClusterizeLogTraces', ('labeled_log_traces_dataset',),
        (('after_clusterization_pipeline', 'P', 'pipeline', REQ),
         ('min_events_count_in_cluster', 'U', 'min_events_in_cluster_count', 1), _tol, _dist,
         ('traces_repr_source', 'TracesRepresentationSource', 'traces_repr_source', 'Events'), _regex_cls)),
    # drawing
    'TracesDiversityDiagram2': ('drawing_parts', 'C', 'TracesDiversityDiagram', ('colors_event_log',), ()),
    'TracesDiversityDiagram2Canvas': ('drawing_parts', 'C', 'TracesDiversityDiagram', ('colors_event_log',), ()),
    'DrawPlacementsOfEventByName2': ('drawing_parts', 'C', 'DrawPlacementOfEventByName', ('colors_event_log',),
                                     (('event_name', 'S', 'event_name', REQ),)),
    'DrawPlacementsOfEventByName2Canvas': ('drawing_parts', 'C', 'DrawPlacementOfEventByName', ('colors_event_log',),
                                           (('event_name', 'S', 'event_name', REQ),)),
    'DrawPlacementOfEventsByRegex2': ('drawing_parts', 'C', 'DrawPlacementOfEventsByRegex', ('colors_event_log',),
                                      (('regex', 'S', 'regex', REQ),)),
    'DrawPlacementOfEventsByRegex2Canvas': ('drawing_parts', 'C', 'DrawPlacementOfEventsByRegex',
                                            ('colors_event_log',), (('regex', 'S', 'regex', REQ),)),
    'DrawFullActivitiesDiagram2': ('drawing_parts', 'C', 'DrawFullActivitiesDiagram', ('colors_event_log',), ()),
    'DrawFullActivitiesDiagram2Canvas': ('drawing_parts', 'C', 'DrawFullActivitiesDiagram', ('colors_event_log',), ()),
    'DrawShortActivitiesDiagram2': ('drawing_parts', 'C', 'DrawShortActivitiesDiagram', ('colors_event_log',), ()),
    'DrawShortActivitiesDiagram2Canvas': ('drawing_parts', 'C', 'DrawShortActivitiesDiagram', ('colors_event_log',),
                                          ()),
    # discovery
    'DiscoverPetriNetAlpha2': ('discovery_parts', 'D', 'DiscoverPetriNetAlpha', (), ()),
    'DiscoverPetriNetAlphaPlus2': ('discovery_parts', 'D', 'DiscoverPetriNetAlphaPlus', (), ()),
    'DiscoverPetriNetAlphaPlusPlus2': ('discovery_parts', 'D', 'DiscoverPetriNetAlphaPlusPlus', (), ()),
    'DiscoverPetriNetAlphaPlusPlusNfc2': ('discovery_parts', 'D', 'DiscoverPetriNetAlphaPlusPlusNfc', (), ()),
    'DiscoverPetriNetHeuristic2': ('discovery_parts', 'D', 'DiscoverPetriNetHeuristic', (),
                                   (('dependency_threshold', 'F', 'dependency_threshold', 0.5),
                                    ('positive_observations_threshold', 'U', 'positive_observations_threshold', 1),
                                    ('relative_to_best_threshold', 'F', 'relative_to_best_threshold', 1.0),
                                    ('and_threshold', 'F', 'and_threshold', 0.1),
                                    ('loop_length_two_threshold', 'F', 'loop_length_two_threshold', 0.5))),
    'DiscoverFuzzyGraph': ('discovery_parts', 'D', 'DiscoverFuzzyGraph', (),
                           (('unary_frequency_threshold', 'F', 'unary_frequency_threshold', 0.0),
                            ('binary_significance_threshold', 'F', 'binary_frequency_significance_threshold', 0.0),
                            ('preserve_threshold', 'F', 'preserve_threshold', 0.0),
                            ('ratio_threshold', 'F', 'ratio_threshold', 0.0),
                            ('utility_rate', 'F', 'utility_rate', 0.0),
                            ('edge_cutoff_threshold', 'F', 'edge_cutoff_threshold', 0.0),
                            ('node_cutoff_threshold', 'F', 'node_cutoff_threshold', 0.0))),
    'SerializePetriNetToPNML2': ('discovery_parts', 'D', 'SerializePetriNet', (),
                                 (('save_path', 'S', 'path', REQ),
                                  ('use_names_as_ids', 'B', 'pnml_use_names_as_ids', False))),
    'ViewPetriNet2': ('discovery_parts', 'S', None, ('petri_net',), ()),
    'ViewGraph2': ('discovery_parts', 'S', None, ('graph',), ()),
    'ViewDirectlyFollowsGraph2': ('discovery_parts', 'C', 'DiscoverDirectlyFollowsGraph', ('graph',), ()),
    'AnnotatePetriNetWithCount2': ('discovery_parts', 'C', 'AnnotatePetriNetWithCount',
                                   ('petri_net', 'petri_net_count_annotation'), (_term,)),
    'AnnotatePetriNetWithFrequency2': ('discovery_parts', 'C', 'AnnotatePetriNetWithFrequency',
                                       ('petri_net', 'petri_net_frequency_annotation'), (_term,)),
    'AnnotatePetriNetWithTraceFrequency2': ('discovery_parts', 'C', 'AnnotatePetriNetWithTraceFrequency',
                                            ('petri_net', 'petri_net_trace_frequency_annotation'), (_term,)),
    'EnsureInitialMarking': ('discovery_parts', 'D', 'EnsureInitialMarking', (), ()),
}

CALLBACK = [n for n, p in PARTS.items() if p[1] in ('C', 'S')]
PLAIN = [n for n, p in PARTS.items() if p[1] == 'D' and not any(a[1] in ('P', 'P?') for a in p[4])]
NESTING = ['PrintEventlogInfoBeforeAfter', 'DiscoverActivitiesUntilNoMore2', 'ExecuteWithEachActivityLog2',
           'ClusterizeLogTracesDbscan']

STRINGS = ['a', 'A', 'start', 'x y', '', 'événement', '日本', '😀', '<b>&"', 'a\nb', '0', 'None', '.*', r'\d+|[a-z]',
           'name;v', 'q' * 70, "it's", '\\', '/data/log.xes', '{}', '%s', '_a', '$a$', r'b $\q$']


def cls_of(name):
    m = importlib.import_module('ficus.grpc_pipelines.' + PARTS[name][0])
    return getattr(m, name)


def enum_of(name, member):
    m = importlib.import_module('ficus.' + ENUMS[name][0])
    return getattr(m, name)[member]


# ---- generation -----------------------------------------------------------------------------------
def gen_arg(rng, typ):
    if typ in ENUMS:
        return rng.pick(ENUMS[typ][2])
    if typ == 'PFP':
        return rng.pick(ENUMS['PatternsKind'][2])
    if typ == 'U':
        return rng.weighted([(rng.int(0, 9), 5), (0, 2), (rng.int(10, 5000), 3), (2 ** 32 - 1, 1), (2 ** 31, 1)])
    if typ == 'F':
        return rng.pick([0.0, 1.0, 0.5, 0.1, 1e-5, 0.333, 12.75, 1e10, rng.int(1, 999) / 1000])
    if typ == 'B':
        return rng.chance(0.5)
    if typ in ('S', 'S?'):
        return rng.pick(STRINGS)
    if typ == 'SL':
        return [rng.pick(STRINGS) for _ in range(rng.int(0, 4) if rng.chance(0.95) else rng.int(8, 40))]
    raise KeyError(typ)


def gen_part(rng, depth=0, only=None, probe_p=0.35, nest_p=0.2, cosmetics=None):
    if only is None:
        if rng.chance(probe_p):
            return gen_probe(rng)
        if depth < 3 and rng.chance(nest_p):
            name = rng.pick(NESTING)
        else:
            name = rng.pick(CALLBACK if rng.chance(0.4) else list(PARTS))
    else:
        name = only
    spec = {'t': name, 'a': {}}
    for arg, typ, _, default in PARTS[name][4]:
        if typ in ('P', 'P?', 'PBA'):
            if typ == 'P?' and rng.chance(0.3):
                continue
            n = rng.weighted([(0, 1), (1, 4), (2, 3), (3, 1)])
            inner = [gen_part(rng, depth + 1, probe_p=max(probe_p, 0.5), nest_p=nest_p, cosmetics=cosmetics)
                     for _ in range(n)] if depth < 3 else [gen_probe(rng)]
            spec['a'][arg] = inner
        elif default is REQ or rng.chance(0.5):
            spec['a'][arg] = gen_arg(rng, typ)
    if cosmetics is not None:
        cosmetics(rng, name, spec)
    elif name in ('VisualizeTracesActivities2',) or name.startswith('Clusterize'):
        spec['quiet'] = True
    return spec


def gen_parts(rng, n, share=0.12, **k):
    """Top-level list; a part object may stand at two places."""
    out = []
    for i in range(n):
        if i and rng.chance(share):
            out.append({'t': 'Ref', 'of': rng.int(0, i - 1)})
        else:
            out.append(gen_part(rng, **k))
    return out


def target(specs, i):
    """Index of the part a reference stands for (itself when it cannot be resolved)."""
    s = specs[i]
    if s['t'] != 'Ref':
        return i
    of = s['of']
    if 0 <= of < i and specs[of]['t'] != 'Ref' and specs[of]['t'] not in NESTING:
        return of
    return None


NEUTRAL = {'t': 'UseNamesEventLog2', 'a': {}}


def gen_probe(rng):
    keys = [f'k{rng.int(0, 30)}' for _ in range(rng.weighted([(1, 40), (2, 20), (3, 10), (0, 3), (12, 1)]))]
    keys = list(dict.fromkeys(keys))
    return {'t': 'Probe', 'keys': keys, 'simple': len(keys) == 1 and rng.chance(0.5)}


# ---- building -------------------------------------------------------------------------------------
class Recorder:
    """Merged history of callbacks (and, through the world, of printed text)."""

    def __init__(self, world):
        self.world = world
        self.fail_at = None
        self.n = 0
        self.parts = []
        self.made = {}           # id of a labelled spec -> the part built from it
        self.lists = {}          # id of a list of labelled specs -> the pipeline built from it
        self.fail_exc = None

    def callback(self, label, values):
        self.n += 1
        got = {k: v.SerializeToString(deterministic=True) for k, v in values.items()}
        self.world.hist.append(('cb', self.world.tid(), label, got))
        self.world.ctx.ev('callback', label, len(got))
        if self.fail_at is not None and self.n == self.fail_at:
            self.world.ctx.fault('callback_raises')
            self.fail_exc = CallbackError(f'callback {self.n}')
            raise self.fail_exc


class CallbackError(Exception):
    pass


def probe_class():
    from ficus.grpc_pipelines.grpc_pipelines import PipelinePart2WithCallback
    bs, pc, pm, ut = pb()

    class Probe(PipelinePart2WithCallback):
        """A user-defined part that asks for context values."""

        def __init__(self, rec, label, keys, simple):
            super().__init__()
            self.rec = rec
            self.label = label
            self.keys = keys
            self.simple = simple

        def to_grpc_part(self):
            u = ut.GrpcUuid(uuid=str(self.uuid))
            if self.simple:
                return pc.GrpcPipelinePartBase(simpleContextRequestPart=pc.GrpcSimpleContextRequestPipelinePart(
                    key=pc.GrpcContextKey(name=self.keys[0]), frontendPartUuid=u))
            return pc.GrpcPipelinePartBase(complexContextRequestPart=pc.GrpcComplexContextRequestPipelinePart(
                keys=[pc.GrpcContextKey(name=k) for k in self.keys], frontendPartUuid=u,
                beforePipelinePart=pc.GrpcPipelinePart(name='GetEventLogInfo')))

        def execute_callback(self, values):
            self.rec.callback(self.label, values)
    return Probe


def observed(cls, rec, label):
    """The built-in part with its callback observed (the ordinary way: by overriding it)."""

    def execute_callback(self, values):
        rec.callback(label, values)
        return cls.execute_callback(self, values)
    return type(cls.__name__, (cls,), {'execute_callback': execute_callback, '__module__': cls.__module__})


def live(specs, prefix=''):
    """A copy of the specs in which every part carries its label and a reference is the very part it stands for,
    so that it can be edited together with the pipeline built from it."""
    out = []
    for i, s in enumerate(specs):
        t = target(specs, i)
        if t is not None and t != i:
            out.append(out[t])
            continue
        s = copy.deepcopy(NEUTRAL if t is None else s)
        s['l'] = f'{prefix}{i}'
        if s['t'] != 'Probe':
            for arg, typ, _, _ in PARTS[s['t']][4]:
                if typ in ('P', 'P?', 'PBA') and arg in s['a']:
                    s['a'][arg] = live(s['a'][arg], s['l'] + '.')
        out.append(s)
    return out


def lists_of(specs):
    """the list and all lists nested in it, in a fixed order"""
    out = [specs]
    seen = []
    for s in specs:
        if s['t'] != 'Probe' and not any(s is x for x in seen):
            seen.append(s)
            for arg, typ, _, _ in PARTS[s['t']][4]:
                if typ in ('P', 'P?', 'PBA') and arg in s['a']:
                    out += lists_of(s['a'][arg])
    return out


def build(specs, rec, prefix='', mute=False):
    """-> Pipeline2.  Every part of the spec gets a label: its path."""
    from ficus.grpc_pipelines.grpc_pipelines import Pipeline2
    parts = []
    if specs and 'l' in specs[0] or rec.lists.get(id(specs)) == 'labelled':
        p = Pipeline2(*[build_part(s, rec, s['l'], mute) for s in specs])
        rec.lists[id(specs)] = p
        return p
    for i, s in enumerate(specs):
        t = target(specs, i)
        if t is None:
            parts.append(build_part(NEUTRAL, rec, f'{prefix}{i}', mute))
        else:
            parts.append(parts[t] if t != i else build_part(s, rec, f'{prefix}{i}', mute))
    return Pipeline2(*parts)


def build_part(spec, rec, label, mute):
    if 'l' in spec:
        if id(spec) not in rec.made:
            for arg, typ, _, _ in () if spec['t'] == 'Probe' else PARTS[spec['t']][4]:
                if typ in ('P', 'P?', 'PBA') and arg in spec['a']:
                    rec.lists[id(spec['a'][arg])] = 'labelled'
            rec.made[id(spec)] = make_part(spec, rec, label, mute)
        return rec.made[id(spec)]
    return make_part(spec, rec, label, mute)


def make_part(spec, rec, label, mute):
    if spec['t'] == 'Probe':
        part = probe_class()(rec, label, list(spec['keys']), spec['simple'])
        rec.parts.append((label, part))
        return part
    name = spec['t']
    cls = cls_of(name)
    kwargs = {}
    for arg, typ, _, default in PARTS[name][4]:
        if arg not in spec['a']:
            continue
        v = spec['a'][arg]
        if typ in ENUMS:
            v = enum_of(typ, v)
        elif typ == 'PFP':
            v = enum_of('PatternsKind', v)
        elif typ in ('P', 'P?', 'PBA'):
            v = build(v, rec, f'{label}.', mute)
        kwargs[arg] = v
    for k, v in (spec.get('c') or {}).items():
        kwargs[k] = cosmetic_value(k, v)
    if spec.get('quiet') and name.startswith('Clusterize'):
        kwargs['show_visualization'] = False
    if PARTS[name][1] in ('C', 'S'):
        if mute:
            # the part's own rendering is not under test here: only the hand-over is
            def execute_callback(self, values, _l=label):
                rec.callback(_l, values)
            cls = type(cls.__name__, (cls,), {'execute_callback': execute_callback, '__module__': cls.__module__})
        else:
            cls = observed(cls, rec, label)
    part = cls(**kwargs)
    rec.parts.append((label, part))
    return part


def cosmetic_value(k, v):
    if k in ('fig_size', 'view_params'):
        return tuple(v)
    if k == 'n_components':
        from ficus.legacy.analysis.event_log_analysis import NComponents
        return NComponents[v]
    if k == 'visualization_method':
        from ficus.legacy.analysis.event_log_analysis import DatasetVisualizationMethod
        return DatasetVisualizationMethod[v]
    if k == 'annotation':
        return {int(a): b for a, b in v} if v is not None else None
    return v


# ---- model of the request ---------------------------------------------------------------------------
def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def expect_part(spec):
    if spec['t'] == 'Probe':
        if spec['simple']:
            return ['simple', spec['keys'][0]]
        return ['complex', list(spec['keys']), 'GetEventLogInfo', {}]
    name = spec['t']
    _, shape, backend, keys, params = PARTS[name]
    cfg = {}
    a = {arg: spec['a'].get(arg, None if d is REQ else d) for arg, _, _, d in params}
    for arg, typ, wire, default in params:
        if wire is None:
            continue
        v = a[arg]
        if typ in ENUMS:
            cfg[wire] = ['enum', ENUMS[typ][1], v]
        elif typ == 'U':
            cfg[wire] = ['uint32', v]
        elif typ == 'F':
            cfg[wire] = ['float', f32(v)]
        elif typ == 'B':
            cfg[wire] = ['bool', v]
        elif typ == 'S':
            cfg[wire] = ['string', v]
        elif typ == 'S?':
            if v is not None:
                cfg[wire] = ['string', v]
        elif typ == 'SL':
            cfg[wire] = ['strings', list(v)]
        elif typ in ('P', 'P?'):
            if v is not None:
                cfg[wire] = ['pipeline', expect(v)]
        elif typ == 'PBA':
            info = {'t': 'PrintEventLogInfo2', 'a': {}}
            cfg[wire] = ['pipeline', expect([info] + v + [info])]
        elif typ == 'PFP':
            k = v
            cls = {'MaximalRepeats': 'FindMaximalRepeats2', 'SuperMaximalRepeats': 'FindSuperMaximalRepeats2',
                   'NearSuperMaximalRepeats': 'FindNearSuperMaximalRepeats2',
                   'PrimitiveTandemArrays': 'FindPrimitiveTandemArrays2',
                   'MaximalTandemArrays': 'FindMaximalTandemArrays2'}[k]
            arg2 = {'max_array_length': a['max_array_length']} if 'Tandem' in k else {'strategy': a['strategy']}
            cfg[wire] = ['pipeline', expect([{'t': cls, 'a': arg2},
                                             {'t': 'DiscoverActivities2', 'a': {'activity_level': a['activity_level']}}])]
    if shape == 'S':
        return ['simple', keys[0]]
    if shape == 'C':
        return ['complex', list(keys), backend, cfg]
    return ['default', backend, cfg]


def expect(specs):
    out = []
    for i in range(len(specs)):
        t = target(specs, i)
        out.append(expect_part(NEUTRAL if t is None else specs[t]))
    return out


def decode_value(v):
    which = v.WhichOneof('contextValue')
    if which is None:
        return [None]
    x = getattr(v, which)
    if which == 'enum':
        return ['enum', x.enumType, x.value]
    if which == 'strings':
        return ['strings', list(x.strings)]
    if which == 'pipeline':
        return ['pipeline', decode(x)]
    if which == 'hashes_log':
        return ['hashes_log', [list(t.events) for t in x.log.traces]]
    if which == 'names_log':
        return ['names_log', [list(t.events) for t in x.log.traces]]
    if which in ('string', 'uint32', 'bool', 'float'):
        return [which, x]
    return [which, x.SerializeToString(deterministic=True).hex()]


def decode_config(cfg):
    out = {}
    for p in cfg.configurationParameters:
        if p.key.name in out:
            out[p.key.name] = ['duplicate', out[p.key.name], decode_value(p.value)]
        else:
            out[p.key.name] = decode_value(p.value)
    return out


def decode(pipeline):
    out = []
    for b in pipeline.parts:
        w = b.WhichOneof('part')
        if w == 'defaultPart':
            out.append(['default', b.defaultPart.name, decode_config(b.defaultPart.configuration)])
        elif w == 'simpleContextRequestPart':
            out.append(['simple', b.simpleContextRequestPart.key.name])
        elif w == 'complexContextRequestPart':
            c = b.complexContextRequestPart
            out.append(['complex', [k.name for k in c.keys], c.beforePipelinePart.name,
                        decode_config(c.beforePipelinePart.configuration)])
        else:
            out.append([w])
    return out


# ---- context -------------------------------------------------------------------------------------
def gen_context(rng):
    ctx = []
    large = rng.chance(0.04)
    for _ in range(rng.int(0, 4) if not large else rng.int(5, 20)):
        kind = rng.pick(['string', 'uint32', 'bool', 'float', 'strings', 'enum', 'names_log', 'hashes_log', 'pipeline'])
        if kind == 'string':
            v = rng.pick(STRINGS)
        elif kind == 'uint32':
            v = gen_arg(rng, 'U')
        elif kind == 'bool':
            v = rng.chance(0.5)
        elif kind == 'float':
            v = gen_arg(rng, 'F')
        elif kind == 'strings':
            v = gen_arg(rng, 'SL')
        elif kind == 'enum':
            e = rng.pick(list(ENUMS))
            v = [ENUMS[e][1], rng.pick(ENUMS[e][2])]
        elif kind == 'names_log':
            v = [[rng.pick(STRINGS) for _ in range(rng.int(0, 12 if large else 3))] for _ in range(rng.int(0, 12 if large else 3))]
        elif kind == 'hashes_log':
            v = [[rng.pick([0, 1, 2 ** 64 - 1, 77]) for _ in range(rng.int(0, 3))] for _ in range(rng.int(0, 3))]
        else:
            v = [gen_probe(rng) if rng.chance(0.3) else {'t': rng.pick(['ReadLogFromXes2', 'UseNamesEventLog2']), 'a': {}}
                 for _ in range(rng.int(0, 2))]
        ctx.append([rng.pick(['path', 'names_event_log', 'event_name', 'k', 'Ключ', '']) + str(len(ctx)), kind, v])
    return ctx


def build_context(ctx, rec):
    from ficus.grpc_pipelines import context_values as cv
    from ficus.grpc_pipelines.grpc_pipelines import PipelineContextValue
    out = {}
    for i, (key, kind, v) in enumerate(ctx):
        if kind == 'string':
            out[key] = cv.StringContextValue(v)
        elif kind == 'uint32':
            out[key] = cv.Uint32ContextValue(v)
        elif kind == 'bool':
            out[key] = cv.BoolContextValue(v)
        elif kind == 'float':
            out[key] = cv.FloatContextValue(v)
        elif kind == 'strings':
            out[key] = cv.StringsContextValue(list(v))
        elif kind == 'enum':
            out[key] = cv.EnumContextValue(v[0], v[1])
        elif kind == 'names_log':
            out[key] = cv.NamesLogContextValue([list(t) for t in v])
        elif kind == 'hashes_log':
            out[key] = cv.HashesLogContextValue([list(t) for t in v])
        elif kind == 'pipeline':
            out[key] = PipelineContextValue(build(v, rec, f'ctx{i}.', True))
        else:
            raise HarnessError(f'context value {kind}')
    return out


def gen_context_edit(rng, ctx):
    """other contents for one list in the context: [index, contents], or None"""
    have = [i for i, (_, kind, v) in enumerate(ctx) if kind in ('strings', 'names_log', 'hashes_log') and v]
    if not have:
        return None
    i = rng.pick(have)
    one = (lambda x: rng.pick([0, 1, 77, 2 ** 64 - 1])) if ctx[i][1] == 'hashes_log' else (lambda x: rng.pick(STRINGS))
    v = ctx[i][2]
    new = [one(x) for x in v] if ctx[i][1] == 'strings' else [[one(x) for x in t] for t in v]
    if rng.chance(0.2):
        new = new[1:] + new[:1] + new[:1]
    return [i, new]


def edit_context(values, ctx, op):
    """the user changes a list the context holds; gives the context as it is now"""
    i, new = op
    if i >= len(ctx):
        return ctx
    key, kind, old = ctx[i]
    name = {'strings': 'strings', 'names_log': 'value', 'hashes_log': 'value'}.get(kind)
    if name is None or not isinstance(getattr(values.get(key), name, None), list):
        return ctx
    held = getattr(values[key], name)
    # the inner lists that stay keep their identity
    for k, t in enumerate(new):
        if isinstance(t, list) and k < len(held):
            held[k][:] = t
        elif k < len(held):
            held[k] = t
        else:
            held.append(list(t) if isinstance(t, list) else t)
    del held[len(new):]
    return ctx[:i] + [[key, kind, new]] + ctx[i + 1:]


def expect_context(ctx):
    out = {}
    for key, kind, v in ctx:
        if kind == 'enum':
            out[key] = ['enum', v[0], v[1]]
        elif kind == 'float':
            out[key] = ['float', f32(v)]
        elif kind == 'pipeline':
            out[key] = ['pipeline', expect(v)]
        else:
            out[key] = [kind, v]
    return out


def decode_context(request):
    out = {}
    for kv in request.initialContext:
        k = kv.key.name
        out[k] = ['duplicate', out[k], decode_value(kv.value)] if k in out else decode_value(kv.value)
    return out


# ---- labels along the request -------------------------------------------------------------------
def labels_of(specs, prefix=''):
    """Labels of the context-request parts in the order the request lists them, nested ones in place
    (None for a part the package creates itself)."""
    out = {}

    def walk(specs, prefix, path):
        for i, s in enumerate(specs):
            t = target(specs, i)
            if t is None:
                continue
            if 'l' in s:
                if s['t'] == 'Probe' or PARTS[s['t']][1] in ('C', 'S'):
                    out[path + (i,)] = s['l']
                if s['t'] != 'Probe':
                    for arg, typ, wire, default in PARTS[s['t']][4]:
                        if typ in ('P', 'P?') and arg in s['a']:
                            walk(s['a'][arg], '', path + (i, 'n'))
                        elif typ == 'PBA':
                            inner = s['a'][arg]
                            out[path + (i, 'n', 0)] = None
                            out[path + (i, 'n', len(inner) + 1)] = None
                            walk2(inner, '', path + (i, 'n'))
                continue
            if t != i:
                s = specs[t]
                if s['t'] == 'Probe' or PARTS[s['t']][1] in ('C', 'S'):
                    out[path + (i,)] = f'{prefix}{t}'
                continue
            if s['t'] == 'Probe':
                out[path + (i,)] = f'{prefix}{i}'
                continue
            name = s['t']
            if PARTS[name][1] in ('C', 'S'):
                out[path + (i,)] = f'{prefix}{i}'
            for arg, typ, wire, default in PARTS[name][4]:
                if typ in ('P', 'P?') and arg in s['a']:
                    walk(s['a'][arg], f'{prefix}{i}.', path + (i, 'n'))
                elif typ == 'PBA':
                    inner = s['a'][arg]
                    out[path + (i, 'n', 0)] = None
                    out[path + (i, 'n', len(inner) + 1)] = None
                    walk2(inner, f'{prefix}{i}.', path + (i, 'n'))

    def walk2(specs, prefix, path):
        # inner parts of a before/after part sit one position later
        before = dict(out)
        out.clear()
        walk(specs, prefix, ())
        shifted = {path + (p[0] + 1,) + p[1:]: l for p, l in out.items()}
        out.clear()
        out.update(before)
        out.update(shifted)

    walk(specs, prefix, ())
    return out


# ---- values the backend sends ----------------------------------------------------------------------
def gen_values(seed, key):
    """A context value of the type the key has, varied by the seed."""
    bs, pc, pm, ut = pb()
    r = Rng(derive('value', seed, key))
    v = pc.GrpcContextValue()
    # now and then a result as large as real logs give
    large = r.pick(['many', 'long', 'both']) if r.chance(0.01 if key == 'colors_event_log' else 0.03) else None
    most = r.pick([5, 5, 40]) if large else 5
    name = lambda: '' if r.chance(0.04) else r.pick(STRINGS) + str(r.int(0, most))
    rows = lambda lo, hi: r.int(20, 60) if large in ('many', 'both') else r.int(lo, hi)
    cells = lambda lo, hi: r.int(20, 60) if large == 'long' else r.int(5, 14) if large == 'both' else r.int(lo, hi)
    if key == 'event_log_info':
        v.event_log_info.events_count = r.int(0, 10 ** 6)
        v.event_log_info.traces_count = r.int(0, 10 ** 5)
        v.event_log_info.event_classes_count = r.int(0, 10 ** 4)
    elif key == 'names_event_log':
        v.names_log.log.SetInParent()
        for _ in range(rows(0, 4)):
            v.names_log.log.traces.add().events.extend([name() for _ in range(cells(0, 4))])
    elif key == 'underlying_events_count':
        v.uint32 = r.int(0, 2 ** 32 - 1)
    elif key == 'colors_event_log':
        v.colors_log.SetInParent()
        palette = {}
        for _ in range(rows(1, 4)):
            t = v.colors_log.traces.add()
            pos = 0
            for _ in range(cells(1, 4)):
                n = name()
                if n not in palette:
                    palette[n] = (r.int(0, 255), 4 * r.int(0, 63) + len(palette) // 256, len(palette) % 256)
                e = t.event_colors.add()
                e.name = n
                e.color.red, e.color.green, e.color.blue = palette[n]
                e.start_index = pos
                e.length = r.int(1, 4) if not large or r.chance(0.8) else r.int(5, 2000)
                pos += e.length
    elif key == 'petri_net':
        gen_net(r, v.petriNet, large)
    elif key == 'graph':
        v.graph.SetInParent()
        ids = r.sample(range(1, 500), rows(0, 5))
        if ids and r.chance(0.2):
            ids[0] = 2 ** 63 + 5
        for i in ids:
            n = v.graph.nodes.add()
            n.id, n.data = i, name()
        for _ in range(0 if not ids else r.int(30, 90) if large else r.int(0, 6)):
            e = v.graph.edges.add()
            e.from_node, e.to_node, e.data = r.pick(ids), r.pick(ids), name()
    elif key == 'petri_net_count_annotation':
        v.count_annotation.SetInParent()
        for i in range(r.int(10, 120) if large else r.int(0, 8)):
            a = v.count_annotation.annotations.add()
            a.entityId, a.count = 100 + i, r.weighted([(0, 2), (1, 1), (r.int(0, 10 ** 6), 5), (2 ** 62 + 1, 1)])
    elif key in ('petri_net_frequency_annotation', 'petri_net_trace_frequency_annotation'):
        v.frequency_annotation.SetInParent()
        for i in range(r.int(10, 120) if large else r.int(0, 8)):
            a = v.frequency_annotation.annotations.add()
            a.entityId, a.frequency = 100 + i, r.weighted([(0.0, 2), (1.0, 1), (r.int(0, 1000) / 1000, 5), (1e-7, 1), (12345678.0, 1)])
    elif key in ('labeled_traces_activities_dataset', 'labeled_log_traces_dataset'):
        gen_dataset(r, v.labeled_dataset.dataset, large)
        n = len(v.labeled_dataset.dataset.rowNames)
        clusters = r.int(8, 24) if large else 4
        colors = [(r.int(0, 255), r.int(0, 255), i) for i in range(clusters)]
        for _ in range(n):
            l = r.int(0, clusters - 1)
            v.labeled_dataset.labels.append(l)
            c = v.labeled_dataset.labelsColors.add()
            c.red, c.green, c.blue = colors[l]
    elif key == 'traces_activities_dataset':
        gen_dataset(r, v.dataset, large)
    else:
        k = r.int(0, 6)
        if k == 0:
            v.string = name() * (r.int(100, 3000) if large else 1)
        elif k == 1:
            v.uint32 = r.int(0, 2 ** 32 - 1)
        elif k == 2:
            v.bool = r.chance(0.5)
        elif k == 3:
            v.names_log.log.traces.add().events.extend([name() for _ in range(cells(0, 3))])
        elif k == 4:
            v.strings.strings.extend([name() for _ in range(cells(0, 3))])
        elif k == 5:
            v.float = r.int(0, 1000) / 8
        else:
            v.hashes_log.log.traces.add().events.extend([r.int(0, 2 ** 64 - 1) for _ in range(3)])
    return v


def gen_net(r, net, large=None):
    net.SetInParent()
    places = r.sample(range(1, 99), r.int(20, 60) if large else r.int(1, 4))
    for p in places:
        x = net.places.add()
        x.id, x.name = p, '' if r.chance(0.08) else r.pick(STRINGS) + str(p)
    arc = 100
    for t in r.sample(range(1000, 2000), r.int(10, 50) if large else r.int(0, 4)):
        x = net.transitions.add()
        x.id, x.data = t, '' if r.chance(0.05) else r.pick(STRINGS) + str(r.int(0, 9))
        for _ in range(r.int(0, 2)):
            a = x.incomingArcs.add()
            a.id, a.placeId, a.tokens_count = arc, r.pick(places), 1
            arc += 1
        for _ in range(r.int(0, 2)):
            a = x.outgoingArcs.add()
            a.id, a.placeId, a.tokens_count = arc, r.pick(places), 1
            arc += 1
    for m in (net.initial_marking, net.final_marking):
        if r.chance(0.6):
            x = m.markings.add()
            x.placeId, x.tokensCount = r.pick(places), 1


def gen_dataset(r, ds, large=None):
    rows, cols = r.int(30, 80) if large in ('many', 'both') else r.int(4, 7), r.int(20, 40) if large == 'long' else r.int(3, 5)
    for i in range(rows):
        ds.matrix.rows.add().values.extend([r.int(0, 9) + (i * 7 % 5) + j for j in range(cols)])
        ds.rowNames.append(f'trace {i}')
    ds.columnsNames.extend([f'c{j}' for j in range(cols)])


def diff(a, b, path=''):
    """First difference between two JSON-like values."""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return f'{path}: {a!r} instead of {b!r}'
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return f'{path}/{k}: missing (expected {b[k]!r})'
            if k not in b:
                return f'{path}/{k}: unexpected {a[k]!r}'
            d = diff(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} items {str(a)[:300]} instead of {len(b)} {str(b)[:300]}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    return None if a == b else f'{path}: {a!r} instead of {b!r}'
