"""Simulated gRPC transport and a reference model of the backend.

The client's real code runs over `SimChannel`, which the patched `grpc.insecure_channel` returns;
requests and responses cross it as serialised bytes of the real protobuf messages.  `Backend` models
the service as its Rust sources describe it: it walks the requested pipeline, streams one part result
per context-request part it meets (again for every repetition of a nested pipeline) with log messages
in between, stores the execution's context, sends the final result, and forgets the context on drop."""
import grpc

from .core import HarnessError, Violation

DEFAULT_MAX_RECV = 4 * 1024 * 1024


def pb():
    from ficus.grpc_pipelines.models import backend_service_pb2, pipelines_and_context_pb2, pm_models_pb2, util_pb2
    return backend_service_pb2, pipelines_and_context_pb2, pm_models_pb2, util_pb2


class SimRpcError(grpc.RpcError, grpc.Call, grpc.Future):
    def __init__(self, code, details):
        super().__init__(f'{code} {details}')
        self._code = getattr(grpc.StatusCode, code)
        self._details = details

    def code(self):
        return self._code

    def details(self):
        return self._details

    def initial_metadata(self):
        return ()

    def trailing_metadata(self):
        return ()

    def is_active(self):
        return False

    def time_remaining(self):
        return None

    def cancel(self):
        return False

    def add_callback(self, cb):
        return False

    def cancelled(self):
        return self._code is grpc.StatusCode.CANCELLED

    def running(self):
        return False

    def done(self):
        return True

    def result(self, timeout=None):
        raise self

    def exception(self, timeout=None):
        return self

    def traceback(self, timeout=None):
        return None

    def add_done_callback(self, fn):
        fn(self)


class Stream:
    """Client side of one server-streaming call."""

    def __init__(self, net, channel, execution, deserialize, timeout=None):
        self.net = net
        self.timeout = timeout
        self.elapsed = 0.0
        self.channel = channel
        self.x = execution
        self.deserialize = deserialize
        self.pos = 0
        self.over = None      # None, 'eof' or SimRpcError
        channel.streams.append(self)

    def __iter__(self):
        return self

    def __next__(self):
        if self.over == 'eof':
            raise StopIteration
        if self.over is not None:
            raise self.over
        item = self.x.items[self.pos] if self.pos < len(self.x.items) else ('eof',)
        kind = item[0]
        dt = item[-1] if kind in ('msg',) else 0.001
        if self.net.before is not None:
            try:
                self.net.before(self.x, self.pos)
            except (ValueError, TypeError, KeyError, IndexError) as e:
                raise HarnessError(f'the plan of the execution is not one: {e!r}')
        self.elapsed += dt
        late = self.timeout is not None and self.elapsed > self.timeout
        self.net.wait(dt if not late else 0.001)
        if late and self.over is None:
            self.over = SimRpcError('DEADLINE_EXCEEDED', 'Deadline Exceeded')
        if self.over is not None and self.over != 'eof':
            raise self.over
        if kind == 'eof':
            self.over = 'eof'
            if not self.x.final_sent:
                self.net.ctx.fault('stream_eof_without_final')
            raise StopIteration
        if kind == 'abort':
            self.net.ctx.fault(f'stream_abort_{item[1]}')
            self.over = SimRpcError(item[1], 'injected')
            raise self.over
        if kind == 'interrupt':
            self.net.ctx.fault('interrupt_in_wait')
            self.pos += 1
            raise KeyboardInterrupt()
        data = item[1]
        if len(data) > self.channel.max_recv >= 0:
            self.over = SimRpcError('RESOURCE_EXHAUSTED', f'Received message larger than max ({len(data)} vs. '
                                                          f'{self.channel.max_recv})')
            raise self.over
        self.pos += 1
        msg = self.deserialize(data)
        self.x.delivered.append(item[2])
        if msg.HasField('finalResult'):
            self.x.final_seen = True
        self.net.ctx.ev('deliver', self.x.index, self.pos, msg.WhichOneof('result'))
        return msg

    next = __next__

    def cancel(self):
        if self.over is None:
            self.over = SimRpcError('CANCELLED', 'Locally cancelled')
            self.x.cancelled = True
        return True

    def code(self):
        if self.over == 'eof':
            return grpc.StatusCode.OK
        return self.over.code() if self.over is not None else None

    def details(self):
        return '' if self.over in (None, 'eof') else self.over.details()

    def is_active(self):
        return self.over is None

    def done(self):
        return self.over is not None

    def cancelled(self):
        return isinstance(self.over, SimRpcError) and self.over.cancelled()

    def add_done_callback(self, cb):
        pass

    def add_callback(self, cb):
        return True

    def initial_metadata(self):
        return ()

    def trailing_metadata(self):
        return ()

    def time_remaining(self):
        return None


class _Multi:
    def __init__(self, channel, method, ser, de, stream):
        self.channel = channel
        self.method = method.rsplit('/', 1)[-1]
        self.ser = ser or (lambda x: x)
        self.de = de or (lambda x: x)
        self.stream = stream

    def __call__(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        ch = self.channel
        if ch.closed:
            raise ValueError('Cannot invoke RPC on closed channel!')
        data = self.ser(request)
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError('request was not serialised')
        if self.stream:
            x = ch.net.start_execution(ch, bytes(data), timeout, wait_for_ready)
            return Stream(ch.net, ch, x, self.de, timeout)
        return self.de(ch.net.unary(ch, self.method, bytes(data), timeout, wait_for_ready))

    def with_call(self, *a, **k):
        return self(*a, **k), None

    def future(self, *a, **k):
        return _Future(self, a, k)


class _Future:
    """A call under way: the backend answers when the client waits for it, and may not have got it when the channel closes."""

    def __init__(self, multi, a, k):
        self.multi = multi
        self.a = a
        self.k = k
        self.out = None

    def _run(self):
        if self.out is None:
            if self.multi.channel.closed:
                self.out = (None, SimRpcError('CANCELLED', 'Channel closed!'))
            else:
                try:
                    self.out = (self.multi(*self.a, **self.k), None)
                except SimRpcError as e:
                    self.out = (None, e)
        return self.out

    def result(self, timeout=None):
        v, e = self._run()
        if e is not None:
            raise e
        return v

    def exception(self, timeout=None):
        return self._run()[1]

    def code(self):
        e = self._run()[1]
        return grpc.StatusCode.OK if e is None else e.code()

    def done(self):
        return self.out is not None or self.multi.channel.closed

    def cancel(self):
        if self.out is None:
            self.out = (None, SimRpcError('CANCELLED', 'Locally cancelled'))
        return True

    def add_done_callback(self, fn):
        pass


class SimChannel(grpc.Channel):
    def __init__(self, net, target, options):
        self.net = net
        self.target = target
        self.options = list(options or [])
        self.max_recv = DEFAULT_MAX_RECV
        for k, v in self.options:
            if k == 'grpc.max_receive_message_length':
                self.max_recv = v
        self.closed = False
        self.streams = []
        self.index = len(net.channels)
        self.opener = net.tid()
        net.channels.append(self)

    def subscribe(self, callback, try_to_connect=False):
        pass

    def unsubscribe(self, callback):
        pass

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, *a, **k):
        return _Multi(self, method, request_serializer, response_deserializer, False)

    def unary_stream(self, method, request_serializer=None, response_deserializer=None, *a, **k):
        return _Multi(self, method, request_serializer, response_deserializer, True)

    def stream_unary(self, *a, **k):
        raise HarnessError('not used by the service')

    def stream_stream(self, *a, **k):
        raise HarnessError('not used by the service')

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.ctx.ev('close', self.index)
            for s in self.streams:
                if s.over is None:
                    s.over = SimRpcError('CANCELLED', 'Channel closed!')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Execution:
    def __init__(self, index, channel, request, plan):
        self.index = index
        self.channel = channel
        self.addr = channel.target
        self.tid = channel.net.tid()
        self.request = request
        self.plan = plan
        self.items = []          # what the stream will yield
        self.sent = []           # part results in the order sent: (path in the request, {key: bytes})
        self.final_sent = None   # ('success', guid) or ('error', text)
        self.final_seen = False
        self.delivered = []      # ('part', path, values) | ('log', text) | ('noise',) | ('final',)
        self.cancelled = False
        self.edited = False
        self.values = []


class SimNet:
    """plans: list, consumed by executions in order of arrival (the last one repeats).
    A plan: {'unreachable': bool, 'reps': [...], 'log': [...], 'error': None|text, 'fault': None |
    {'at': n, 'kind': 'abort'|'eof'|'interrupt', 'code': ...}, 'delay': [..], 'drop': None|code,
    'noise': [positions of part results for parts nobody asked for]}"""

    def __init__(self, ctx, world, plans, valuer, addresses=None):
        self.ctx = ctx
        self.world = world
        self.plans = plans
        self.valuer = valuer
        self.addresses = addresses
        self.channels = []
        self.executions = []
        self.drops = []           # (addr, guid, outcome, channel index, tid)
        self.stored = {}          # addr -> {guid: execution}
        self.gets = []
        self.by_tid = {}
        self.before = None        # called with (execution, position) before a message reaches the client

    def tid(self):
        return self.world.tid()

    def channel(self, target, options):
        return SimChannel(self, target, options)

    def wait(self, dt):
        s = self.world.sched
        if s is not None and s.current() is not None:
            s.delay(dt)
            s.yield_point('net')
        else:
            self.ctx.advance(dt)

    # -- ExecutePipeline ---------------------------------------------------------------------------
    def start_execution(self, channel, data, timeout, wait_for_ready=False):
        bs, pc, pm, ut = pb()
        request = bs.GrpcPipelineExecutionRequest.FromString(data)
        tid = self.tid()
        n = self.by_tid.get(tid, 0)
        self.by_tid[tid] = n + 1
        plans = self.plans[tid] if isinstance(self.plans, dict) else self.plans
        plan = plans[min(n, len(plans) - 1)]
        x = Execution(len(self.executions), channel, request, plan)
        x.nth = n
        self.executions.append(x)
        self.ctx.ev('execute', x.index, channel.target, len(data))
        if plan.get('unreachable') or (self.addresses is not None and channel.target not in self.addresses):
            x.items = [('abort', self.refused(timeout, wait_for_ready))]
            return x
        try:
            self._script(x)
        except (ValueError, TypeError, KeyError, IndexError) as e:
            raise HarnessError(f'the plan of the execution is not one: {e!r}')
        return x

    def refused(self, timeout, wait_for_ready):
        """nobody listens at the address: an error at once, or waiting for it"""
        if not wait_for_ready:
            return 'UNAVAILABLE'
        if timeout is None:
            raise Violation('hang', 'the client waits without end for a backend that is not there')
        return 'DEADLINE_EXCEEDED'

    def _script(self, x):
        bs, pc, pm, ut = pb()
        plan = x.plan
        reps = list(plan.get('reps') or [1])
        state = {'rep': 0}

        def next_rep():
            r = reps[state['rep'] % len(reps)]
            state['rep'] += 1
            return r

        out = []

        def emit(uuid_text, keys, path):
            vals = {}
            if len(x.sent) == plan.get('bare'):
                keys = []
            r = bs.GrpcPipelinePartResult(uuid=ut.GrpcUuid(uuid=uuid_text))
            for k in keys:
                v = self.valuer(x, len(x.sent), k)
                vals[k] = v.SerializeToString(deterministic=True)
                r.contextValues.append(bs.GrpcContextValueWithKeyName(key_name=k, value=v))
            x.sent.append((path, vals))
            out.append((bs.GrpcPipelinePartExecutionResult(pipelinePartResult=r), ('part', path, vals)))

        def nested(config):
            return [p.value.pipeline for p in config.configurationParameters
                    if p.value.WhichOneof('contextValue') == 'pipeline']

        def walk(pipeline, path):
            for i, base in enumerate(pipeline.parts):
                which = base.WhichOneof('part')
                here = path + (i,)
                if which == 'simpleContextRequestPart':
                    part = base.simpleContextRequestPart
                    emit(part.frontendPartUuid.uuid, [part.key.name], here)
                elif which == 'complexContextRequestPart':
                    part = base.complexContextRequestPart
                    for inner in nested(part.beforePipelinePart.configuration):
                        for _ in range(next_rep()):
                            walk(inner, here + ('n',))
                    emit(part.frontendPartUuid.uuid, [k.name for k in part.keys], here)
                elif which == 'defaultPart':
                    part = base.defaultPart
                    for inner in nested(part.configuration):
                        for _ in range(1 if part.name == 'ExecuteFrontendPipeline' else next_rep()):
                            walk(inner, here + ('n',))

        walk(x.request.pipeline, ())

        noise = plan.get('noise') or []
        msgs = []
        logs = plan.get('log') or []

        def log(text):
            msgs.append((bs.GrpcPipelinePartExecutionResult(logMessage=bs.GrpcPipelinePartLogMessage(message=text)),
                         ('log', text)))
        for i, item in enumerate(out):
            for pos, text in logs:
                if pos == i:
                    log(text)
            if i in noise:
                r = bs.GrpcPipelinePartResult(uuid=ut.GrpcUuid(uuid='00000000-0000-4000-8000-%012x' % (i + 1)))
                r.contextValues.append(bs.GrpcContextValueWithKeyName(
                    key_name='names_event_log', value=pc.GrpcContextValue(string='noise')))
                msgs.append((bs.GrpcPipelinePartExecutionResult(pipelinePartResult=r), ('noise',)))
                self.ctx.fault('unrequested_part_result')
            msgs.append(item)
        for pos, text in logs:
            if pos >= len(out):
                log(text)

        final = bs.GrpcPipelinePartExecutionResult()
        if plan.get('error') is not None:
            cut = plan.get('error_at')
            if cut is not None:
                msgs = msgs[:cut]
            final.finalResult.error = plan['error']
            x.final = ('error', plan['error'])
        else:
            guid = plan.get('guid', 'guid-%d-%s' % (x.index, x.channel.target))
            final.finalResult.success.guid = guid
            x.final = ('success', guid)
        msgs.append((final, ('final',)))
        x.all_msgs = msgs

        delays = plan.get('delay') or [0.001]
        items = [('msg', m.SerializeToString(), meta, float(delays[i % len(delays)]))
                 for i, (m, meta) in enumerate(msgs)]
        fault = plan.get('fault')
        if fault:
            at = min(fault['at'], len(items) - 1)
            if fault['kind'] == 'abort':
                items = items[:at] + [('abort', fault['code'])]
            elif fault['kind'] == 'eof':
                items = items[:at] + [('eof',)]
            elif fault['kind'] == 'interrupt':
                items = items[:at] + [('interrupt',)] + items[at:]
            elif fault['kind'] == 'abort_after_final':
                # status arrives after the final message: the client already has its answer
                items = items + [('abort', fault['code'])]
        x.items = items
        # the backend stores the context before it tells the client
        delivered_final = items and items[-1][0] == 'msg' or (fault or {}).get('kind') in ('interrupt',
                                                                                           'abort_after_final')
        if delivered_final:
            x.final_sent = x.final
            if x.final[0] == 'success':
                self.stored.setdefault(x.addr, {})[x.final[1]] = x

    # -- unary calls -------------------------------------------------------------------------------
    def unary(self, channel, method, data, timeout=None, wait_for_ready=False):
        bs, pc, pm, ut = pb()
        self.wait(0.001)
        if method == 'DropExecutionResult':
            guid = ut.GrpcGuid.FromString(data).guid
            owner = self.stored.get(channel.target, {}).get(guid)
            tid = self.tid()
            plan = owner.plan if owner is not None else {}
            code = plan.get('drop')
            slow = plan.get('drop_delay', 0)
            if timeout is not None and slow > timeout:
                self.wait(timeout)
                code = code or 'DEADLINE_EXCEEDED'
            elif slow:
                self.ctx.fault('slow_release')
                self.wait(slow)
            if code == 'UNAVAILABLE':
                code = self.refused(timeout, wait_for_ready)
            if code:
                self.ctx.fault(f'drop_{code}')
                self.drops.append((channel.target, guid, code, channel.index, tid))
                if plan.get('drop_applied') and owner is not None:
                    del self.stored[channel.target][guid]
                if code == 'interrupt':
                    raise KeyboardInterrupt()
                raise SimRpcError(code, 'injected')
            if owner is None:
                self.drops.append((channel.target, guid, 'NOT_FOUND', channel.index, tid))
                self.ctx.ev('drop', guid, 'NOT_FOUND')
                raise SimRpcError('NOT_FOUND', f'The session for {guid} does not exist')
            del self.stored[channel.target][guid]
            self.drops.append((channel.target, guid, 'OK', channel.index, tid))
            self.ctx.ev('drop', guid, 'OK')
            return b''
        if method == 'GetContextValue':
            self.gets.append(data)
            return bs.GrpcGetContextValueResult(error='no such key').SerializeToString()
        raise HarnessError(f'unknown method {method}')
