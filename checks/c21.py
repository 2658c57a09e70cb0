"""C21: a dispatcher answers each request independently of all others."""
import itertools
import json
import sys
import threading

from hypothesis import strategies as st
from lxml import etree

from checks import c15
from harness import env as harness_env
from harness import fixedworld as FW
from harness import models as M
from harness import pristine
from harness import services as S
from harness.core import HarnessError, Sub, Violation

TECHNIQUE = 'stateful property-based testing: random histories, nested dispatches and line-level thread schedules, every answer compared with the one of a process which serves nothing else'
NOTE = 'Threads are switched at lines of soapfish only, one runs at a time; handlers and middlewares keep no state themselves.'

MODES = ['plain', 'response', 'response', 'header', 'fault', 'shared-fault', 'fault-answer', 'boom', 'mutate', 'same', 'wrong']
KINDS = ['call', 'call', 'call', 'call', 'truncated', 'empty', 'unknown-action', 'unknown-root', 'unknown-header', 'fault-body', 'wsdl', 'xsd', 'put', 'stub', 'make']
MIDDLEWARES = ['look', 'header', 'catch', 'status']


@st.composite
def worlds(draw):
    svcs = [draw(S.services(S.O_SMALL, max_ops=3)) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    disp = [{'s': draw(st.integers(0, len(svcs) - 1)), 'mw': draw(st.lists(st.sampled_from(MIDDLEWARES), max_size=2)), 'strict': draw(st.booleans()), 'hook': draw(st.booleans())} for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    pool = []
    for _ in range(draw(st.integers(2, 4))):
        d = draw(st.integers(0, len(disp) - 1))
        svc = svcs[disp[d]['s']]
        r = {'d': d, 'kind': draw(st.sampled_from(KINDS)), 'mode': draw(st.sampled_from(MODES)), 'mark': draw(st.sampled_from('abc'))}
        c = draw(S.calls(svc, S.O_SMALL))
        op = svc['ops'][c['op']]
        c['action'] = True if 'cls' in op['in'] else bool(op['action']) and draw(st.booleans())
        c.update(style='plain', empty=False, steer=draw(st.lists(st.integers(0, 255), max_size=10)), features=draw(st.lists(st.sampled_from(c15.FEATURES), max_size=3, unique=True)), enc='utf-8', plain=r['mode'] == 'plain')
        r['c'] = c
        pool.append(r)
    return {'svcs': svcs, 'disp': disp, 'pool': pool}


@st.composite
def history_cases(draw):
    w = draw(worlds())
    some = st.integers(0, len(w['pool']) - 1)
    w['hist'] = [{'r': draw(some), 'nest': draw(st.lists(st.tuples(st.sampled_from(['before', 'inside', 'after']), some).map(list), max_size=2)) if draw(st.booleans()) else []}
                 for _ in range(draw(st.integers(2, 7)))]
    return w


@st.composite
def thread_cases(draw):
    w = draw(worlds())
    for r in w['pool']:
        if r['kind'] == 'make':
            r['kind'] = 'wsdl'          # lxml cannot build schemas in two threads at a time
    some = st.integers(0, len(w['pool']) - 1)
    w['threads'] = draw(st.lists(st.lists(some, min_size=1, max_size=2), min_size=2, max_size=3))
    w['gaps'] = draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 400), st.integers(1, 3000)), min_size=1, max_size=8))
    return w


# --- the world of a process -----------------------------------------------------------------------------
def seen(x):
    """What a handler can tell of a value."""
    meta = getattr(type(x), '_meta', None)
    if meta is not None and hasattr(meta, 'all'):
        return [type(x).__name__, [[f._name, seen(getattr(x, f._name))] for f in meta.all]]
    if isinstance(x, (list, tuple)):
        return [seen(i) for i in x]
    return [type(x).__name__, repr(x) if not type(x).__repr__ is object.__repr__ else type(x).__name__]


def infoset(content):
    if isinstance(content, str):
        content = content.encode()
    try:
        root = etree.fromstring(content)
    except (etree.XMLSyntaxError, TypeError, ValueError):
        return repr(content)

    def node(e):
        if not isinstance(e.tag, str):
            return [str(e.text)]
        return [e.tag, sorted(e.attrib.items()), e.text or '', [[node(k), k.tail or ''] for k in e]]
    return node(root)


class Boom(Exception):
    pass


class World:
    def __init__(self, case, only=None):
        """The services and dispatchers of the case, or just those needed for one request of the pool."""
        from soapfish.core import SOAPError
        self.case, self.results = case, []
        self.error = SOAPError('Server', 'always the same')
        self.cached = {}
        needed = range(len(case['disp'])) if only is None else [case['pool'][only]['d']]
        self.services, self.dispatchers = {}, {}
        for d in needed:
            s = case['disp'][d]['s']
            if s not in self.services:
                self.services[s] = self.service(s)
            self.dispatchers[d] = self.dispatcher(d)

    def service(self, s):
        svc = self.case['svcs'][s]
        b = S.build(svc)
        b.handlers[:] = [self.handler(b, svc, i) for i in range(len(svc['ops']))]
        return b

    def dispatcher(self, d):
        from soapfish.soap_dispatch import SOAPDispatcher
        x = self.case['disp'][d]
        return SOAPDispatcher(self.services[x['s']].service, middlewares=[getattr(self, 'mw_' + m) for m in x['mw']], strict_soap_header=x['strict'], hooks={'soap-response': self.hook} if x.get('hook') else None)

    # Everything about a request is found from its environment.
    def handler(self, b, svc, i):
        from soapfish.core import SOAPError, SOAPResponse

        def handle(request, body):
            item = request.environ['verif.item']
            item['log'].append(['handler', i, seen(body), seen(request.soap_header), request.method.operationName, seen(request.soap_body)])
            self.nested(item, 'inside')
            item['log'].append(['handler goes on', request.soap_body is body, request.method.operationName, seen(body), request.environ.get('verif.item') is item])
            c, mode = item['r']['c'], item['r']['mode']
            if mode == 'fault':
                raise SOAPError('Server', 'fault ' + item['r']['mark'])
            if mode == 'shared-fault':
                raise self.error
            if mode == 'fault-answer':
                return SOAPResponse(SOAPError('Server', 'answer ' + item['r']['mark']))
            if mode == 'boom':
                raise Boom(item['r']['mark'])
            if mode == 'mutate':
                for f in type(body)._meta.all:
                    try:
                        setattr(body, f._name, None)
                    except Exception:
                        pass
                request.soap_body = request.soap_header = None
                request.http_content = b'gone'
                request.environ.clear()
            if c['op'] != i:
                return None
            # the same objects are answered again, the response around them is new
            obj, out_header = self.cached.get(id(item['r'])) or (
                M.make(b.models, S.out_ti(svc['ops'][i]), c['out']),
                None if c['oh'] is None else S.make_header(b, S.out_header(svc, svc['ops'][i]), c['oh']))
            if mode == 'same':
                self.cached[id(item['r'])] = obj, out_header
            if c['plain'] and c['oh'] is None:
                return obj
            if mode == 'wrong':
                return SOAPResponse(object())
            out = SOAPResponse(obj, soap_header=out_header)
            if mode == 'header':
                out.http_headers['X-Handler'] = item['r']['mark']
            return out
        return handle

    def hook(self, dispatcher, request, response):
        item = request.environ.get('verif.item')
        if item is not None and item['r']['mark'] != 'b':
            response.http_headers['X-Hook'] = item['r']['mark']
        return response

    def mw_look(self, request, next_call):
        item = request.environ['verif.item']
        item['log'].append(['look', request.method, seen(request.soap_body), seen(request.soap_header)])
        self.nested(item, 'before')
        response = next_call(request)
        self.nested(item, 'after')
        item['log'].append(['looked', request.method and request.method.operationName, dict(response.http_headers), response.http_status_code])
        return response

    def mw_header(self, request, next_call):
        mark = request.environ['verif.item']['r']['mark']
        response = next_call(request)
        response.http_headers['X-Middleware'] = mark
        return response

    def mw_catch(self, request, next_call):
        from soapfish.core import SOAPError, SOAPResponse
        mark = request.environ['verif.item']['r']['mark']
        try:
            return next_call(request)
        except SOAPError as e:
            return SOAPResponse(SOAPError(e.code, 'caught %s %s' % (mark, e.message)), http_headers={'X-Caught': mark})

    def mw_status(self, request, next_call):
        response = next_call(request)
        if 'verif.item' in request.environ and request.environ['verif.item']['r']['mark'] == 'a':
            response.http_status_code = 203
        return response

    def nested(self, item, where):
        for w, r in item['nest']:
            if w == where:
                self.serve(r)

    # --- one request -------------------------------------------------------------------------------------------
    def serve(self, r, nest=()):
        pool = self.case['pool'][r]
        item = {'r': pool, 'nest': list(nest), 'log': []}
        try:
            out = self.answer(item)
        except Exception as e:
            text = str(e)
            out = ['exception', type(e).__name__, text if ' at 0x' not in text else '']
        self.results.append([r, [out, item['log']]])

    def answer(self, item):
        from soapfish import soap
        from soapfish.core import SOAPRequest
        r = item['r']
        d, c, kind = r['d'], r['c'], r['kind']
        b, dispatcher = self.services[self.case['disp'][d]['s']], self.dispatchers[d]
        svc = b.svc
        op = svc['ops'][c['op']]
        if kind == 'make':
            other = self.dispatcher(d)
            return ['made', infoset(other.wsdl)]
        env = S.request_environ(svc['version'], op['action'] if c['action'] else None, 'plain')
        env['HTTP_HOST'] = r['mark'] + '.example'
        env['verif.item'] = item
        content = c15.request_bytes(svc, c)
        ns = S.ENVELOPE[svc['version']]
        if kind == 'truncated':
            content = content[:len(content) * 2 // 3]
        elif kind == 'empty':
            content = ('<e:Envelope xmlns:e="%s"><e:Body/></e:Envelope>' % ns).encode()
        elif kind == 'unknown-action':
            env = dict(S.request_environ(svc['version'], 'urn:unknown:' + r['mark']), **{'verif.item': item})
        elif kind == 'unknown-root':
            content = ('<e:Envelope xmlns:e="%s"><e:Body><nothing%s/></e:Body></e:Envelope>' % (ns, r['mark'])).encode()
        elif kind == 'unknown-header':
            root = etree.fromstring(content)
            header = root.find('{%s}Header' % ns)
            if header is None:
                header = etree.Element('{%s}Header' % ns)
                root.insert(0, header)
            etree.SubElement(header, '{urn:unknown}' + r['mark'])
            content = etree.tostring(root)
        elif kind == 'fault-body':
            content = ('<e:Envelope xmlns:e="%s"><e:Body><e:Fault/></e:Body></e:Envelope>' % ns).encode()
        elif kind == 'wsdl':
            env.update(REQUEST_METHOD='GET', QUERY_STRING='wsdl')
        elif kind == 'xsd':
            env.update(REQUEST_METHOD='GET', QUERY_STRING='xsd=' + r['mark'])
        elif kind == 'put':
            env['REQUEST_METHOD'] = 'PUT'
        elif kind == 'stub':
            return self.stub(soap, b, item, dispatcher, op, c)
        response = dispatcher.dispatch(SOAPRequest(env, content))
        return ['response', response.http_status_code, sorted(response.http_headers.items()), infoset(response.http_content)]

    def stub(self, soap, b, item, dispatcher, op, c):
        from soapfish.core import SOAPRequest
        svc = b.svc
        header = None if c['h'] is None else S.make_header(b, S.in_header(svc, op), c['h'])
        ti = S.members(svc, op)[0][1]
        tag = S.members(svc, op)[0][0]
        if ti != S.members(svc, op)[c['m']][1]:
            return ['not sent']
        sent = []

        class Client(soap.Stub):
            SERVICE = b.service
            HOST = item['r']['mark'] + '.client'

            def _handle_response(self, method, headers, content):
                return super()._handle_response(method, headers, content)

        # the network is global to the process, hence there is none: what would be posted is answered directly
        def post(url, auth=None, headers=None, data=None):
            sent.append([url, auth, sorted(headers.items()), infoset(data), tag])
            env = S.request_environ(svc['version'], op['action'] or None)
            env['verif.item'] = item
            out = dispatcher.dispatch(SOAPRequest(env, data))

            class Response:
                headers = dict(out.http_headers)
                content = out.http_content
            return Response
        # named per thread
        posts.current.post = post
        try:
            got = Client('user' + item['r']['mark'], 'secret').call(op['name'], M.make(b.models, ti, c['v']), header=header)
            answer = ['answer', seen(got.soap_body), seen(got.soap_header)]
        except Exception as e:
            text = str(e)
            answer = ['exception', type(e).__name__, text if ' at 0x' not in text else '']
        return ['stub', sent, answer]


class posts:
    current = threading.local()


def no_network():
    import requests

    def post(*a, **kw):
        return posts.current.post(*a, **kw)
    requests.post = post


# --- jobs --------------------------------------------------------------------------------------------------
def single(arg):
    case, r = arg
    no_network()
    w = World(case, only=r)
    w.serve(r)
    return w.results


def history(case):
    no_network()
    w = World(case)
    for h in case['hist']:
        w.serve(h['r'], h['nest'])
    return w.results


class Turns:
    """One thread runs at a time; the turn passes on after given numbers of lines of soapfish."""

    def __init__(self, n, gaps):
        self.alive, self.turn, self.steps = [True] * n, 0, 0
        self.gaps = itertools.cycle(gaps)
        self.left = next(self.gaps)
        self.switches = 0
        self.cond = threading.Condition()
        self.prefix = harness_env.REPO + '/soapfish/'

    def wait(self, me):
        while self.turn != me:
            steps = self.steps
            if not self.cond.wait(0.5) and steps == self.steps and self.turn != me:
                self.turn = me      # the thread whose turn it is waits for something another one holds

    def pass_on(self, me):
        n = len(self.alive)
        for k in range(1, n + 1):
            i = (me + k) % n
            if self.alive[i]:
                self.switches += i != me
                self.turn = i
                self.cond.notify_all()
                return

    def trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                with self.cond:
                    self.steps += 1
                    if self.turn != me:
                        self.wait(me)
                    self.left -= 1
                    if self.left <= 0:
                        self.left = next(self.gaps)
                        self.pass_on(me)
                        self.wait(me)
            return local

        def call(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.prefix) else None
        return call

    def run(self, me, fn):
        with self.cond:
            self.wait(me)
        sys.settrace(self.trace(me))
        try:
            fn()
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive[me] = False
                if self.turn == me:
                    self.pass_on(me)


def threads(case):
    no_network()
    w = World(case)
    turns = Turns(len(case['threads']), case['gaps'])
    failed = []

    def body(rs):
        try:
            for r in rs:
                w.serve(r)
        except BaseException as e:
            failed.append(repr(e))
    ts = [threading.Thread(target=turns.run, args=(i, lambda rs=rs: body(rs)), daemon=True) for i, rs in enumerate(case['threads'])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(40)
        if t.is_alive():
            raise RuntimeError('the threads did not end')
    if failed:
        raise RuntimeError('; '.join(failed))
    return [w.results, turns.switches]


# --- checks ------------------------------------------------------------------------------------------------
def get(fn, arg, what):
    out = pristine.run(fn, arg)
    if out[0] != 'value':
        raise Violation('%s: %s\n%s' % (what, out[1], out[2]))
    return out[1]


def compare(case, results):
    want = {}
    for r in sorted({r for r, _ in results}):
        got = get(single, (case, r), 'request %d alone' % r)
        if len(got) != 1:
            raise HarnessError('a single request gave %r' % got)
        want[r] = got[0][1]
    for k, (r, got) in enumerate(results):
        if got != want[r]:
            raise Violation('request %d (served as number %d, order of completion %r) gave\n%r\nalone it gives\n%r' % (r, k, [x for x, _ in results], got, want[r]))
    return want


def check_history(case):
    results = get(history, case, 'history')
    compare(case, results)
    return len({r for r, _ in results}) > 1


def check_threads(case):
    results, switches = get(threads, case, 'threads')
    if sorted(r for r, _ in results) != sorted(r for rs in case['threads'] for r in rs):
        raise HarnessError('results of %r' % [r for r, _ in results])
    compare(case, results)
    return switches > 2


# --- long histories over fixed services --------------------------------------------------------------------
LETTERS = st.tuples(st.integers(0, 1), st.sampled_from(FW.KINDS), st.integers(0, 4), st.sampled_from(['action', 'action', 'root', 'root', 'member', 'unknown', 'wrong']),
                    st.sampled_from(FW.BODIES), st.sampled_from(FW.HEADERS), st.sampled_from(['one.example', 'two.example:81'])).map(list)
_alone = {}


@st.composite
def long_cases(draw):
    letters = draw(st.lists(LETTERS, min_size=4, max_size=12))
    some = st.sampled_from(letters)
    return {'variant': draw(st.sampled_from(FW.VARIANTS)), 'hist': draw(st.lists(some, min_size=10, max_size=30))}


def remember(post):
    posts.current.post = post


def fixed_history(case):
    no_network()
    w = FW.World(case['variant'], remember)
    return [w.serve(x, infoset) for x in case['hist']]


def check_long(case):
    results = get(fixed_history, case, 'history')
    for k, (letter, got) in enumerate(zip(case['hist'], results)):
        key = json.dumps([case['variant'], letter], sort_keys=True)
        if key not in _alone:
            _alone[key] = get(fixed_history, {'variant': case['variant'], 'hist': [letter]}, 'request alone')[0]
        if got != _alone[key]:
            raise Violation('request %d of %d, %r, gave\n%r\nalone it gives\n%r' % (k + 1, len(results), letter, got, _alone[key]))
    return sum(1 for out, log in results if log and log[0][0] in ('handler', 'look')) > 2


SUBS = [
    Sub('history', history_cases, check_history, quick=500, thorough=15000, shards=8,
        rule='up to three dispatchers of up to two services, up to seven top-level requests with nested ones; non-trivial when different requests were served'),
    Sub('long', long_cases, check_long, quick=400, thorough=10000, shards=8,
        rule='up to thirty requests, out of up to twelve different ones, to two dispatchers of fixed services (the same, its twin, or another with the same names); non-trivial when at least three reached a handler or middleware'),
    Sub('threads', thread_cases, check_threads, quick=250, thorough=8000, shards=8,
        rule='two or three threads, switched after drawn numbers of lines of soapfish; non-trivial with more than two switches'),
]
