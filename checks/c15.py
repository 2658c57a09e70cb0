"""C15: a call reaches its own handler once and its answer comes back."""
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from harness import graphs as G
from harness import models as M
from harness import rewrite as R
from harness import services as S
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing: random services and calls, library client through WSGI and independently serialised requests, judged by the values generated and a reference envelope reader'
NOTE = 'Messages are complex types; local names of elements are distinct within a service.'


def handler_log(b, svc, log, results):
    """Handlers which record each invocation and answer with the values of the current call."""
    from soapfish.core import SOAPResponse

    def make(i):
        def handler(request, body):
            log.append((i, request.soap_header, body))
            c = results[0]
            obj = M.make(b.models, S.out_ti(svc['ops'][i]), c['out']) if c['op'] == i else None
            if c['oh'] is None and c.get('plain'):
                return obj
            return SOAPResponse(obj, soap_header=None if c['oh'] is None else S.make_header(b, S.out_header(svc, svc['ops'][i]), c['oh']))
        return handler
    b.handlers[:] = [make(i) for i in range(len(svc['ops']))]


def register(b, svc, order):
    """Register the handlers of the operations in order by the decorator: the last one of an operation counts."""
    def other(request, body):
        raise Violation('a handler which was replaced was invoked')

    def make(i):
        return lambda request, body: b.handlers[i](request, body)
    for n, i in enumerate(order):
        handler = make(i) if i not in order[n + 1:] else other
        if b.service.route(svc['ops'][i]['name'])(handler) is not handler:
            raise Violation('the decorator does not give the handler back')


def judge_handler(b, svc, c, log):
    op = svc['ops'][c['op']]
    if [x[0] for x in log] != [c['op']]:
        raise Violation('handlers invoked: %r, expected exactly %r' % ([svc['ops'][x[0]]['name'] for x in log], op['name']))
    _, header, body = log[0]
    ti = S.members(svc, op)[c['m']][1]
    if not isinstance(body, b.models.classes[ti]):
        raise Violation('handler got %r' % body)
    d = M.diff(b.models, M.all_fields(svc['spec'], ti), c['v'], body)
    if d:
        raise Violation('handler got other values: ' + d)
    h = S.in_header(svc, op)
    if c['h'] is not None:
        if header is None:
            raise Violation('handler got no header')
        d = S.header_diff(b, h, c['h'], header)
        if d:
            raise Violation('handler got another header: ' + d)
    elif header is not None and h is not None and S.header_diff(b, h, ['c', {}], header):
        raise Violation('handler got a header which was not sent')


def judge_response(svc, c, content):
    """The response is the envelope expected: returns nothing, raises otherwise."""
    op = svc['ops'][c['op']]
    header, body = S.read_envelope(svc['version'], content)
    if len(body) != 1:
        raise Violation('body holds %d elements' % len(body))
    want = S.body_node(svc, S.out_tag(svc, op), S.out_ti(op), c['out'])
    d = M.node_diff(want, body[0])
    if d:
        raise Violation('response body differs: %s\n%s' % (d, content.decode()))
    if c['oh'] is None:
        if header:
            raise Violation('unexpected header: %s' % content.decode())
        return
    nodes = S.header_nodes(svc, S.out_header(svc, op), c['oh'])
    if [e.tag for e in header or ()] != [n.tag for n in nodes]:
        raise Violation('response header holds %r, expected %r' % ([e.tag for e in header or ()], [n.tag for n in nodes]))
    for n, e in zip(nodes, header or ()):
        d = M.node_diff(n, e)
        if d:
            raise Violation('response header differs: %s\n%s' % (d, content.decode()))


def routes(svc):
    return st.one_of(st.just([]), st.lists(st.integers(0, len(svc['ops']) - 1), max_size=5))


@st.composite
def client_cases(draw):
    svc = draw(S.services(subst=False))
    calls = [dict(draw(S.calls(svc)), plain=draw(st.booleans())) for _ in range(draw(st.integers(1, 3)))]
    return {'svc': svc, 'calls': calls, 'how': draw(st.sampled_from(['assign', 'ctor'])), 'route': draw(routes(svc))}


def check_client(case):
    from soapfish import soap
    from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
    svc = case['svc']
    b = S.build(svc)
    try:
        log, results = [], [None]
        handler_log(b, svc, log, results)
        register(b, svc, case['route'])
        app = WsgiSoapApplication(SOAPDispatcher(b.service))
        responses = []

        def answer(sent):
            status, headers, content = S.run_wsgi(app, S.wsgi_environ(sent), sent.body)
            responses.append((status, content))
            return int(status.split()[0]), headers, content

        class Stub(soap.Stub):
            SERVICE = b.service
            HOST = 'client.example'
        stub = Stub()
        seen = 0
        for c in case['calls']:
            op = svc['ops'][c['op']]
            results[0] = c
            del log[:], responses[:]
            header = None if c['h'] is None else S.make_header(b, S.in_header(svc, op), c['h'])
            ti = S.members(svc, op)[0][1]
            with S.network(answer):
                got = stub.call(op['name'], M.make(b.models, ti, c['v'], case['how']), header=header)
            judge_handler(b, svc, c, log)
            if len(responses) != 1 or responses[0][0].split()[0] != '200':
                raise Violation('responses %r' % responses)
            judge_response(svc, c, responses[0][1])
            d = M.diff(b.models, M.all_fields(svc['spec'], S.out_ti(op)), c['out'], got.soap_body)
            if d:
                raise Violation('caller got other values: ' + d)
            if c['oh'] is not None:
                if got.soap_header is None:
                    raise Violation('caller got no header')
                d = S.header_diff(b, S.out_header(svc, op), c['oh'], got.soap_header)
                if d:
                    raise Violation('caller got another header: ' + d)
            elif got.soap_header is not None:
                raise Violation('caller got a header which was not sent')
            seen += bool(c['v'][1]) and bool(c['out'][1])
        return seen and len(svc['ops']) > 1
    finally:
        S.dispose(b)


FEATURES = ['prefix', 'space', 'comment', 'text', 'nil', 'quote']


@st.composite
def wire_cases(draw):
    svc = draw(S.services())
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        c = draw(S.calls(svc))
        op = svc['ops'][c['op']]
        # the element of a message given by class does not tell the operation
        c['action'] = True if 'cls' in op['in'] else bool(op['action']) and draw(st.booleans())
        c['style'] = draw(st.sampled_from(['plain', 'plain', 'bare', 'short', 'charset']))
        c['empty'] = draw(st.booleans())
        c['steer'] = draw(st.lists(st.integers(0, 255), max_size=30))
        c['features'] = draw(st.lists(st.sampled_from(FEATURES), max_size=5, unique=True))
        c['enc'] = draw(st.sampled_from(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'plain']))
        c['plain'] = draw(st.booleans())
        calls.append(c)
    return {'svc': svc, 'calls': calls, 'route': draw(routes(svc))}


def request_bytes(svc, c):
    op = svc['ops'][c['op']]
    tag, ti = S.members(svc, op)[c['m']]
    headers = None if c['h'] is None else S.header_nodes(svc, S.in_header(svc, op), c['h'])
    node = S.envelope_node(svc['version'], S.body_node(svc, tag, ti, c['v']), headers)
    w = R.Writer(R.Choices(c['steer']), set(c['features']))
    text = w.document(node)
    return text.encode() if c['enc'] == 'plain' else R.encode(text, c['enc'])


def check_wire(case):
    from soapfish.core import SOAPRequest
    from soapfish.soap_dispatch import SOAPDispatcher
    svc = case['svc']
    b = S.build(svc)
    try:
        log, results = [], [None]
        handler_log(b, svc, log, results)
        register(b, svc, case['route'])
        dispatcher = SOAPDispatcher(b.service)
        # the same element may serve several operations: then only the action tells
        shared = [t for op in svc['ops'] for t, _ in S.members(svc, op)]
        for c in case['calls']:
            op = svc['ops'][c['op']]
            results[0] = c
            del log[:]
            use_action = c['action'] or shared.count(S.members(svc, op)[c['m']][0]) > 1 and op['action']
            action = op['action'] if use_action else '' if c['empty'] else None
            env = S.request_environ(svc['version'], action, c['style'])
            content = request_bytes(svc, c)
            response = dispatcher.dispatch(SOAPRequest(env, content))
            if response.http_status_code != 200:
                raise Violation('status %r for %r\n%r\n%r' % (response.http_status_code, env, content, response.http_content))
            judge_handler(b, svc, c, log)
            judge_response(svc, c, response.http_content)
            if response.http_headers.get('Content-Type', '').split(';')[0] != S.CONTENT_TYPE[svc['version']]:
                raise Violation('headers %r' % response.http_headers)
        return len(svc['ops']) > 1 or any(c['m'] for c in case['calls'])
    finally:
        S.dispose(b)


SUBS = [
    Sub('client', client_cases, check_client, quick=700, thorough=15000, shards=4,
        rule='random service x up to three calls of the library client through WSGI; non-trivial with several operations and values on both sides'),
    Sub('wire', wire_cases, check_wire, quick=700, thorough=15000, shards=4,
        rule='random service x up to three requests in random conforming serialisations; non-trivial with several operations or a substituted element'),
]


# --- messages declared anywhere in a graph of schemas -----------------------------------------------------
@st.composite
def graph_cases(draw):
    g = draw(G.graphs())
    known = G.reachable(g)
    ops = draw(st.lists(st.sampled_from(known), min_size=1, max_size=3, unique=True))
    return {'g': g, 'ops': ops, 'out': [draw(st.sampled_from(known)) for _ in ops], 'version': draw(st.sampled_from(['11', '12'])),
            'calls': draw(st.lists(st.tuples(st.integers(0, len(g['ns'])), st.booleans(), st.sampled_from(['a', 'é<', ' x '])).map(list), min_size=1, max_size=4))}


def check_graph(case):
    from soapfish import soap, xsd
    from soapfish.core import SOAPRequest
    from soapfish.soap_dispatch import SOAPDispatcher
    g = case['g']
    schemas, classes = G.build(g)
    log = []

    def handler(i, o):
        def f(request, body):
            log.append((i, body))
            return classes[o](value=body.value)
        return f
    version = {'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[case['version']]
    methods = [xsd.Method('Op%d' % i, 'urn:op:%d' % i, 'e%d' % i, 'e%d' % o, handler(i, o)) for i, o in zip(case['ops'], case['out'])]
    service = soap.Service(name='S', targetNamespace='urn:s', location='http://x', schemas=[schemas[i] for i in g['listed']], methods=methods, version=version)
    dispatcher = SOAPDispatcher(service)
    ran = 0
    for j, with_action, text in case['calls']:
        del log[:]
        doc = ET.Element('{%s}Envelope' % S.ENVELOPE[case['version']])
        body = ET.SubElement(ET.SubElement(doc, '{%s}Body' % S.ENVELOPE[case['version']]), '{%s}e%d' % (G.namespace(g, j) if j < len(schemas) else 'urn:none', j))
        ET.SubElement(body, '{%s}value' % G.namespace(g, j) if g['qualified'] and j < len(schemas) else 'value').text = text
        env = S.request_environ(case['version'], 'urn:op:%d' % j if with_action else None)
        r = dispatcher.dispatch(SOAPRequest(env, ET.tostring(doc)))
        if j in case['ops']:
            if [(i, b.value) for i, b in log] != [(j, text)]:
                raise Violation('element e%d: handlers invoked %r\n%s' % (j, [(i, b.value) for i, b in log], r.http_content))
            o = case['out'][case['ops'].index(j)]
            header, got = S.read_envelope(case['version'], r.http_content)
            if r.http_status_code != 200 or [e.tag for e in got] != ['{%s}e%d' % (G.namespace(g, o), o)]:
                raise Violation('element e%d: answered with %r %s' % (j, r.http_status_code, r.http_content))
            ran += 1
        else:
            fault = S.read_fault(case['version'], r.http_content)
            if log or r.http_status_code != 500 or not S.is_client_fault(case['version'], fault):
                raise Violation('element e%d without operation: handlers %r, answer %r %s' % (j, log, r.http_status_code, r.http_content))
    return ran


SUBS.append(Sub('graph', graph_cases, check_graph, quick=600, thorough=12000, shards=2,
                rule='services over graphs of schemas (cycles too), requests for every element; non-trivial when a handler ran'))
