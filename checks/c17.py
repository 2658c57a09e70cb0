"""C17: faults carry their code and message to the caller unchanged."""
from hypothesis import strategies as st

from checks import c15
from harness import models as M
from harness import rewrite as R
from harness import services as S
from harness import values as V
from harness.core import Reject, Sub, Violation

TECHNIQUE = 'property-based testing: errors with random codes and messages raised in random places, read back by a reference fault reader and by the library client; random fault documents for the client'
NOTE = 'Codes and messages are not empty; the actor of errors raised by a server is dropped, as the existing tests require.'

NASTY = ['Client', 'Server', 'Client.Authentication', 'ns0:Sender', 'env:Receiver', 'ns0:MustUnderstand', 'x', '500', 'DataEncodingUnknown', 'A:b', 'ns0:Receiver']
MESSAGES = ['not found', ' leading', 'trailing ', '\ttab', 'a\nb', 'a\r\nb', 'a\rb', '<tag a="b">&amp;</tag>', ']]>', '<![CDATA[x]]>', '${host} %s {0} \\n', 'é ü', '漢字', '\U0001f600', '\x85\u2028', 'None', 'nil', 'true', '0', 'a' * 5000, '<!--c-->', '\x7f', '\ufffd', '"\'']


def texts(extra):
    return st.one_of(st.sampled_from(extra), st.text(st.characters(exclude_categories=['Cs'], exclude_characters=''.join(map(chr, [*range(9), 11, 12, *range(14, 32), 0xfffe, 0xffff]))), min_size=1, max_size=25).filter(bool),
                     st.text(' \t\n\r<>&"\'a0', min_size=1, max_size=8).filter(lambda s: s.strip()))


def message_diff(want, got):
    """White space as the XML standard leaves it; nothing else may change."""
    return None if got == want else 'got %r, expected %r' % (got, want)


PLACES = ['raise', 'return', 'response', 'mw-before', 'mw-after', 'mw-return', 'mw-response', 'mw-body']


@st.composite
def server_cases(draw):
    svc = draw(S.services(S.O_SMALL, max_ops=2, subst=False))
    c = dict(draw(S.calls(svc, S.O_SMALL)))
    return {'svc': svc, 'call': c, 'code': draw(texts(NASTY).filter(lambda s: s.strip())), 'message': draw(texts(MESSAGES)), 'actor': draw(st.sampled_from([None, None, 'urn:actor'])), 'place': draw(st.sampled_from(PLACES)),
            'fault_mw': draw(st.sampled_from([None, None, 'outer', 'inner'])), 'status': draw(st.sampled_from([200, 200, 503])),
            'content': draw(st.sampled_from([None, None, 'old', ''])), 'type': draw(st.sampled_from([None, None, 'text/html', 'application/json']))}


def check_server(case):
    from soapfish import soap
    from soapfish.core import SOAPError, SOAPResponse
    from soapfish.middlewares import ExceptionToSoapFault
    from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
    svc, c, place = case['svc'], case['call'], case['place']
    b = S.build(svc)
    try:
        op = svc['ops'][c['op']]
        h = S.out_header(svc, op)
        with_header = c['oh'] is not None and place in ('response', 'mw-response')

        def error():
            return SOAPError(case['code'], case['message'], *([case['actor']] if case['actor'] else []))

        def response():
            return SOAPResponse(error(), soap_header=S.make_header(b, h, c['oh']) if with_header else None, http_status_code=case['status'],
                                http_content=case.get('content') and case['content'].encode(), http_headers={'Content-Type': case['type']} if case.get('type') else None)

        def handler(request, body):
            if place == 'raise':
                raise error()
            return error() if place == 'return' else response() if place == 'response' else M.make(b.models, S.out_ti(op), c['out'])
        b.handlers[:] = [handler] * len(svc['ops'])

        def middleware(request, next_call):
            if place == 'mw-before':
                raise error()
            if place == 'mw-return':
                return error()
            if place == 'mw-response':
                return response()
            out = next_call(request)
            if place == 'mw-after':
                raise error()
            if place == 'mw-body':
                out.soap_body = error()
            return out
        stack = [middleware]
        if case['fault_mw']:
            stack.insert(0 if case['fault_mw'] == 'outer' else 1, ExceptionToSoapFault())
        app = WsgiSoapApplication(SOAPDispatcher(b.service, middlewares=stack))
        seen = []

        def answer(sent):
            status, headers, content = S.run_wsgi(app, S.wsgi_environ(sent), sent.body)
            seen.append((status, headers, content))
            return int(status.split()[0]), headers, content
        stub = soap.Stub(service=b.service)
        ti = S.members(svc, op)[0][1]
        header = None if c['h'] is None else S.make_header(b, S.in_header(svc, op), c['h'])
        caught = None
        with S.network(answer):
            try:
                got = stub.call(op['name'], M.make(b.models, ti, c['v']), header=header)
            except SOAPError as e:
                caught = e
        if caught is None:
            raise Violation('the client got %r instead of an error' % got)
        if len(seen) != 1:
            raise Violation('%d responses' % len(seen))
        status, headers, content = seen[0]
        if status.split()[0] != '500':
            raise Violation('status %r' % status)
        ct = dict(headers).get('Content-Type', '')
        if ct.split(';')[0] != S.CONTENT_TYPE[svc['version']]:
            raise Violation('content type %r' % ct)
        f = S.read_fault(svc['version'], content)
        for what, want, got in (('code sent', case['code'], f.code), ('message sent', case['message'], f.message), ('code caught', case['code'], caught.code), ('message caught', case['message'], caught.message)):
            d = message_diff(want, got)
            if d:
                raise Violation('%s: %s\n%r' % (what, d, content))
        nodes = S.header_nodes(svc, h, c['oh']) if with_header else []
        if [e.tag for e in f.header or ()] != [n.tag for n in nodes]:
            raise Violation('fault header holds %r, expected %r' % ([e.tag for e in f.header or ()], [n.tag for n in nodes]))
        for n, e in zip(nodes, f.header or ()):
            d = M.node_diff(n, e)
            if d:
                raise Violation('fault header: ' + d)
        return case['message'] not in ('not found', 'x') or case['code'] not in NASTY
    finally:
        S.dispose(b)


# --- faults of other implementations -------------------------------------------------------------------------
@st.composite
def client_cases(draw):
    return {'version': draw(st.sampled_from(['11', '12'])), 'code': draw(texts(NASTY).filter(lambda s: s.strip())), 'message': draw(texts(MESSAGES)), 'actor': draw(st.one_of(st.none(), st.sampled_from(['urn:actor', 'http://example.com/a?b=c&d']), texts(MESSAGES))),
            'detail': draw(st.integers(0, 4)), 'extra': draw(st.booleans()), 'header': draw(st.integers(0, 2)), 'status': draw(st.sampled_from([500, 500, 400, 200, 503])), 'lang': draw(st.sampled_from(['en', 'de', 'en-US'])),
            'steer': draw(st.lists(st.integers(0, 255), max_size=40)), 'features': draw(st.lists(st.sampled_from(['prefix', 'space', 'comment', 'text', 'quote']), max_size=5, unique=True)), 'enc': draw(st.sampled_from(['utf-8', 'utf-16', 'iso-8859-1', 'us-ascii']))}


def leaf(tag, s):
    n = M.Node(tag)
    n.text = ('String', ['s', s])
    return n


def parent(tag, *kids):
    n = M.Node(tag)
    n.kids = list(kids)
    return n


XML_LANG = 'xml:lang'


def fault_node(case):
    q = '{%s}' % S.ENVELOPE[case['version']]
    detail = [parent('{urn:d}faultcode', leaf('{urn:d}Value', 'other')), leaf('Text', 'no'), leaf('{urn:d}message', 'x')][:case['detail'] - 1]
    if case['version'] == '11':
        f = parent(q + 'Fault', leaf('faultcode', case['code']), leaf('faultstring', case['message']))
        if case['actor']:
            f.kids.append(leaf('faultactor', case['actor']))
        if case['detail']:
            f.kids.append(parent('detail', *detail))
        return f
    code = parent(q + 'Code', leaf(q + 'Value', case['code']))
    if case['extra']:
        code.kids.append(parent(q + 'Subcode', leaf(q + 'Value', 'm:Sub'), parent(q + 'Subcode', leaf(q + 'Value', 'm:Sub2'))))
    text = leaf(q + 'Text', case['message'])
    text.attrs[XML_LANG] = ('String', ['s', case['lang']])
    f = parent(q + 'Fault', code, parent(q + 'Reason', text))
    if case['extra']:
        f.kids.append(leaf(q + 'Node', 'urn:node'))
    if case['actor']:
        f.kids.append(leaf(q + 'Role', case['actor']))
    if case['detail']:
        f.kids.append(parent(q + 'Detail', *detail))
    return f


def fixed_service(version):
    from soapfish import soap, xsd

    class Ping(xsd.ComplexType):
        text = xsd.Element(xsd.String, minOccurs=0)

    class Head(xsd.ComplexType):
        Token = xsd.Element(xsd.String, minOccurs=0, namespace='urn:ping')
    schema = xsd.Schema(targetNamespace='urn:ping', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[Ping, Head], elements={'ping': xsd.Element(Ping), 'pong': xsd.Element(Ping), 'Token': xsd.Element(xsd.String)})
    method = xsd.Method(operationName='Ping', soapAction='urn:ping', function=None, input='ping', output='pong', output_header=Head)
    return Ping, soap.Service(name='P', targetNamespace='urn:ping', location='http://svc.example/ws', schemas=[schema], methods=[method],
                              version={'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[version])


def check_client(case):
    from soapfish import soap
    from soapfish.core import SOAPError
    Ping, service = fixed_service(case['version'])
    headers = None if case['header'] == 0 else [] if case['header'] == 1 else [leaf('{urn:ping}Token', 't')]
    node = S.envelope_node(case['version'], fault_node(case), headers)
    text = R.Writer(R.Choices(case['steer']), set(case['features'])).document(node)
    try:
        content = R.encode(text, case['enc'])
    except UnicodeEncodeError:
        raise Reject('encoding')
    with S.network(lambda sent: (case['status'], {'Content-Type': S.CONTENT_TYPE[case['version']]}, content)):
        try:
            got = soap.Stub(service=service).call('Ping', Ping(text='x'))
        except SOAPError as e:
            for what, want, value in (('code', case['code'], e.code), ('message', case['message'], e.message), ('actor', case['actor'], e.actor)):
                d = message_diff(want, value)
                if d:
                    raise Violation('%s: %s\n%s' % (what, d, text))
            return len(case['features']) > 1 or case['detail'] > 1
    raise Violation('the client got %r instead of an error\n%s' % (got, text))


# --- other exceptions -------------------------------------------------------------------------------------------
EXCEPTIONS = ['ValueError', 'KeyError', 'Exception', 'RuntimeError', 'Custom', 'OSError', 'UnicodeDecodeError', 'AssertionError', 'StopIteration', 'LookupError', 'NoText', 'DocumentInvalid']


@st.composite
def exception_cases(draw):
    return {'version': draw(st.sampled_from(['11', '12'])), 'exc': draw(st.sampled_from(EXCEPTIONS)), 'message': draw(st.one_of(texts(MESSAGES), st.text(max_size=10))), 'place': draw(st.sampled_from(['handler', 'mw-before', 'mw-after'])),
            'stack': draw(st.lists(st.sampled_from(['fault', 'trace', 'log', 'log-quiet', 'log-key', 'mw', 'pass']), max_size=5))}


class Custom(Exception):
    pass


class NoText(Exception):
    def __str__(self):
        return ''


def make_exception(name, message):
    from lxml import etree
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, message)
    if name == 'DocumentInvalid':
        return etree.DocumentInvalid(message)
    return {'Custom': Custom, 'NoText': NoText}.get(name) and globals()[name](message) or __import__('builtins').__dict__[name](message)


class FakeLogger:
    def __init__(self):
        self.records = []

    def exception(self, *a, **kw):
        self.records.append(a)

    def error(self, *a, **kw):
        self.records.append(a)


def xml_text(s):
    """The message with everything XML cannot carry taken out, to compare what is left."""
    return ''.join(ch for ch in s if ch in '\t\n\r' or 0x20 <= ord(ch) <= 0xd7ff or 0xe000 <= ord(ch) <= 0xfffd or ord(ch) > 0xffff)


def check_exception(case):
    from soapfish.core import SOAPRequest
    from soapfish.middlewares import ExceptionLogger, ExceptionToSoapFault
    from soapfish.soap_dispatch import SOAPDispatcher
    Ping, service = fixed_service(case['version'])
    exc = make_exception(case['exc'], case['message'])
    place = case['place']

    def handler(request, body):
        if place == 'handler':
            raise exc
        return Ping(text='y')
    service.methods[0].function = handler

    def raising(request, next_call):
        if place == 'mw-before':
            raise exc
        out = next_call(request)
        if place == 'mw-after':
            raise exc
        return out
    stack, loggers = [], []
    for name in case['stack']:
        if name in ('fault', 'trace'):
            stack.append(ExceptionToSoapFault(traceback=name == 'trace'))
        elif name.startswith('log'):
            lg = FakeLogger()
            for wrong in (KeyError, [KeyError], None):
                try:
                    ExceptionLogger(logger=lg, exceptions=wrong)
                except TypeError:
                    continue
                raise Violation('ExceptionLogger takes %r for a tuple of exceptions' % (wrong,))
            stack.append(ExceptionLogger(logger=lg, exceptions=(KeyError,) if name == 'log-key' else (Exception,), traceback=name != 'log-quiet'))
            loggers.append((len(stack) - 1, name, lg))
        elif name == 'mw':
            stack.append(raising)
        else:
            stack.append(lambda request, next_call: next_call(request))
    if place != 'handler' and raising not in stack:
        stack.append(raising)
    source = len(stack) if place == 'handler' else max(i for i, m in enumerate(stack) if m is raising)
    if place == 'mw-before':
        source = min(i for i, m in enumerate(stack) if m is raising)
    dispatcher = SOAPDispatcher(service, middlewares=stack)
    node = S.envelope_node(case['version'], parent('{urn:ping}ping', leaf('{urn:ping}text', 'x')))
    request = SOAPRequest(S.request_environ(case['version'], 'urn:ping'), M.write_node(node).encode())
    # the innermost fault middleware outside the raising place turns the exception into a fault
    catchers = [i for i, name in enumerate(case['stack']) if name in ('fault', 'trace') and i < source]
    catcher = max(catchers) if catchers else None
    if catcher is not None and place == 'mw-after' and any(i < catcher for i, m in enumerate(stack) if m is raising):
        raise Reject('raised again outside')
    caught = response = None
    try:
        response = dispatcher.dispatch(request)
    except Exception as e:
        caught = e
    for i, name, lg in loggers:
        passes = i < source and (catcher is None or i > catcher) and (name != 'log-key' or isinstance(exc, KeyError))
        if len(lg.records) != passes:
            raise Violation('%s at %d of %r logged %d times' % (name, i, case['stack'], len(lg.records)))
    if catcher is None:
        if caught is not exc:
            raise Violation('%r came out instead of %r' % (caught or response, exc))
        return bool(stack)
    if caught is not None:
        raise Violation('%r came out of %r' % (caught, case['stack'])) from caught
    if response.http_status_code != 500:
        raise Violation('status %r' % response.http_status_code)
    f = S.read_fault(case['version'], response.http_content)
    server = f.local == 'Server' if case['version'] == '11' else f.local == 'Receiver' and f.ns == S.ENVELOPE['12']
    if not server:
        raise Violation('code %r' % f.code)
    if type(exc).__name__ not in (f.message or ''):
        raise Violation('message %r does not name %s' % (f.message, type(exc).__name__))
    text = str(exc)
    if text == xml_text(text) and '\r' not in text and text not in f.message:
        raise Violation('message %r does not hold %r' % (f.message, text))
    return True


SUBS = [
    Sub('server', server_cases, check_server, quick=900, thorough=20000, shards=4,
        rule='random service x call x error raised, returned or answered at random places, through client and WSGI; non-trivial with an unusual code or message'),
    Sub('client', client_cases, check_client, quick=1500, thorough=30000, shards=2,
        rule='random fault document of either version in a random serialisation; non-trivial with rewriting features or details'),
    Sub('exceptions', exception_cases, check_exception, quick=1500, thorough=30000, shards=2,
        rule='random exception x place x stack of logging and fault middlewares; non-trivial with a middleware'),
]
