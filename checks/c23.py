"""C23: WS-Addressing headers are read, checked and answered correctly."""
import os
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from harness import pristine
from harness import services as S
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing: random WS-Addressing header blocks (present, absent, extended, invalid) against the WS-Addressing schema and a model of the values'
NOTE = 'Each block occurs at most once; values carry no outer white space.'

WSA = S.WSA
TNS = 'urn:wsa:test'
ANONYMOUS = 'http://www.w3.org/2005/08/addressing/anonymous'
URIS = ['urn:a', 'http://x.example/y?z=1&w=2', 'urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8', '/relative', 'é', 'x', 'mailto:a@b', ANONYMOUS, 'urn:a#b', 'A', 'Response', '%41', "it's", '0', 'urn:doRequest', 'http://x.example/GetRequest', 'urn:aResponse', 'urn:RequestResponse', 'http://x.example/y/', 'urn:p:DoIn']
BAD_URIS = ['http://[', '%', 'a b', ':', 'http://a:b:c/', '%zz', '']
OWN = ['Action', 'MessageID', 'To', 'ReplyTo', 'RelatesTo']
OTHER = ['From', 'FaultTo', 'RetryAfter', 'ProblemIRI', 'EndpointReference', 'Invalid', 'action', 'Address', 'Metadata']
EPRS = ['ReplyTo', 'From', 'FaultTo', 'EndpointReference']
_judge = []


def judge():
    if not _judge:
        _judge.append(etree.XMLSchema(etree.parse(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'wsa.xsd'))))
    return _judge[0]


@st.composite
def blocks(draw):
    """Header blocks: [namespace, name, how, text]."""
    names = draw(st.lists(st.sampled_from(OWN), max_size=5, unique=True))
    if draw(st.integers(0, 3)) == 0:
        names += draw(st.lists(st.sampled_from(OTHER), min_size=1, max_size=2, unique=True))
    out = []
    for n in draw(st.permutations(names)):
        text = draw(st.sampled_from(URIS if draw(st.integers(0, 9)) else BAD_URIS))
        how = 'plain'
        if n in EPRS:
            how = draw(st.sampled_from(['plain'] * 6 + ['rich', 'rich', 'empty', 'text', 'order', 'twice']))
        elif draw(st.integers(0, 12)) == 0:
            how = draw(st.sampled_from(['child', 'attr-own', 'mixed']))
        elif n == 'RelatesTo' and draw(st.booleans()):
            how = draw(st.sampled_from(['reply', 'relation']))
        if draw(st.integers(0, 3)) == 0 and how in ('plain', 'rich'):
            how += '+attr'
        if n == 'RetryAfter' and draw(st.booleans()):
            text = '30'
        out.append([WSA, n, how, text])
    for n in draw(st.lists(st.sampled_from(['Trace', 'Trace', 'Trace-bad', 'unknown', 'foreign']), max_size=2, unique=True)) if draw(st.integers(0, 2)) == 0 else ():
        if n == 'Trace-bad' and any(b[1] == 'Trace' for b in out) or n == 'Trace' and any(b[1] == 'Trace' for b in out):
            continue
        b = {'Trace': [TNS, 'Trace', 'plain', '12'], 'Trace-bad': [TNS, 'Trace', 'plain', 'twelve'], 'unknown': [TNS, 'unknown', 'plain', 'x'], 'foreign': ['urn:foreign', 'f', 'plain', 'x']}[n]
        out.insert(draw(st.integers(0, len(out))), list(b))
    return out


def element(b):
    ns, name, how, text = b
    how, _, attr = how.partition('+')
    e = ET.Element('{%s}%s' % (ns, name))
    if ns == WSA and name in EPRS:
        def sub(parent, n, t=None):
            k = ET.SubElement(parent, n)
            k.text = t
            return k
        q = '{%s}' % WSA
        if how == 'text':
            e.text = text
        elif how == 'order':
            sub(sub(e, q + 'Metadata'), '{urn:m}m', 'x')
            sub(e, q + 'Address', text)
        elif how != 'empty':
            sub(e, q + 'Address', text)
            if how == 'twice':
                sub(e, q + 'Address', text)
            if how == 'rich':
                p = sub(e, q + 'ReferenceParameters')
                sub(p, '{urn:m}key', 'k')
                sub(p, q + 'To', 'urn:other')
                sub(sub(e, q + 'Metadata'), '{urn:m}m', 'x')
                sub(e, '{urn:m}more', 'y')
    else:
        e.text = text
        if how == 'child':
            ET.SubElement(e, '{urn:m}child')
        elif how == 'mixed':
            ET.SubElement(e, '{%s}Address' % WSA).text = text
        elif how == 'attr-own':
            e.set('own', '1')
        elif how == 'reply':
            e.set('RelationshipType', WSA + '/reply')
        elif how == 'relation':
            e.set('RelationshipType', 'urn:other')
    if attr:
        e.set('{urn:m}id', '1')
        e.set('{%s}mustUnderstand' % S.ENVELOPE['11'], '1')
    return e


def expected(bs):
    """The values a handler finds in its header."""
    out = dict.fromkeys(OWN + ['Trace'])
    for ns, name, how, text in bs:
        if name in out and (ns == WSA) == (name in OWN):
            out[name] = text
    return out


def values(header, trace):
    reply = header.ReplyTo
    out = {n: getattr(header, n) for n in OWN}
    out['ReplyTo'] = None if reply is None else reply.Address
    out['Trace'] = getattr(header, 'Trace', None) if trace else None
    return out


def same(want, got, trace):
    for k, v in want.items():
        if k == 'Trace':
            v = int(v) if v is not None and trace else None
        if (v or None) != (got[k] or None):
            return '%s is %r, expected %r' % (k, got[k], v)


# --- a service with addressing -----------------------------------------------------------------------------
def service(case, handler):
    from soapfish import soap, wsa, xsd

    class Message(xsd.ComplexType):
        value = xsd.Element(xsd.String)

    schema = xsd.Schema(targetNamespace=TNS, elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[Message],
                        elements={'ask': xsd.Element(Message), 'answer': xsd.Element(Message), 'Trace': xsd.Element(xsd.Int)})

    class Extended(wsa.Header):
        SCHEMA = schema
        Trace = xsd.Element(xsd.Int, tagname='Trace', minOccurs=0, namespace=TNS)
    kind = case['kind']
    kw, mkw = {}, {}
    if kind == 'use_wsa':
        kw = {'use_wsa': True}
    elif kind == 'service':
        kw = {'input_header': Extended, 'output_header': Extended}
    elif kind == 'service+use_wsa':
        kw = {'input_header': Extended, 'output_header': Extended, 'use_wsa': True}
    elif kind == 'method':
        mkw = {'input_header': Extended, 'output_header': Extended}
    elif kind == 'method+use_wsa':
        kw = {'use_wsa': True}
        mkw = {'input_header': Extended, 'output_header': Extended}
    header = wsa.Header if kind == 'use_wsa' else Extended
    version = {'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[case['version']]
    svc = soap.Service(name='S', targetNamespace=TNS, location='http://x.example/', schemas=[schema], version=version,
                       methods=[xsd.Method('Ask', 'urn:ask', 'ask', 'answer', function=handler, **mkw)], **kw)
    return svc, Message, header, header is Extended


KINDS = ['use_wsa', 'service', 'service+use_wsa', 'method', 'method+use_wsa']


def envelope(version, bs, name, steer, features, header=True):
    q = '{%s}' % S.ENVELOPE[version]
    env = ET.Element(q + 'Envelope')
    if header:
        ET.SubElement(env, q + 'Header').extend([element(b) for b in bs])
    ET.SubElement(ET.SubElement(ET.SubElement(env, q + 'Body'), '{%s}%s' % (TNS, name)), '{%s}value' % TNS).text = 'v'
    if 'default' in features:
        # the prefixes chosen by another serialiser
        return etree.tostring(etree.fromstring(ET.tostring(env)))
    return ET.tostring(env, encoding='utf-16' if 'utf-16' in features else 'utf-8')


@st.composite
def server_cases(draw):
    requests = []
    for _ in range(draw(st.integers(1, 3))):
        requests.append({'blocks': draw(blocks()), 'header': draw(st.integers(0, 9)) > 0, 'answer': draw(st.sampled_from(['fill', 'fill', 'fill', 'own', 'fill-none', 'none', 'nothing'])),
                         'own': {n: draw(st.sampled_from(URIS)) for n in draw(st.lists(st.sampled_from(OWN), max_size=5, unique=True))}, 'features': draw(st.lists(st.sampled_from(['default', 'utf-16']), max_size=1)),
                         'trace': draw(st.sampled_from([None, 0, 7]))})
    return {'kind': draw(st.sampled_from(KINDS)), 'version': draw(st.sampled_from(['11', '12'])), 'strict': draw(st.booleans()), 'requests': requests}


def set_own(wsa, header, own):
    for k, v in own.items():
        setattr(header, k, wsa.ReplyTo(Address=v) if k == 'ReplyTo' else v)


def check_server(case):
    from soapfish import wsa
    from soapfish.core import SOAPRequest, SOAPResponse
    from soapfish.soap_dispatch import SOAPDispatcher
    log, current = [], [None]

    def handler(request, body):
        r = current[0]
        h = request.soap_header
        before = None if h is None else values(h, trace)
        log.append(before)
        out = Message(value='answered')
        if r['answer'] == 'nothing':
            return out
        if r['answer'] == 'none':
            return SOAPResponse(out)
        mine = Header()
        if trace and r['trace'] is not None:
            mine.Trace = r['trace']
        set_own(wsa, mine, r['own'])
        if r['answer'] == 'fill':
            wsa.fill_header(mine, h if before and before['Action'] else None)
        elif r['answer'] == 'fill-none':
            wsa.fill_header(mine)
        if h is not None and values(h, trace) != before:
            raise AssertionError('the header of the request was changed')
        return SOAPResponse(out, soap_header=mine)
    svc, Message, Header, trace = service(case, handler)
    dispatcher = SOAPDispatcher(svc, strict_soap_header=case['strict'])
    ran, ids = 0, set()
    for r in case['requests']:
        del log[:]
        current[0] = r
        content = envelope(case['version'], r['blocks'], 'ask', (), r['features'], r['header'])
        bs = r['blocks'] if r['header'] else []
        refused = None
        for b in bs:
            e = etree.fromstring(ET.tostring(element(b)))
            if b[0] == WSA:
                if not judge().validate(e):
                    refused = b
            elif case['strict'] and (b[1] != 'Trace' or b[3] != '12'):
                refused = b
        # a value the header class cannot hold is refused however lenient the validation is
        if refused is None and trace and any(b[1] == 'Trace' and b[3] != '12' for b in bs):
            continue
        response = dispatcher.dispatch(SOAPRequest(S.request_environ(case['version'], 'urn:ask'), content))
        if refused:
            f = S.read_fault(case['version'], response.http_content)
            if log or not S.is_client_fault(case['version'], f) or response.http_status_code != 500:
                raise Violation('the block %r: handler ran %d times, answer %r\n%r' % (refused, len(log), response.http_content, content))
            continue
        if response.http_status_code != 200 or len(log) != 1:
            raise Violation('handler ran %d times, answer %r %r\n%r' % (len(log), response.http_status_code, response.http_content, content))
        want = expected(bs)
        if not r['header']:
            if log[0] is not None:
                raise Violation('a header which was not sent: %r' % log[0])
        else:
            if log[0] is None:
                raise Violation('no header reached the handler\n%r' % content)
            d = same(want, log[0], trace)
            if d:
                raise Violation('header in the handler: %s\n%r' % (d, content))
        ran += len(bs) > 1
        # --- the answer
        head, body = S.read_envelope(case['version'], response.http_content)
        out = dict.fromkeys(OWN + ['Trace'])
        if r['answer'] not in ('none', 'nothing'):
            out.update(r['own'])
            out['Trace'] = None if r['trace'] is None or not trace else str(r['trace'])
            if r['answer'].startswith('fill'):
                out['To'] = ANONYMOUS
                out['MessageID'] = ids
                if r['answer'] == 'fill' and want['Action'] and r['header']:
                    out['Action'] = want['Action'] + 'Response'
                    out['RelatesTo'] = want['MessageID']
        judge_blocks(head, out, ids, response.http_content)
    return ran


def judge_blocks(head, out, ids, content):
    got = dict.fromkeys(out)
    for e in head or ():
        name = e.tag.split('}')[1]
        if e.tag != ('{%s}%s' % (TNS if name == 'Trace' else WSA, name)) or got.get(name, '') is not None:
            raise Violation('unexpected block %s: %r' % (e.tag, content))
        if name != 'Trace' and not judge().validate(etree.fromstring(ET.tostring(e))):
            raise Violation('invalid block: %s\n%r' % (judge().error_log, content))
        if name == 'ReplyTo':
            if [k.tag for k in e] != ['{%s}Address' % WSA]:
                raise Violation('ReplyTo holds %r' % [k.tag for k in e])
            e = e[0]
        got[name] = e.text or ''
    for k, v in out.items():
        if k == 'MessageID' and v is ids:
            if not got[k] or got[k] in ids:
                raise Violation('message id %r is not unique: %r' % (got[k], content))
            ids.add(got[k])
        elif (got[k] or None) != (v or None):
            raise Violation('%s of the answer is %r, expected %r: %r' % (k, got[k], v, content))


# --- client ------------------------------------------------------------------------------------------------
@st.composite
def client_cases(draw):
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        bs = [b for b in draw(blocks()) if b[0] != WSA or b[2] in ('plain', 'rich', 'plain+attr', 'rich+attr', 'reply', 'relation')]
        calls.append({'own': {n: draw(st.sampled_from(URIS)) for n in draw(st.lists(st.sampled_from(OWN), max_size=5, unique=True))}, 'fill': draw(st.booleans()), 'trace': draw(st.sampled_from([None, 0, 7])),
                      'blocks': [b for b in bs if b[3] != 'twelve' and b[3] not in BAD_URIS], 'header': draw(st.integers(0, 5)) > 0, 'send': draw(st.integers(0, 5)) > 0,
                      'features': draw(st.lists(st.sampled_from(['default', 'utf-16']), max_size=1))})
    return {'kind': draw(st.sampled_from(KINDS)), 'version': draw(st.sampled_from(['11', '12'])), 'calls': calls}


def check_client(case):
    from soapfish import soap, wsa
    svc, Message, Header, trace = service(case, None)
    stub = soap.Stub(service=svc)
    ids = set()
    for c in case['calls']:
        header = None
        out = dict.fromkeys(OWN + ['Trace'])
        if c['send']:
            header = Header()
            set_own(wsa, header, c['own'])
            out.update(c['own'])
            if trace and c['trace'] is not None:
                header.Trace = c['trace']
                out['Trace'] = str(c['trace'])
            if c['fill']:
                wsa.fill_header(header)
                out['To'] = ANONYMOUS
                out['MessageID'] = ids
        content = envelope(case['version'], c['blocks'], 'answer', (), c['features'], c['header'])
        with S.network(lambda sent: (200, {}, content)) as log:
            got = stub.call('Ask', Message(value='v'), header=header)
        head, body = S.read_envelope(case['version'], log[0].body)
        judge_blocks(head, out, ids, log[0].body)
        if got.soap_body.value != 'v':
            raise Violation('answer %r' % got.soap_body)
        if not c['header']:
            if got.soap_header is not None:
                raise Violation('a header which was not sent')
            continue
        if got.soap_header is None:
            raise Violation('no header returned: %r' % content)
        d = same(expected(c['blocks']), values(got.soap_header, trace), trace)
        if d:
            raise Violation('header returned: %s\n%r' % (d, content))
    return any(len(c['blocks']) > 1 for c in case['calls'])


# --- identifiers -------------------------------------------------------------------------------------------
def some_ids(n):
    from soapfish import wsa
    out = []
    for _ in range(n):
        h = wsa.Header()
        wsa.fill_header(h)
        out.append(h.MessageID)
    return out


def id_cases():
    return st.fixed_dictionaries({'sizes': st.lists(st.integers(1, 40), min_size=1, max_size=4), 'here': st.integers(1, 40)})


def check_ids(case):
    ids = some_ids(case['here'])
    for n in case['sizes']:
        out = pristine.run(some_ids, n)
        if out[0] != 'value':
            raise Violation('%s\n%s' % out[1:])
        ids += out[1]
    if len(set(ids)) != len(ids):
        raise Violation('message ids are not unique: %r' % sorted(i for i in set(ids) if ids.count(i) > 1)[:5])
    for i in ids:
        e = etree.Element('{%s}MessageID' % WSA)
        e.text = i
        if not i or not judge().validate(e):
            raise Violation('message id %r' % i)
    return len(case['sizes']) > 1


SUBS = [
    Sub('server', server_cases, check_server, quick=1500, thorough=40000, shards=4,
        rule='up to three requests with drawn header blocks; non-trivial when a handler ran with more than one block'),
    Sub('client', client_cases, check_client, quick=1000, thorough=20000, shards=3,
        rule='up to three calls with drawn headers on both sides; non-trivial when a response has more than one block'),
    Sub('ids', id_cases, check_ids, quick=100, thorough=2000, shards=1,
        rule='identifiers made in this and in pristine processes; non-trivial with several processes'),
]

