"""C22: the client sends exactly the request the service describes and returns the response it gets."""
import base64
import os
import re

from hypothesis import strategies as st
from lxml import etree

from harness import models as M
from harness import rewrite as R
from harness import services as S
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing: random services, stubs and calls over a recorded network, requests judged by a reference reader and XML Schema, responses written by an independent serialiser'
NOTE = 'Passwords are strings; locations carry no credentials; placeholders are written ${scheme} and ${host}; responses conform to the output declared.'

FEATURES = ['prefix', 'space', 'comment', 'text', 'nil', 'quote']
EXPLICIT = ['http://given.example/', 'https://given.example:8443/a?b=c&d=e', 'http://given.example/${host}', 'http://given.example/a%20b/c']
TEMPLATES = ['${scheme}://${host}/a$b', 'http://svc.example/$', '${scheme}://${host}/a$$b', '${scheme}://${host}/$${host}', '${scheme}://${host}/$1', '${scheme}://${host}/x${', 'http://svc.example/${other}/${host}']
USERS = [None, '', 'user', 'u:'[:1], 'Jos\xe9', 'a b', '0', ' user', 'user\t']
PASSWORDS = ['secret', '', 'p:w', 'a b', '\xe9', '0', '"']


@st.composite
def stubs(draw):
    return {'user': draw(st.sampled_from(USERS)), 'password': draw(st.sampled_from(PASSWORDS)), 'location': draw(st.sampled_from(['template', 'template', 'template', 'str', 'callable', 'callable-context'])),
            'explicit': draw(st.sampled_from(EXPLICIT)), 'scheme': draw(st.sampled_from([None, 'http', 'https'])), 'host': draw(st.sampled_from([None, 'other.example', 'localhost:8080', '[::1]:81'])),
            'service': draw(st.sampled_from(['class', 'argument', 'both'])), 'keywords': draw(st.booleans())}


@st.composite
def cases(draw):
    svc = draw(S.services(subst=False))
    svc['location'] = draw(st.sampled_from(S.LOCATIONS + TEMPLATES))
    for op in svc['ops']:
        if op['action'] == '' and draw(st.booleans()):
            op['action'] = None
    who = draw(st.lists(stubs(), min_size=1, max_size=2))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        c = draw(S.calls(svc))
        c['stub'] = draw(st.integers(0, len(who) - 1))
        c['how'] = draw(st.sampled_from(['assign', 'ctor']))
        c['steer'] = draw(st.lists(st.integers(0, 255), max_size=30))
        c['features'] = draw(st.lists(st.sampled_from(FEATURES), max_size=5, unique=True))
        c['enc'] = draw(st.sampled_from(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'plain']))
        c['answer'] = draw(st.sampled_from(['response'] * 6 + ['fault']))
        c['status'] = draw(st.sampled_from([200] * 4 + [201, 202, 203, 400, 401, 404, 429, 500, 502, 503, 504])) if c['answer'] == 'response' else draw(st.sampled_from([500] * 3 + [200, 400, 503]))
        c['type'] = draw(st.sampled_from(['', '; charset=utf-8', '; charset="utf-8"', None]))
        calls.append(c)
    return {'svc': svc, 'stubs': who, 'calls': calls}


def make_stub(b, s, decoy):
    from soapfish import soap
    attrs = {}
    if s['service'] != 'argument':
        attrs['SERVICE'] = b.service if s['service'] == 'class' else decoy
    if s['scheme']:
        attrs['SCHEME'] = s['scheme']
    if s['host']:
        attrs['HOST'] = s['host']
    cls = type('Client', (soap.Stub,), attrs)
    kw = {}
    if s['service'] != 'class':
        kw['service'] = b.service
    context = {'scheme': s['scheme'] or 'http', 'host': s['host'] or 'www.example.net'}
    template = b.svc['location']
    if s['location'] == 'template':
        # a dollar sign is written twice, but one that starts no placeholder stands for itself
        where = re.sub(r'\$(\$|\{scheme\}|\{host\})', lambda m: '$' if m.group(1) == '$' else context[m.group(1)[1:-1]], template)
    elif s['location'] == 'str':
        where = kw['location'] = s['explicit']
    elif s['location'] == 'callable':
        where = s['explicit']
        kw['location'] = lambda t, c: s['explicit']
    else:
        where = 'http://computed.example/%d/%s/%s' % (len(template), context['scheme'], context['host'].replace('[', '').replace(']', ''))
        kw['location'] = lambda t, c: 'http://computed.example/%d/%s/%s' % (len(t), c['scheme'], c['host'].replace('[', '').replace(']', ''))
    for wrong in (5, b'http://x.example/', ['http://x.example/']):
        try:
            cls(**dict(kw, location=wrong))
        except TypeError:
            continue
        raise Violation('a stub takes %r for its location' % (wrong,))
    if s['keywords']:
        if s['user'] is not None:
            kw.update(username=s['user'], password=s['password'])
        return cls(**kw), where
    return cls(s['user'], s['password'], **kw), where


def header(sent, name):
    v = sent.headers.get(name)
    return v.decode('latin-1') if isinstance(v, bytes) else v


def judge_request(svc, c, s, where, sent, schema):
    import requests
    op = svc['ops'][c['op']]
    want = requests.Request('POST', where).prepare().url
    if sent.method != 'POST' or sent.url != want:
        raise Violation('%s %s, expected POST %s' % (sent.method, sent.url, want))
    auth = header(sent, 'Authorization')
    expected = None
    if s['user']:
        expected = 'Basic ' + base64.b64encode(('%s:%s' % (s['user'], s['password'])).encode('latin-1')).decode()
    if auth != expected:
        raise Violation('credentials %r, expected %r' % (auth, expected))
    # --- action and content type of the version
    ct = header(sent, 'Content-Type') or ''
    media, params = parse_type(ct)
    if media != S.CONTENT_TYPE[svc['version']]:
        raise Violation('content type %r' % ct)
    if params.get('charset', 'utf-8').lower() != 'utf-8':
        raise Violation('content type %r' % ct)
    if svc['version'] == '11':
        action = header(sent, 'SOAPAction')
        if action is None or unquoted(action) != (op['action'] or ''):
            raise Violation('action %r, expected %r' % (action, op['action']))
    else:
        action = params.get('action')
        if (action or '') != (op['action'] or ''):
            raise Violation('content type %r, expected the action %r' % (ct, op['action']))
    length = header(sent, 'Content-Length')
    if length != str(len(sent.body)):
        raise Violation('content length %r of %d bytes' % (length, len(sent.body)))
    # --- the envelope
    head, body = S.read_envelope(svc['version'], sent.body)
    tag, ti = S.members(svc, op)[0]
    if len(body) != 1:
        raise Violation('body holds %d elements: %r' % (len(body), sent.body))
    d = M.node_diff(S.body_node(svc, tag, ti, c['v']), body[0])
    if d:
        raise Violation('request body differs: %s\n%s' % (d, sent.body.decode()))
    nodes = [] if c['h'] is None else S.header_nodes(svc, S.in_header(svc, op), c['h'])
    if [e.tag for e in head or ()] != [n.tag for n in nodes]:
        raise Violation('request header holds %r, expected %r' % ([e.tag for e in head or ()], [n.tag for n in nodes]))
    for n, e in zip(nodes, head or ()):
        d = M.node_diff(n, e)
        if d:
            raise Violation('request header differs: %s\n%s' % (d, sent.body.decode()))
    root = etree.fromstring(sent.body)
    for e in [k for k in root.iter(etree.Element) if k.getparent() is not None and k.getparent().getparent() is root]:
        if not schema.validate(etree.fromstring(etree.tostring(e, with_tail=False))):
            raise Violation('%s is not valid: %s\n%s' % (e.tag, schema.error_log, sent.body.decode()))


def unquoted(v):
    return v[1:-1] if len(v) > 1 and v[0] == v[-1] == '"' else v


def parse_type(value):
    """Media type and parameters of a Content-Type (RFC 9110)."""
    media, params, i = value.split(';')[0].strip().lower(), {}, value.find(';')
    while 0 <= i < len(value):
        i += 1
        eq = value.find('=', i)
        if eq < 0:
            if value[i:].strip():
                raise Violation('content type %r' % value)
            break
        name = value[i:eq].strip().lower()
        i = eq + 1
        if value[i:i + 1] == '"':
            end, out = i + 1, ''
            while end < len(value) and value[end] != '"':
                if value[end] == '\\':
                    end += 1
                out += value[end:end + 1]
                end += 1
            if end >= len(value):
                raise Violation('content type %r' % value)
            params[name] = out
            i = value.find(';', end)
        else:
            end = value.find(';', i)
            params[name] = value[i:end if end >= 0 else None].strip()
            i = end
    return media, params


def response_bytes(svc, c):
    op = svc['ops'][c['op']]
    headers = None if c['oh'] is None else S.header_nodes(svc, S.out_header(svc, op), c['oh'])
    node = S.envelope_node(svc['version'], S.body_node(svc, S.out_tag(svc, op), S.out_ti(op), c['out']), headers)
    text = R.Writer(R.Choices(c['steer']), set(c['features'])).document(node)
    return text.encode() if c['enc'] == 'plain' else R.encode(text, c['enc'])


FAULT = {'11': '<e:Envelope xmlns:e="%s"><e:Body><e:Fault><faultcode>e:Server</faultcode><faultstring>went wrong</faultstring></e:Fault></e:Body></e:Envelope>',
         '12': '<e:Envelope xmlns:e="%s"><e:Body><e:Fault><e:Code><e:Value>e:Receiver</e:Value></e:Code><e:Reason><e:Text xml:lang="en">went wrong</e:Text></e:Reason></e:Fault></e:Body></e:Envelope>'}


def check(case):
    from soapfish import soap
    from soapfish.core import SOAPError
    os.environ['NETRC'] = '/nonexistent'
    svc = case['svc']
    b = S.build(svc)
    try:
        schema = S.judge(svc)
        decoy = soap.Service(name='Decoy', targetNamespace='urn:decoy', location='http://decoy.example/', schemas=[], methods=[])
        made = [make_stub(b, s, decoy) for s in case['stubs']]
        seen = 0
        for c in case['calls']:
            op = svc['ops'][c['op']]
            s = case['stubs'][c['stub']]
            stub, where = made[c['stub']]
            content = response_bytes(svc, c) if c['answer'] == 'response' else (FAULT[svc['version']] % S.ENVELOPE[svc['version']]).encode()
            head = None if c['h'] is None else S.make_header(b, S.in_header(svc, op), c['h'])
            message = M.make(b.models, S.members(svc, op)[0][1], c['v'], c['how'])
            headers = {} if c['type'] is None else {'Content-Type': S.CONTENT_TYPE[svc['version']] + c['type']}
            got = fault = None
            with S.network(lambda sent: (c['status'], headers, content)) as log:
                try:
                    got = stub.call(op['name'], message, header=head) if head is not None or c['how'] == 'ctor' else stub.call(op['name'], message)
                except SOAPError as e:
                    fault = e
            if len(log) != 1:
                raise Violation('%d requests were made' % len(log))
            judge_request(svc, c, s, where, log[0], schema)
            if c['answer'] == 'fault':
                if fault is None or fault.message != 'went wrong':
                    raise Violation('the fault gave %r %r' % (got, fault))
                continue
            if fault is not None:
                raise Violation('the response gave %r\n%r' % (fault, content))
            d = M.diff(b.models, M.all_fields(svc['spec'], S.out_ti(op)), c['out'], got.soap_body)
            if d:
                raise Violation('other values returned: %s\n%r' % (d, content))
            if not isinstance(got.soap_body, b.models.classes[S.out_ti(op)]):
                raise Violation('%r returned' % got.soap_body)
            if c['oh'] is not None:
                h = S.out_header(svc, op)
                if got.soap_header is None:
                    raise Violation('no header returned: %r' % content)
                d = S.header_diff(b, h, c['oh'], got.soap_header)
                if d:
                    raise Violation('another header returned: %s\n%r' % (d, content))
            elif got.soap_header is not None:
                raise Violation('a header was returned which was not sent')
            seen += 1
        return seen and len(svc['ops']) > 1
    finally:
        S.dispose(b)


SUBS = [
    Sub('calls', cases, check, quick=1500, thorough=30000, shards=8,
        rule='random service x up to two stubs x up to four calls; non-trivial when a response was returned and the service has several operations'),
]

