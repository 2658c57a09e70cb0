"""Service specifications (JSON), builders to soapfish services, reference envelopes, and transports."""
import contextlib
import io
import itertools
import sys
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from . import models as M
from . import refxsd
from . import rewrite as R
from .core import HarnessError, Violation

ENVELOPE = {'11': 'http://schemas.xmlsoap.org/soap/envelope/', '12': 'http://www.w3.org/2003/05/soap-envelope'}
CONTENT_TYPE = {'11': 'text/xml', '12': 'application/soap+xml'}
WSA = 'http://www.w3.org/2005/08/addressing'

OP_TAGS = ['getPerson', 'get', 'getp', 'GetPerson', 'message', 'submit-order', 'a.b', 'find', 'request', 'Find', 'echo', 'value', 'name', 'class']
OUT_TAGS = ['getPersonResponse', 'answer', 'Result', 'response', 'body', 'x-y', 'detail', 'output', 'resp', 'Out']
HDR_TAGS = ['Version', 'Auth', 'trace-id', 'Locale', 'InputVersion', 'Token']
ACTIONS = ['urn:a', 'urn:a/b', 'urn:A', 'http://example.com/svc/find', 'http://example.com/svc/find2', 'echo', 'Echo', 'get person', 'a;b=c', "it's", 'http://example.com/?q=1&r=2', 'x']


@st.composite
def action_lists(draw):
    """Distinct SOAP actions: unrelated ones or ones which nearly equal one another."""
    if draw(st.booleans()):
        return draw(st.permutations(ACTIONS))
    a = draw(st.sampled_from(['http://example.com/svc/find', 'urn:svc:find', 'find', 'http://example.com/', 'a b', '/x']))
    near = [a, a + '/', a + '#', a + '?', a.upper(), a.title(), a[:-1], a[1:], a + a, a + '1', a.replace(' ', '%20'),
            a.replace(' ', '+'), a.replace('example.com', 'example.com:80'), a.replace('http:', 'https:'), a.split('/')[-1], a.split(':')[-1], a + '.', 'x' + a, a[::-1]]
    near = [x for x in dict.fromkeys(x.strip() for x in near) if x and x != a]
    some = [a] + draw(st.lists(st.sampled_from(near), min_size=5, max_size=5, unique=True))
    return some if draw(st.booleans()) else [some[1], some[0], *some[2:]]


OP_NAMES = ['FindPerson', 'find', 'Echo', 'submitOrder', 'op_1', 'Op2', 'echo', 'Cancel']
LOCATIONS = ['http://svc.example/ws', '${scheme}://${host}/ws', 'https://svc.example:8443/a/b?c=d', '${scheme}://${host}/a/${host}', 'http://svc.example/']

O = M.Options(content=False, elem_ns=False, xsd_valid=True, max_types=4, long=True)
O_SMALL = M.Options(content=False, elem_ns=False, xsd_valid=True, max_types=3, max_fields=3)


def class_tag(name):
    """The element name the library documents for messages given by class."""
    return name[0].lower() + name[1:]


@st.composite
def services(draw, o=None, headers=True, max_ops=4, classes=True, subst=True, versions=('11', '12'), specs=None):
    o = o or O
    spec = draw((specs or M.specs)(o))
    spec['reg'] = True
    n = len(spec['types'])
    in_tags = draw(st.permutations(OP_TAGS))
    out_tags = draw(st.permutations(OUT_TAGS))
    actions = draw(action_lists())
    names = draw(st.permutations(OP_NAMES))
    spec['elements'], spec['tops'] = {}, []
    ops = []
    for i in range(draw(st.integers(1, max_ops))):
        op = {'name': names[i], 'action': actions[i] if draw(st.integers(0, 9)) else ''}
        if classes and draw(st.integers(0, 6)) == 0:
            op['in'] = {'cls': draw(st.integers(0, n - 1))}
            op['action'] = actions[i]
            spec['elements'][class_tag(spec['types'][op['in']['cls']]['name'])] = op['in']['cls']
        else:
            op['in'] = {'tag': in_tags[i], 'ti': draw(st.integers(0, n - 1))}
            spec['elements'][in_tags[i]] = op['in']['ti']
        if classes and draw(st.integers(0, 6)) == 0:
            op['out'] = {'cls': draw(st.integers(0, n - 1))}
            spec['elements'][class_tag(spec['types'][op['out']['cls']]['name'])] = op['out']['cls']
        else:
            op['out'] = {'tag': out_tags[i], 'ti': draw(st.integers(0, n - 1))}
            spec['elements'][out_tags[i]] = op['out']['ti']
        ops.append(op)
    # elements may be declared in another schema than their types
    spec['where'] = {tag: 0 for op in ops for tag in (op['in'].get('tag'), op['out'].get('tag')) if tag and spec['types'][spec['elements'][tag]]['s'] == 1 and draw(st.integers(0, 3)) == 0}
    svc = {'spec': spec, 'ops': ops, 'version': draw(st.sampled_from(list(versions))), 'name': draw(st.sampled_from(['Svc', 'My_Service', 'S2', 'Quote'])),
           'tns': draw(st.sampled_from(['urn:svc', 'http://example.com/svc?a=1&b=2', spec['schemas'][0]])), 'location': draw(st.sampled_from(LOCATIONS)),
           'headers': [], 'svc_in': None, 'svc_out': None, 'all': draw(st.booleans())}
    if headers and draw(st.booleans()):
        tags = draw(st.permutations(HDR_TAGS))
        for h in range(draw(st.integers(1, 2))):
            fields = []
            for j in range(draw(st.integers(1, 3))):
                if spec['tops'] and draw(st.integers(0, 4)) == 0:
                    t = draw(st.sampled_from(spec['tops']))
                    if t['tag'] in [f['tag'] for f in fields]:
                        continue
                else:
                    t = {'tag': tags[h * 3 + j], 'type': draw(M.typeref(spec, n, o)), 'nil': False}
                    spec['tops'].append(t)
                fields.append({'name': 'h%d' % j, 'kind': 'elem', 'tag': t['tag'], 'type': t['type'], 'nil': False, 'min': draw(st.integers(0, 1))})
            svc['headers'].append({'name': 'Header%d' % h, 'fields': fields})
        pick = st.sampled_from([None] + list(range(len(svc['headers']))))
        for op in ops:
            op['inh'], op['outh'] = draw(pick), draw(pick)
        svc['svc_in'], svc['svc_out'] = draw(pick), draw(pick)
    if subst and draw(st.integers(0, 2)) == 0:
        heads = [op['in'] for op in ops if 'tag' in op['in'] and M.declared_in(spec, op['in']['tag'], op['in']['ti']) == 0]
        for k in range(draw(st.integers(1, 2))) if heads else ():
            head = draw(st.sampled_from(heads))
            # of the same type: generated schemas flatten derived types, which cannot take the place of their base then
            ti = head['ti']
            tag = 'member%d' % k
            spec['tops'].append({'tag': tag, 'type': {'k': 'c', 'i': ti}, 'nil': False, 'subst': draw(st.sampled_from(['', 'sns:'])) + head['tag']})
            if draw(st.integers(0, 2)) == 0:
                heads.append({'tag': tag, 'ti': ti})
    return svc


def members(svc, op):
    """Every element (tag, type) which can be the body of a request for the operation, the declared one first."""
    spec = svc['spec']
    if 'cls' in op['in']:
        return [(class_tag(spec['types'][op['in']['cls']]['name']), op['in']['cls'])]
    out = [(op['in']['tag'], op['in']['ti'])]
    for tag, _ in out:
        for t in spec['tops']:
            if t.get('subst') and t['subst'].split(':')[-1] == tag:
                out.append((t['tag'], t['type']['i']))
    return out


def out_ti(op):
    return op['out'].get('ti', op['out'].get('cls'))


def out_tag(svc, op):
    return op['out'].get('tag') or class_tag(svc['spec']['types'][op['out']['cls']]['name'])


def in_header(svc, op):
    return op['inh'] if op.get('inh') is not None else svc['svc_in']


def out_header(svc, op):
    return op['outh'] if op.get('outh') is not None else svc['svc_out']


@st.composite
def header_values(draw, svc, h, o=None):
    """A value for the header blocks: every required block is there."""
    o = o or O
    out = {}
    for f in svc['headers'][h]['fields']:
        v = draw(M.field_value(svc['spec'], f, o, True, 0))
        if v is not None:
            out[f['name']] = v
    return ['c', out]


@st.composite
def calls(draw, svc, o=None, subst=True):
    """One call: operation, element used, values sent and answered."""
    o = o or O
    i = draw(st.integers(0, len(svc['ops']) - 1))
    op = svc['ops'][i]
    els = members(svc, op)
    m = draw(st.integers(0, len(els) - 1)) if subst else 0
    c = {'op': i, 'm': m, 'v': draw(M.instances(svc['spec'], els[m][1], o, full=True)), 'out': draw(M.instances(svc['spec'], out_ti(op), o, full=True)), 'h': None, 'oh': None}
    if in_header(svc, op) is not None and draw(st.integers(0, 3)):
        c['h'] = draw(header_values(svc, in_header(svc, op), o))
    if out_header(svc, op) is not None and draw(st.integers(0, 3)):
        c['oh'] = draw(header_values(svc, out_header(svc, op), o))
    return c


# --- building ----------------------------------------------------------------------------------------
class BuiltService:
    """handlers: [callable(request, body)] per operation, replaced freely between requests."""


def build(svc, handlers=None, **kw):
    from soapfish import soap, xsd
    spec = svc['spec']
    b = BuiltService()
    b.svc = svc
    b.models = M.build(spec, **kw)
    b.headers = []
    for h in svc['headers']:
        attrs = {}
        for f in h['fields']:
            tr = f['type']
            t = b.models.classes[tr['i']] if tr['k'] == 'c' else b.models.simple[tr['i']] if tr['k'] == 'n' else M.V.build_simple(tr, xsd)
            attrs[f['name']] = xsd.Element(t, minOccurs=f['min'], tagname=f['tag'], namespace=spec['schemas'][0])
        cls = type(h['name'], (xsd.ComplexType,), attrs)
        cls.SCHEMA = b.models.schema
        b.headers.append(cls)
    b.handlers = handlers or [None] * len(svc['ops'])

    def caller(i):
        return lambda request, body: b.handlers[i](request, body)
    pick = lambda h: None if h is None else b.headers[h]  # noqa: E731
    b.methods = [xsd.Method(
        operationName=op['name'], soapAction=op['action'], function=caller(i),
        input=op['in'].get('tag') or b.models.classes[op['in']['cls']],
        output=op['out'].get('tag') or b.models.classes[op['out']['cls']],
        input_header=pick(op.get('inh')), output_header=pick(op.get('outh'))) for i, op in enumerate(svc['ops'])]
    b.service = soap.Service(
        name=svc['name'], targetNamespace=svc['tns'], location=svc['location'], methods=b.methods,
        schemas=b.models.schemas if svc['all'] else [b.models.schema],
        version={'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[svc['version']],
        input_header=pick(svc['svc_in']), output_header=pick(svc['svc_out']))
    return b


def dispose(b):
    M.dispose(b.models)


def make_header(b, h, v):
    cls = b.headers[h]
    obj = cls()
    for f in b.svc['headers'][h]['fields']:
        if f['name'] in v[1]:
            x = v[1][f['name']]
            setattr(obj, f['name'], M.make(b.models, f['type']['i'], x) if x[0] == 'c' else M.V.to_py(x))
    return obj


def header_diff(b, h, v, obj):
    return M.diff(b.models, b.svc['headers'][h]['fields'], v, obj)


# --- reference envelopes ------------------------------------------------------------------------------------
def body_node(svc, tag, ti, v):
    spec = svc['spec']
    # the element is declared in the schema of its type, substitutable ones in the first
    return M.ref_render(spec, ti, v, tag, spec['schemas'][element_schema(svc, tag)], spec['efd'], True)


def element_schema(svc, tag):
    spec = svc['spec']
    if tag in spec['elements']:
        return M.declared_in(spec, tag, spec['elements'][tag])
    return 0


def header_nodes(svc, h, v):
    spec = svc['spec']
    ns = spec['schemas'][0]
    holder = M.Node('x')
    M.ref_fields(spec, svc['headers'][h]['fields'], v, holder, ns, spec['efd'], True)
    for f, kid in zip([f for f in svc['headers'][h]['fields'] if f['name'] in v[1]], holder.kids):
        kid.tag = M.q(ns, f['tag'])
    return holder.kids


def envelope_node(version, body, headers=None):
    env = M.Node('{%s}Envelope' % ENVELOPE[version])
    if headers is not None:
        h = M.Node('{%s}Header' % ENVELOPE[version])
        h.kids = headers
        env.kids.append(h)
    b = M.Node('{%s}Body' % ENVELOPE[version])
    b.kids = [body] if body is not None else []
    env.kids.append(b)
    return env


def write_envelope(node, steer=(), features=()):
    return R.Writer(R.Choices(list(steer)), set(features)).document(node)


def request_environ(version, action, style='plain', extra=None):
    """WSGI environment of a POST with the action sent in one of the usual ways."""
    env = {'REQUEST_METHOD': 'POST', 'QUERY_STRING': '', 'SERVER_NAME': 'svc.example', 'SERVER_PORT': '80', 'HTTP_HOST': 'svc.example', 'wsgi.url_scheme': 'http'}
    ct = CONTENT_TYPE[version]
    if version == '11':
        env['CONTENT_TYPE'] = ct + '; charset=utf-8'
        if action is not None:
            value = action if style == 'bare' else '"%s"' % action
            env['SOAPACTION' if style == 'short' else 'HTTP_SOAPACTION'] = value
    else:
        env['CONTENT_TYPE'] = ct
        if style == 'charset':
            env['CONTENT_TYPE'] += '; charset=utf-8'
        if action is not None:
            env['CONTENT_TYPE'] += ('; action=%s' if style == 'bare' and action.isalnum() else '; action="%s"') % action
    env.update(extra or {})
    return env


def read_envelope(version, content):
    """(header elements or None, body elements) of a response, which must be one envelope of the version."""
    if not isinstance(content, bytes):
        raise Violation('response content is %r' % (content,))
    try:
        env = ET.fromstring(content)
    except ET.ParseError as e:
        raise Violation('response is not XML: %s\n%r' % (e, content))
    ns = ENVELOPE[version]
    kids = list(env)
    if env.tag != '{%s}Envelope' % ns:
        raise Violation('response root is %s' % env.tag)
    header = None
    if kids and kids[0].tag == '{%s}Header' % ns:
        header = list(kids.pop(0))
    if [k.tag for k in kids] != ['{%s}Body' % ns]:
        raise Violation('envelope holds %r' % [k.tag for k in env])
    for text in [env.text, kids[0].text] + [k.tail for k in env] + [k.tail for k in kids[0]]:
        if (text or '').strip():
            raise Violation('text in the envelope: %r' % text)
    return header, list(kids[0])


class FaultInfo:
    pass


def read_fault(version, content):
    """The fault of a response: code (local part and namespace, when it is a name), message, actor and header elements."""
    header, body = read_envelope(version, content)
    ns = ENVELOPE[version]
    if len(body) != 1 or body[0].tag != '{%s}Fault' % ns:
        raise Violation('not a fault: %r' % content)
    f = FaultInfo()
    f.header = header
    el = etree.fromstring(content).find('{%s}Body' % ns)[0]

    def text(path):
        found = el.findall(path)
        if len(found) > 1:
            raise Violation('%s occurs more than once: %r' % (path, content))
        return found[0].text or '' if found else None
    if version == '11':
        f.code, f.message, f.actor = text('faultcode'), text('faultstring'), text('faultactor')
        code_el = el.find('faultcode')
        allowed = ['faultcode', 'faultstring', 'faultactor', 'detail']
    else:
        q = '{%s}' % ns
        f.code, f.message, f.actor = text('%sCode/%sValue' % (q, q)), text('%sReason/%sText' % (q, q)), text('%sRole' % q)
        code_el = el.find('%sCode/%sValue' % (q, q))
        allowed = [q + x for x in ('Code', 'Reason', 'Node', 'Role', 'Detail')]
        t = el.find('%sReason/%sText' % (q, q))
        if t is not None and not t.get('{http://www.w3.org/XML/1998/namespace}lang'):
            raise Violation('Text without xml:lang: %r' % content)
    tags = [k.tag for k in el]
    if tags != [a for a in allowed if a in tags] or f.code is None:
        raise Violation('fault holds %r' % tags)
    prefix, _, local = f.code.rpartition(':')
    f.local = local
    f.ns = code_el.nsmap.get(prefix or None)
    return f


def is_client_fault(version, f):
    if version == '11':
        return f.local == 'Client'
    return f.local == 'Sender' and f.ns == ENVELOPE['12']


# --- reference judgement -------------------------------------------------------------------------------------
def judge(svc):
    """The reference XML Schema for bodies and header blocks."""
    try:
        return refxsd.xml_schema(svc['spec'])
    except etree.XMLSchemaParseError as e:
        raise HarnessError('reference schema: %s' % e)


# --- transports ------------------------------------------------------------------------------------------------
class Sent:
    """A request as handed to the network."""


@contextlib.contextmanager
def network(answer):
    """Every HTTP request made with requests goes to answer(Sent) -> (status, headers, content)."""
    import requests
    from requests.adapters import HTTPAdapter
    log = []

    def send(self, request, **kw):
        s = Sent()
        s.method, s.url, s.headers = request.method, request.url, request.headers
        body = request.body
        s.body = b'' if body is None else body.encode() if isinstance(body, str) else body if isinstance(body, bytes) else b''.join(body)
        log.append(s)
        status, headers, content = answer(s)
        r = requests.Response()
        r.status_code = status
        r.headers = requests.structures.CaseInsensitiveDict(headers)
        r.raw = io.BytesIO(content)
        r._content = content
        r.url = request.url
        r.request = request
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.reason = ''
        return r
    old = HTTPAdapter.send
    HTTPAdapter.send = send
    try:
        yield log
    finally:
        HTTPAdapter.send = old


def wsgi_environ(sent):
    from urllib.parse import urlsplit
    u = urlsplit(sent.url)
    env = {'REQUEST_METHOD': sent.method, 'QUERY_STRING': u.query, 'SCRIPT_NAME': '', 'PATH_INFO': u.path, 'SERVER_NAME': u.hostname or '', 'SERVER_PORT': str(u.port or 80),
           'SERVER_PROTOCOL': 'HTTP/1.1', 'HTTP_HOST': u.netloc}
    for k, v in sent.headers.items():
        v = v.decode('latin-1') if isinstance(v, bytes) else v
        k = k.upper().replace('-', '_')
        env[k if k in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + k] = v
    return env


def run_wsgi(app, environ, content, validate=True):
    """(status line, headers, content) of a WSGI application, which must obey the protocol."""
    from wsgiref.util import setup_testing_defaults
    from wsgiref.validate import validator
    env = dict(environ)
    trailer = b'NOT PART OF THE REQUEST'
    stream = Bounded(content + trailer, len(content))
    env.setdefault('CONTENT_LENGTH', str(len(content)))
    env['wsgi.input'] = stream
    env['wsgi.errors'] = io.StringIO()
    setup_testing_defaults(env)
    got = {}

    def start_response(status, headers, exc_info=None):
        got['status'], got['headers'] = status, list(headers)
        return lambda data: None
    out = (validator(app) if validate else app)(env, start_response)
    try:
        body = b''.join(out)
    finally:
        if hasattr(out, 'close'):
            out.close()
    if stream.over:
        raise Violation('the application read %d bytes beyond the declared content length' % stream.over)
    return got['status'], got['headers'], body


class Bounded(io.BytesIO):
    """A socket-like stream which notices reads beyond the request."""

    def __init__(self, data, limit):
        super().__init__(data)
        self.limit, self.over = limit, 0

    def read(self, *a):
        data = super().read(*a)
        self.over = max(self.over, self.tell() - self.limit)
        return data
