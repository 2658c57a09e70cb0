"""C16: an invalid request is answered by a fault and runs no handler."""
import copy
import xml.parsers.expat

from hypothesis import strategies as st
from lxml import etree

from checks import c15
from harness import models as M
from harness import services as S
from harness.core import Reject, Sub, Violation

TECHNIQUE = 'structure-aware fuzzing: valid requests mutated as trees and as bytes, judged by an independently written XML Schema, expat and the routing table'
NOTE = 'A handler may only run when the reference schema accepts body and header blocks and the action or root element names its operation; otherwise the answer has to be one client fault. Envelope elements are recognised by local name, as documented by the tests.'

SOAP_NS = list(S.ENVELOPE.values())
TEXTS = ['', ' ', 'x', '1', '-1', '+1', '0', '1.5', '1e5', 'INF', 'NaN', 'true', '1 ', '\n1', '9' * 40, '-' + '9' * 30, '0.' + '1' * 30, '2001-02-30', '2001-02-28', '10000-01-01', '0000-01-01', '-0001-01-01',
         '2001-01-01T24:00:00', '2001-01-01T10:00:00+14:00', '2001-01-01T10:00:00-14:00', '2001-01-01T00:00:60', '10:00:00.1234567', '10:00:00Z', '2001-01-01Z', '2001-01-01+13:59', 'P1D', '-P1Y', 'a b', 'é', '\U0001f600', '\x7f', 'nil', 'None',
         '٣', '１', '1_0', ' 1', '0x1', '.5', '5.', '--1', 'TRUE', 'A' * 300]
ATTRS = ['alpha', 'class', 'name', '{http://www.w3.org/2001/XMLSchema-instance}nil', '{http://www.w3.org/2001/XMLSchema-instance}type', '{http://www.w3.org/2001/XMLSchema-instance}schemaLocation',
         '{http://www.w3.org/XML/1998/namespace}lang', '{http://schemas.xmlsoap.org/soap/envelope/}mustUnderstand', 'xmlnsx', 'id']
ATTR_VALUES = ['', 'x', '1', 'true', 'false', '0', 'urn:a b', 'xs:string', 'false ', ' true']
KINDS = ['del', 'dup', 'ren', 'ns', 'text', 'attr', 'delattr', 'swap', 'wrap', 'insert', 'nil', 'empty', 'cmt', 'move', 'tail', 'body', 'block', 'block', 'wsa', 'wsa', 'unbody']


@st.composite
def tree_mutation(draw):
    # mostly near the body, where the outcome is not obvious
    return [draw(st.sampled_from(KINDS)), draw(st.integers(0, 60)), draw(st.integers(0, 60)), draw(st.integers(0, 60))]


BYTES = [b'<', b'>', b'&', b'"', b"'", b'/', b'\x00', b'\xff', b'\xc3', b'\xc3\xa9', b'&#0;', b'&#x41;', b'&lt;', b'&undefined;', b'<!--', b'-->', b'<![CDATA[', b']]>', b'<?x?>', b'<a>', b'</a>', b'<a/>', b' ', b'\n', b'x:', b':', b'=',
         b'xmlns=""', b' xmlns:q="urn:q"', b'\xef\xbb\xbf', b'\xef\xbf\xbe', b'1', b'\x0b', b'\xed\xa0\x80']
PROLOGS = [b'', b'<?xml version="1.0"?>', b'<?xml version="1.0" encoding="utf-8"?>', b'<?xml version="1.1"?>', b'<?xml version="1.0" encoding="iso-8859-1"?>', b'<?xml version="1.0" encoding="utf-16"?>',
           b'<?xml version="1.0" encoding="no-such"?>', b'\xef\xbb\xbf', b' ', b'\n<?xml version="1.0"?>', b'<!DOCTYPE e>', b'<!DOCTYPE e [<!ENTITY lt2 "&#38;#60;"><!ENTITY x "y">]>', b'<!DOCTYPE e [<!ENTITY undefined SYSTEM "file:///nonexistent">]>',
           b'<!DOCTYPE e [<!ENTITY undefined "text">]>', b'<!DOCTYPE e [<!ENTITY undefined "<b/>">]>', b'<!DOCTYPE e SYSTEM "file:///nonexistent.dtd">', b'<!-- c -->', b'text', b'<?pi?>']


@st.composite
def byte_mutation(draw):
    k = draw(st.sampled_from(['cut', 'cut', 'ins', 'ins', 'del', 'rep', 'flip', 'prolog', 'trail', 'repeat']))
    return [k, draw(st.integers(0, 10**6)), draw(st.integers(0, 60)), draw(st.integers(0, 60))]


ACTIONS = ['right', 'right', 'right', 'none', 'none', 'none', 'empty', 'other', 'unknown', 'near', 'odd']
ODD = ['', ';', 'application/soap+xml', 'application/soap+xml; action', 'application/soap+xml; action=', 'application/soap+xml;action="', 'application/soap+xml; action="\\"', 'text/xml', 'application/soap+xml; action="a";b', 'APPLICATION/SOAP+XML; action=x', '\x00', 'é']


@st.composite
def cases(draw):
    svc = draw(S.services(S.O_SMALL))
    c = dict(draw(S.calls(svc, S.O_SMALL)), style=draw(st.sampled_from(['plain', 'bare', 'short'])), steer=draw(st.lists(st.integers(0, 255), max_size=10)),
             features=draw(st.lists(st.sampled_from(['prefix', 'space', 'comment']), max_size=2, unique=True)))
    tree = draw(st.lists(tree_mutation(), max_size=4))
    raw = draw(st.lists(byte_mutation(), max_size=2)) if not tree or draw(st.integers(0, 3)) == 0 else []
    return {'svc': svc, 'call': c, 'tree': tree, 'raw': raw, 'strict': draw(st.integers(0, 3)) > 0, 'action': draw(st.sampled_from(ACTIONS)), 'k': draw(st.integers(0, 50))}


def vocabulary(svc):
    spec = svc['spec']
    names = ['Envelope', 'Header', 'Body', 'Fault', 'message', 'zz']
    for t in spec['types'] + spec['groups']:
        for f in t['fields']:
            names.append(f.get('tag') or f['name'])
    names += list(spec['elements']) + [t['tag'] for t in spec['tops']]
    return names, [''] + spec['schemas'] + SOAP_NS + ['urn:other', S.WSA]


def mutate(root, m, svc):
    kind, a, b, c = m
    names, spaces = vocabulary(svc)
    els = [e for e in root.iter(etree.Element)]
    e = els[a % len(els)]
    parent = e.getparent()
    ns = etree.QName(e).namespace
    if kind == 'del' and parent is not None:
        parent.remove(e)
    elif kind == 'dup' and parent is not None:
        e.addnext(copy.deepcopy(e))
    elif kind == 'ren':
        e.tag = M.q(ns, names[b % len(names)])
    elif kind == 'ns':
        e.tag = M.q(spaces[b % len(spaces)], etree.QName(e).localname)
    elif kind == 'text':
        leaves = [x for x in els if not len(x)] or els
        leaves[a % len(leaves)].text = TEXTS[b % len(TEXTS)]
    elif kind == 'tail':
        e.tail = ['', 'x', ' \n'][b % 3] if parent is not None else None
    elif kind == 'attr':
        e.set((ATTRS + names[6:])[b % (len(ATTRS) + len(names) - 6)], (ATTR_VALUES + TEXTS)[c % (len(ATTR_VALUES) + len(TEXTS))])
    elif kind == 'delattr':
        with_attrs = [x for x in els if x.attrib]
        if with_attrs:
            e = with_attrs[a % len(with_attrs)]
            e.attrib.pop(sorted(e.attrib)[b % len(e.attrib)])
    elif kind == 'swap':
        many = [x for x in els if len(x) > 1]
        if many:
            e = many[a % len(many)]
            kids = list(e)
            e.insert(b % len(kids), kids[c % len(kids)])
    elif kind == 'wrap' and parent is not None:
        w = etree.Element(M.q([ns, spaces[c % len(spaces)]][c % 2], names[b % len(names)]))
        parent.replace(e, w)
        w.append(e)
    elif kind == 'insert':
        n = etree.Element(M.q([ns, ns, spaces[c % len(spaces)]][c % 3], names[b % len(names)]))
        n.text = TEXTS[c % len(TEXTS)]
        e.insert(c % (len(e) + 1), n)
    elif kind == 'nil':
        e.set('{%s}nil' % M.XSI, ['true', '1', 'false', 'x'][b % 4])
        if c % 2:
            e.text = None
            for k in list(e):
                e.remove(k)
    elif kind == 'empty':
        e.text = None
        for k in list(e):
            e.remove(k)
    elif kind == 'cmt':
        e.insert(b % (len(e) + 1), [etree.Comment('c'), etree.ProcessingInstruction('p', 'i')][c % 2])
    elif kind == 'move' and parent is not None:
        target = els[b % len(els)]
        if e is not target and e not in list(target.iterancestors()):
            target.insert(c % (len(target) + 1), e)
    elif kind == 'body':  # a bare element of the service as another body
        body = [x for x in els if etree.QName(x).localname == 'Body']
        if body:
            names = list(svc['spec']['elements']) + [t['tag'] for t in svc['spec']['tops']]
            n = etree.Element(M.q(spaces[1 + b % len(svc['spec']['schemas'])], names[a % len(names)]))
            n.text = TEXTS[c % len(TEXTS)]
            if c % 3 == 0:
                for k in list(body[0]):
                    body[0].remove(k)
            body[0].insert(c % 2, n)
    elif kind in ('block', 'wsa'):  # another header block
        header = [x for x in els if etree.QName(x).localname == 'Header']
        if not header:
            header = [etree.Element('{%s}Header' % S.ENVELOPE[svc['version']])]
            root.insert(0, header[0])
        names = list(svc['spec']['elements']) + [t['tag'] for t in svc['spec']['tops']] + ['MessageID', 'Action', 'ReplyTo', 'Unknown']
        spaces = svc['spec']['schemas'] + [S.WSA, '', 'urn:other']
        if kind == 'wsa':
            names, spaces = ['MessageID', 'Unknown', 'Action', 'ReplyTo', 'action', 'FaultTo', 'RelatesTo'], [S.WSA]
        n = etree.Element(M.q(spaces[b % len(spaces)], names[a % len(names)]))
        n.text = TEXTS[c % len(TEXTS)]
        header[0].append(n)
    elif kind == 'unbody':
        for x in els:
            if etree.QName(x).localname == ['Body', 'Header'][b % 2] and x.getparent() is not None:
                x.getparent().remove(x)


def mutate_bytes(data, m):
    kind, a, b, c = m
    i = a % (len(data) + 1)
    if kind == 'cut':
        return data[:i]
    if kind == 'ins':
        return data[:i] + BYTES[b % len(BYTES)] + data[i:]
    if kind == 'del':
        return data[:i] + data[i + 1 + b:]
    if kind == 'rep':
        return data[:i] + BYTES[b % len(BYTES)] + data[i + 1:]
    if kind == 'flip':
        return data[:i] + bytes([data[i] ^ (1 << b % 8)]) + data[i + 1:] if i < len(data) else data
    if kind == 'prolog':
        return PROLOGS[b % len(PROLOGS)] + data
    if kind == 'trail':
        return data + (BYTES + PROLOGS)[b % (len(BYTES) + len(PROLOGS))]
    if kind == 'repeat':
        return data[:i] + data[max(0, i - b):i] * (1 + c % 3) + data[i:]


def request_of(case):
    svc, c = case['svc'], case['call']
    op = svc['ops'][c['op']]
    content = c15.request_bytes(svc, dict(c, enc='plain'))
    if case['tree']:
        root = etree.fromstring(content)
        for m in case['tree']:
            try:
                mutate(root, m, svc)
            except ValueError:  # lxml refuses to build it
                raise Reject('not a tree')
        content = etree.tostring(root)
    for m in case['raw']:
        content = mutate_bytes(content, m)
    known = [o['action'] for o in svc['ops']]
    k = case['k']
    action = {'right': op['action'], 'none': None, 'empty': '', 'other': known[k % len(known)], 'unknown': ['urn:unknown', 'x y', '*', 'é', op['name']][k % 5],
              'near': [known[k % len(known)] + 'x', known[k % len(known)].upper() + '/', known[k % len(known)][:-1]][k % 3], 'odd': None}[case['action']]
    env = S.request_environ(svc['version'], action, c['style'])
    if case['action'] == 'odd':
        env['CONTENT_TYPE'] = ODD[k % len(ODD)]
    return env, content, action


class Ran(Exception):
    """Another handler than expected ran, for which there is no answer at hand."""


def local(e):
    return etree.QName(e).localname


def acceptable(svc, content, action, strict, i, judge, odd):
    """None when running handler i on this request is right, the reason why it is not otherwise."""
    parser = etree.XMLParser(resolve_entities=True, no_network=True, load_dtd=False)
    try:
        text = content.decode('utf-8')
        # Which other characters names may hold is a matter of the edition of the XML specification.
        plain = 'encoding' not in text[:80] and text.isascii()
    except UnicodeDecodeError:
        plain = False
    if plain:
        p = xml.parsers.expat.ParserCreate('utf-8')
        try:
            p.Parse(content, True)
        except xml.parsers.expat.ExpatError as e:
            return 'the content is not well-formed: %s' % e
    try:
        root = etree.fromstring(content, parser)
    except etree.XMLSyntaxError as e:
        return 'the content is not well-formed: %s' % e
    bodies = [e for e in root.iterchildren(etree.Element) if local(e) == 'Body']
    firsts = [next(b.iterchildren(etree.Element), None) for b in bodies]
    firsts = [f for f in firsts if f is not None]
    if not firsts:
        return 'there is no body'
    valid = [f for f in firsts if judge.validate(etree.ElementTree(copy.deepcopy(f)))]
    if not valid:
        return 'the body is not valid: %s' % judge.error_log.last_error
    op = svc['ops'][i]
    if not odd:
        if action:
            if action not in [o['action'] for o in svc['ops']]:
                return 'the action %r is unknown' % action
            if op['action'] != action:
                return 'the action %r belongs to another operation' % action
        elif not any(local(f) in [t for t, _ in S.members(svc, op)] for f in valid):
            return 'the root element is not one of operation %s' % op['name']
    headers = [e for e in root.iterchildren(etree.Element) if local(e) == 'Header']
    if len(headers) == 1 and not M_nil(headers[0]):
        for block in headers[0].iterchildren(etree.Element):
            ns = etree.QName(block).namespace
            if ns == S.WSA:
                if not wsa_schema().validate(etree.ElementTree(copy.deepcopy(block))):
                    return 'the WS-Addressing block is not valid'
            elif strict and not judge.validate(etree.ElementTree(copy.deepcopy(block))):
                return 'the header block %s is not valid' % block.tag
    return None


def M_nil(e):
    return (e.get('{%s}nil' % M.XSI) or '').strip() in ('true', '1')


def wsa_schema():
    from soapfish import wsa
    return etree.XMLSchema(etree.parse(wsa.SCHEMA_IMPORT_PATH))


def check(case):
    from soapfish.core import SOAPRequest, SOAPResponse
    from soapfish.soap_dispatch import SOAPDispatcher
    svc = case['svc']
    env, content, action = request_of(case)
    b = S.build(svc)
    try:
        ran = []

        def make(i):
            def handler(request, body):
                ran.append(i)
                if i != case['call']['op']:
                    raise Ran
                return M.make(b.models, S.out_ti(svc['ops'][i]), case['call']['out'])
            return handler
        b.handlers[:] = [make(i) for i in range(len(svc['ops']))]
        dispatcher = SOAPDispatcher(b.service, strict_soap_header=case['strict'])
        try:
            response = dispatcher.dispatch(SOAPRequest(env, content))
        except Ran:
            response = SOAPResponse(None)
        if ran and ran[-1] != case['call']['op']:
            response = None
        elif not isinstance(response, SOAPResponse):
            raise Violation('the response is %r' % response)
        ct = response.http_headers.get('Content-Type', '') if response is not None else S.CONTENT_TYPE[svc['version']]
        if ct.split(';')[0] != S.CONTENT_TYPE[svc['version']]:
            raise Violation('content type %r' % ct)
        if not ran:
            f = S.read_fault(svc['version'], response.http_content)
            if response.http_status_code != 500:
                raise Violation('a fault with status %r' % response.http_status_code)
            if not S.is_client_fault(svc['version'], f):
                raise Violation('fault code %r: %s\n%r\n%r' % (f.code, f.message, env, content))
            if not case['tree'] and not case['raw'] and (action or '') == svc['ops'][case['call']['op']]['action'] and action:
                raise Violation('a valid request was refused: %s' % f.message)
            try:
                etree.fromstring(content)
                return True
            except etree.XMLSyntaxError:
                return False
        if len(ran) > 1:
            raise Violation('handlers %r ran for one request' % ran)
        reason = acceptable(svc, content, action, case['strict'], ran[0], S.judge(svc), case['action'] == 'odd')
        if reason:
            raise Violation('the handler of operation %s ran although %s\n%r\n%r' % (svc['ops'][ran[0]]['name'], reason, env, content))
        if response is None:
            return bool(case['tree'] or case['raw'])
        if response.http_status_code != 200:
            raise Violation('status %r' % response.http_status_code)
        S.read_envelope(svc['version'], response.http_content)
        return bool(case['tree'] or case['raw'])
    finally:
        S.dispose(b)


SUBS = [
    Sub('mutants', cases, check, quick=2600, thorough=60000, shards=8,
        rule='random service x valid request x up to four tree and two byte mutations x SOAP action; non-trivial when the mutated request is well-formed or accepted'),
]
