"""C25: the schema and WSDL object models lose nothing they understand."""
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing: random XSD and WSDL documents from a table of the supported constructs, with foreign content mixed in, read, written and read again; compared with the document without the foreign content'
NOTE = 'Constructs are compared in order within each kind (the library writes one kind after the other); prefixes of QNames are text here.'

X = 'http://www.w3.org/2001/XMLSchema'
W = 'http://schemas.xmlsoap.org/wsdl/'
P = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
S, I, B, M, U = 'text', 'int', 'bool', 'max', 'use'
FACETS = ['minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength', 'whiteSpace', 'pattern']

# type -> attributes {name: (kind, required)}, children [(namespace, tag, type, many)]
OPT = lambda *names: {n: (S, False) for n in names}  # noqa: E731
REQ = lambda *names: {n: (S, True) for n in names}  # noqa: E731
XSD_TYPES = {
    'schema': ({**OPT('targetNamespace'), 'elementFormDefault': ('form', False)}, [(X, 'import', 'import', True), (X, 'include', 'include', True), (X, 'simpleType', 'simpleType', True), (X, 'group', 'group', True),
               (X, 'attributeGroup', 'attributeGroup', True), (X, 'complexType', 'complexType', True), (X, 'element', 'element', True)]),
    'import': (OPT('schemaLocation', 'namespace'), []),
    'include': (OPT('schemaLocation'), []),
    'simpleType': (OPT('name'), [(X, 'restriction', 'restriction', False), (X, 'list', 'list', False)]),
    'list': ({}, []),
    'restriction': (REQ('base'), [(X, 'enumeration', 'value', True)] + [(X, f, 'value', False) for f in FACETS]),
    'value': (REQ('value'), []),
    'element': ({**OPT('name', 'type', 'ref', 'substitutionGroup'), 'minOccurs': (I, False), 'maxOccurs': (M, False), 'nillable': (B, False)}, [(X, 'simpleType', 'simpleType', False), (X, 'complexType', 'complexType', False)]),
    'complexType': (OPT('name'), [(X, 'sequence', 'particles', False), (X, 'choice', 'particles', False), (X, 'all', 'particles', False), (X, 'complexContent', 'complexContent', False), (X, 'attribute', 'attribute', True),
                    (X, 'attributeGroup', 'attributeGroupRef', True)]),
    'particles': ({}, [(X, 'element', 'element', True)]),
    'attribute': (OPT('name', 'ref', 'type', 'use'), [(X, 'simpleType', 'simpleType', False)]),
    'attributeGroup': (REQ('name'), [(X, 'attribute', 'attribute', True)]),
    'attributeGroupRef': (REQ('ref'), []),
    'complexContent': ({'mixed': (B, False)}, [(X, 'extension', 'extension', False), (X, 'restriction', 'extension', False)]),
    'extension': (REQ('base'), [(X, 'sequence', 'particles', False), (X, 'attribute', 'attribute', True), (X, 'attributeGroup', 'attributeGroupRef', True)]),
    'group': (REQ('name'), [(X, 'sequence', 'particles', False)]),
}


def wsdl_types(version):
    p = P[version]
    doc = (W, 'documentation', 'documentation', False)
    enc = {**OPT('namespace', 'encodingStyle'), 'use': (U, True)}
    io = ({**OPT('name', 'message')}, [doc, (p, 'body', 'soapbody', False), (p, 'header', 'soapheader', True)])
    t = {
        'definitions': (OPT('name', 'targetNamespace'), [(W, 'import', 'wimport', True), (W, 'types', 'types', False), (W, 'message', 'message', True), (W, 'portType', 'portType', True), (W, 'binding', 'binding', True),
                        (W, 'service', 'service', True), doc]),
        'wimport': (REQ('namespace', 'location'), []),
        'types': ({}, [(X, 'schema', 'schema', True), doc]),
        'documentation': (None, []),
        'message': (REQ('name'), [(W, 'part', 'part', True), doc]),
        'part': ({**REQ('name'), **OPT('element', 'type')}, []),
        'portType': (REQ('name'), [(W, 'operation', 'operation', True), doc]),
        'operation': (REQ('name'), [(W, 'input', 'input', False), (W, 'output', 'output', False), (W, 'fault', 'fault', True), doc, (p, 'operation', 'soapoperation', False)]),
        'input': io, 'output': io,
        'fault': ({**REQ('name'), **OPT('message')}, [doc, (p, 'fault', 'soapfault', False)]),
        'binding': (REQ('name', 'type'), [(W, 'operation', 'operation', True), doc, (p, 'binding', 'soapbinding', False)]),
        'service': (REQ('name'), [(W, 'port', 'port', True), doc]),
        'port': (REQ('name', 'binding'), [doc, (p, 'address', 'soapaddress', False)]),
        'soapbinding': ({'style': ('style', False), **REQ('transport')}, []),
        'soapoperation': ({**OPT('soapAction'), 'style': ('style?', False), **({'soapActionRequired': (B, False)} if version == '12' else {})}, []),
        'soapbody': ({**OPT('parts'), **enc}, []),
        'soapheader': ({**REQ('message', 'part'), **enc}, [(p, 'headerfault', 'soapheaderfault', True)]),
        'soapheaderfault': ({**REQ('message', 'part'), **enc}, []),
        'soapfault': ({**REQ('name'), **enc}, []),
        'soapaddress': (REQ('location'), []),
    }
    return {**XSD_TYPES, **t}


VALUES = {
    S: st.one_of(st.sampled_from(['a', 'tns:person', 'xs:string', 'b', 'urn:x', 'required', '0', 'a b']), st.sampled_from(['', ' a ', '\n', '\t', 'é', '<&">\'', 'nil', '${host}', '%', 'true', '0001', '\U0001f600', ']]>'])),
    I: st.one_of(st.sampled_from(['0', '1', '2', '007', '10000000000']), st.integers(0, 10**6).map(str), st.integers(0, 100).map(lambda n: str(2**n))),
    M: st.one_of(st.sampled_from(['unbounded', '0', '1', '5']), st.integers(0, 10**6).map(str), st.integers(0, 100).map(lambda n: str(2**n)), st.integers(1, 100).map(lambda n: str(2**n - 1))),
    B: st.sampled_from(['true', 'false', '1', '0']),
    U: st.sampled_from(['literal', 'encoded']),
    'form': st.sampled_from(['qualified', 'unqualified']),
    'style': st.sampled_from(['document', 'rpc']), 'style?': st.sampled_from(['document', 'rpc']),
}


@st.composite
def nodes(draw, types, tname, ns, tag, depth=0):
    """[ns, tag, type, attributes, children, noise]; a child of None is a place for noise only."""
    attrs, kids = types[tname]
    out = {}
    for a, (kind, required) in (attrs or {}).items():
        if required or draw(st.booleans()):
            out[a] = draw(VALUES[kind])
    text = draw(st.sampled_from(['some text', ' <b>&amp;</b> ', 'é'])) if attrs is None else None
    children = []
    for kns, ktag, ktype, many in kids:
        p = 2 if depth < 3 else 4 if depth < 6 else 9
        for _ in range(draw(st.integers(0, 2 if depth < 4 else 1)) if many and draw(st.integers(0, p)) <= 1 else int(not many and draw(st.integers(0, p)) == 0)):
            children.append(draw(nodes(types, ktype, kns, ktag, depth + 1)))
    if draw(st.booleans()):
        children = draw(st.permutations(children))
    noise = draw(st.lists(st.tuples(st.sampled_from(NOISE), st.integers(0, 5)).map(list), max_size=2)) if attrs is not None and draw(st.integers(0, 2)) == 0 else []
    return [ns, tag, tname, out, children, noise, text]


NOISE = ['attr', 'foreign-attr', 'annotation', 'foreign', 'any', 'comment', 'space', 'unqualified', 'other-soap']


def cases(kind):
    @st.composite
    def strategy(draw):
        version = draw(st.sampled_from(['11', '12']))
        types = wsdl_types(version)
        root = draw(nodes(types, 'schema', X, 'schema') if kind == 'xsd' else nodes(types, 'definitions', W, 'definitions'))
        return {'version': version, 'root': root}
    return strategy


def to_xml(types, node, version):
    ns, tag, tname, attrs, children, noise, text = node
    e = ET.Element('{%s}%s' % (ns, tag), dict(attrs))
    e.text = text
    known = list(types[tname][0] or {})
    kids = [to_xml(types, c, version) for c in children]
    known_kids = [(k[0], k[1]) for k in types[tname][1]]
    for what, i in noise:
        name = (known or ['name'])[i % len(known or ['name'])]
        kns, ktag = (known_kids or [(X, 'element')])[i % len(known_kids or [1])]
        if what == 'attr':
            e.set(['id', 'block', 'final', 'abstract', 'fixed', 'lang'][i], 'noise')
            continue
        if what == 'foreign-attr':
            e.set('{urn:foreign}' + name, 'noise')
            continue
        if what == 'annotation':
            k = ET.Element('{%s}annotation' % X)
            ET.SubElement(ET.SubElement(k, '{%s}appinfo' % X), '{%s}%s' % (kns, ktag), {name: 'noise'})
            ET.SubElement(k, '{%s}documentation' % X).text = 'noise'
        elif what == 'foreign':
            # names are matched without their namespaces where the model declares none
            k = ET.Element('{urn:foreign}' + ['more', 'Policy', 'bindings', 'x', 'value', 'content'][i], {name: 'noise'})
            ET.SubElement(k, '{%s}%s' % (kns, ktag), {name: 'noise'})
        elif what == 'any':
            k = ET.Element('{%s}%s' % (X, ['any', 'anyAttribute', 'key', 'notation', 'unique', 'union'][i]), {name: 'noise'})
            ET.SubElement(k, '{%s}%s' % (kns, ktag), {name: 'noise'})
        elif what == 'comment':
            k = ET.Comment('<noise name="noise"/>')
        elif what == 'unqualified':
            k = ET.Element('more', {name: 'noise'})
            ET.SubElement(k, ktag, {name: 'noise'})
        elif what == 'other-soap':
            # the same construct of another protocol
            names = [t for n, t in known_kids if n == P[version]]
            if not names:
                continue
            k = ET.Element('{%s}%s' % ([P['12' if version == '11' else '11'], 'http://schemas.xmlsoap.org/wsdl/http/'][i % 2], names[i // 2 % len(names)]),
                           {'name': 'noise', 'use': 'literal', 'location': 'noise', 'transport': 'noise', 'style': 'rpc'})
        else:
            e.text = (e.text or '') + '\n  '
            continue
        kids.insert(i % (len(kids) + 1), k)
    e.extend(kids)
    return e


def canonical(kind, value):
    if value is None:
        return None
    if kind in (I, M) and value != 'unbounded':
        return int(value)
    if kind == B:
        return value in ('true', '1')
    return value


DEFAULTS = {'form': 'unqualified', 'style': 'document'}


def compare(types, node, el, path):
    """The element holds exactly what the node does."""
    ns, tag, tname, attrs, children, noise, text = node
    path += '/' + tag
    if el.tag != '{%s}%s' % (ns, tag):
        return '%s: element %s' % (path, el.tag)
    known = types[tname][0]
    extra = set(el.attrib) - set(known or {})
    if extra:
        return '%s: attributes %r' % (path, sorted(extra))
    for a, (kind, _) in (known or {}).items():
        want, got = attrs.get(a, DEFAULTS.get(kind)), el.get(a, DEFAULTS.get(kind))
        if canonical(kind, want) != canonical(kind, got):
            return '%s/@%s: %r, expected %r' % (path, a, got, want)
    if known is None and (el.text or '') != (text or ''):
        return '%s: text %r, expected %r' % (path, el.text, text)
    if known is not None and (el.text or '').strip() or any((k.tail or '').strip() for k in el):
        return '%s: text %r' % (path, el.text)
    kids = list(el)
    for kns, ktag, ktype, many in types[tname][1]:
        want = [c for c in children if (c[0], c[1]) == (kns, ktag)]
        got = [k for k in kids if k.tag == '{%s}%s' % (kns, ktag)]
        kids = [k for k in kids if k.tag != '{%s}%s' % (kns, ktag)]
        if len(want) != len(got):
            return '%s: %d elements %s, expected %d' % (path, len(got), ktag, len(want))
        for c, k in zip(want, got):
            d = compare(types, c, k, path)
            if d:
                return d
    if kids:
        return '%s: unexpected elements %r' % (path, [k.tag for k in kids])


def size(node):
    return 1 + sum(map(size, node[4]))


def check(kind):
    def f(case):
        from soapfish import namespaces, wsdl11, wsdl12, xsd, xsdspec
        types = wsdl_types(case['version'])
        node = case['root']
        doc = ET.tostring(to_xml(types, node, case['version']), encoding='utf-8')
        cls, tag, ns = (xsdspec.Schema, 'schema', namespaces.xsd) if kind == 'xsd' else ({'11': wsdl11, '12': wsdl12}[case['version']].Definitions, 'definitions', namespaces.wsdl)
        model = cls.parsexml(doc)
        out = model.xml(tag, namespace=ns, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
        d = compare(types, node, ET.fromstring(out), '')
        if d:
            raise Violation('%s\nread:\n%s\nwritten:\n%s' % (d, doc.decode(), out.decode()))
        again = cls.parsexml(out).xml(tag, namespace=ns, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
        d = compare(types, node, ET.fromstring(again), '')
        if d:
            raise Violation('read again: %s\n%s\n%s' % (d, out.decode(), again.decode()))
        return size(node) > 4
    return f


SUBS = [
    Sub('xsd', cases('xsd'), check('xsd'), quick=1500, thorough=40000, shards=4, rule='random XSD documents; non-trivial with more than four constructs'),
    Sub('wsdl', cases('wsdl'), check('wsdl'), quick=1500, thorough=40000, shards=4, rule='random WSDL documents for SOAP 1.1 and 1.2; non-trivial with more than four constructs'),
]
