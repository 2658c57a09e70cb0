"""C08: the generated XSD is a valid schema, declares what it must, and accepts what the model renders."""
import os
import tempfile
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from harness import models as M
from harness import refxsd
from harness.core import HarnessError, Sub, Violation

TECHNIQUE = 'property-based: random schemas and instances, rendered documents validated by libxml2 against the generated XSD and the library validator'
NOTE = 'Schemas over nesting, inheritance, choices, named and inline simple types, facets, lists, nil, attributes, imports and includes; the judge is libxml2.'
ASSUMPTIONS = ['values are valid for the XSD built-in of the same name (a String-based AnyURI, QName, Duration... is not checked by the library itself)',
               'xsd.Content and per-element namespaces are outside: the library does not write them into schemas']

XS = '{%s}' % refxsd.XS
O = M.Options(content=False, elem_ns=False, xsd_valid=True, empty=True)


def valid_under_reference(case, xml):
    return refxsd.xml_schema(case['spec']).validate(etree.fromstring(xml))


@st.composite
def cases(draw):
    spec = draw(M.specs(O))
    spec['reg'] = True
    if draw(st.integers(0, 5)) == 0 and not any(f['kind'] not in ('attr', 'ref') and f['type']['k'] in 'cl' and f['type']['i'] == spec['root']
                                               for t in spec['types'] for f in t['fields']) \
            and not any(t['base'] == spec['root'] for t in spec['types']):
        spec['anon'] = True
    return {'spec': spec, 'v': draw(M.instances(spec, spec['root'], O, full=True)),
            'order': draw(st.booleans()), 'how': draw(st.sampled_from(['assign', 'ctor'])), 'via': draw(st.sampled_from(['validator', 'parsexml', 'files', 'both', 'twice']))}


def qn(el, value):
    prefix, local = value.split(':')
    return '{%s}%s' % (el.nsmap[prefix], local)


def check_declares(spec, b, s, xsd):
    """The schema document declares every listed type and element under the target namespace and form default."""
    if xsd.tag != XS + 'schema' or xsd.get('targetNamespace') != spec['schemas'][s]:
        raise Violation('root %s, targetNamespace %r' % (xsd.tag, xsd.get('targetNamespace')))
    if (xsd.get('elementFormDefault') or 'unqualified') != spec['efd']:
        raise Violation('elementFormDefault %r for %r' % (xsd.get('elementFormDefault'), spec['efd']))
    schema = b.schemas[s]
    for kind, want in (('complexType', len(schema.complexTypes)), ('simpleType', len(schema.simpleTypes))):
        got = [e.get('name') for e in xsd.findall(XS + kind)]
        if len(set(got)) != want or len(got) != want:
            raise Violation('%s: %r declared, %d expected' % (kind, got, want))
    got = [e.get('name') for e in xsd.findall(XS + 'element')]
    if sorted(got) != sorted(schema.elements):
        raise Violation('elements %r declared, expected %r' % (got, sorted(schema.elements)))


def refused(what, fn):
    try:
        fn()
    except (etree.DocumentInvalid, etree.XMLSyntaxError):
        return
    raise Violation('not refused: ' + what)


def check(case):
    from soapfish import py2xsd
    spec = case['spec']
    n = len(spec['schemas'])
    tmp = None
    locations = {s: 'schema%d.xsd' % s for s in range(n)} if case['via'] == 'files' else None
    b = M.build(spec, locations=locations)
    try:
        ti = spec['root']
        s = spec['types'][ti]['s']
        obj = M.make(b, ti, case['v'], case['how'])
        xml = obj.xml(spec['tag'], namespace=spec['schemas'][s], elementFormDefault=spec['efd'])
        doc = etree.fromstring(xml)
        own = M.write_node(M.ref_render(spec, ti, case['v'], spec['tag'], spec['schemas'][s], spec['efd'], True))
        if not valid_under_reference(case, own):
            raise HarnessError('document invalid under the reference schema: %s\n%s' % (own, refxsd.Writer(spec).schema(0)))
        xsds = [py2xsd.generate_xsd(x) for x in b.schemas]
        texts = [etree.tostring(x) for x in xsds]
        for i, x in enumerate(texts):
            check_declares(spec, b, i, etree.fromstring(x))
            ET.fromstring(x)
        if case['via'] == 'twice' and texts != [etree.tostring(py2xsd.generate_xsd(x)) for x in b.schemas]:
            raise Violation('generating the schema again gives another document')
        if n == 1:
            try:
                schema = etree.XMLSchema(etree.fromstring(texts[0]))
            except etree.XMLSchemaParseError as e:
                raise Violation('generated XSD is invalid: %s\n%s' % (e, texts[0].decode()))
            if not schema.validate(doc):
                raise Violation('rendered document rejected: %s\n%s\n%s' % (schema.error_log, xml.decode(), texts[0].decode()))
            schema2 = etree.XMLSchema(xsds[0])
            if not schema2.validate(doc):
                raise Violation('rendered document rejected by the element tree of the XSD: %s' % schema2.error_log)
            kw = dict(namespace=spec['schemas'][s], elementFormDefault=spec['efd'], schema=schema)
            if obj.xml(spec['tag'], **kw) != xml:
                raise Violation('rendering with validation gives another document')
            refused('rendering an undeclared element with validation', lambda: obj.xml('no-such-' + spec['tag'], **kw))
            for x in (xml, xml.decode()):
                again = b.root.parsexml(x, schema=schema)
                d = M.diff(b, M.all_fields(spec, ti), case['v'], again)
                if d:
                    raise Violation('parsing with validation: ' + d)
        if case['via'] == 'files':
            with tempfile.TemporaryDirectory() as tmp:
                for i, x in enumerate(texts):
                    with open(os.path.join(tmp, locations[i]), 'wb') as f:
                        f.write(x)
                schema = etree.XMLSchema(file=os.path.join(tmp, locations[0]))
                if not schema.validate(doc):
                    raise Violation('rendered document rejected by the schema files: %s' % schema.error_log)
        schemas = list(b.schemas)
        if case['order']:
            schemas.reverse()
        py2xsd.schema_validator(schemas if case['via'] != 'validator' or s == 0 else [b.schemas[s]])(doc)
        py2xsd.schema_validator([b.schema])(doc)
        if case['via'] in ('parsexml', 'both'):
            again = b.root.parsexml(xml, schema=b.schema)
            d = M.diff(b, M.all_fields(spec, ti), case['v'], again)
            if d:
                raise Violation('parsing with the schema: ' + d)
            bad = etree.fromstring(xml)
            etree.SubElement(bad, 'no-such-element')
            for what, x in (('an undeclared element', b'<no-such-root/>'), ('an undeclared element within', etree.tostring(bad)), ('an undeclared attribute', xml.replace(b'>', b' no-such-attribute="1">', 1) if b'/>' not in xml[:xml.index(b'>') + 1] else b'<x/>')):
                refused('parsing %s with the schema' % what, lambda: b.root.parsexml(x, schema=b.schema))
        return len(case['v'][1]) >= 2
    finally:
        M.dispose(b)


# --- graphs of schemas ------------------------------------------------------------------------------
@st.composite
def graphs(draw):
    """Schemas importing and including each other: an acyclic graph with shared nodes."""
    wide = draw(st.integers(0, 7)) == 0  # many namespaces
    n = draw(st.integers(7, 16) if wide else st.integers(2, 6))
    nodes = []
    for i in range(n):
        deps = draw(st.lists(st.integers(0, i - 1), unique=True, max_size=3)) if i else []
        if wide and i == n - 1:
            deps = list(range(i))
        nodes.append({'ns': draw(st.sampled_from([i, i, i, 0])) if wide else draw(st.integers(0, 3)), 'deps': deps, 'loc': draw(st.booleans()), 'efd': draw(st.sampled_from(['qualified', 'unqualified'])), 'base': bool(deps) and draw(st.booleans())})
    return {'nodes': nodes, 'give': draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n)) if not wide else [n - 1], 'value': draw(st.integers(-5, 15))}


def closure(nodes, i):
    out = {i}
    for d in nodes[i]['deps']:
        out |= closure(nodes, d)
    return out


def check_graph(case):
    """The validator of a list of schemas knows every element declared by these, and by what they import or include."""
    from soapfish import py2xsd, xsd
    nodes = case['nodes']
    schemas, types = [], []
    for i, node in enumerate(nodes):
        attrs = {'own%d' % i: xsd.Element(xsd.Integer(minInclusive=0, maxInclusive=9))}
        for d in node['deps']:
            attrs['d%d_%d' % (i, d)] = xsd.Element(types[d], minOccurs=0)
        t = type('Type%d' % i, (types[node['deps'][0]] if node['base'] else xsd.ComplexType,), attrs)
        types.append(t)
        ns = 'urn:graph:%d' % node['ns']
        kw = {'imports': [schemas[d] for d in node['deps'] if nodes[d]['ns'] != node['ns']],
              'includes': [schemas[d] for d in node['deps'] if nodes[d]['ns'] == node['ns']]}
        if node['loc']:
            kw['location'] = 'http://localhost/%d.xsd' % (i % 3)
        schemas.append(xsd.Schema(ns, elementFormDefault=xsd.ElementFormDefault(node['efd']), complexTypes=[t],
                                  elements={'el%d' % i: xsd.Element(t)}, **kw))
    for i, node in enumerate(nodes):
        document = py2xsd.generate_xsd(schemas[i])
        for kind, same in (('import', False), ('include', True)):
            want = [(None if same else 'urn:graph:%d' % nodes[d]['ns'], schemas[d].location) for d in node['deps'] if (nodes[d]['ns'] == node['ns']) == same]
            got = [(e.get('namespace'), e.get('schemaLocation')) for e in document.iterfind('{http://www.w3.org/2001/XMLSchema}' + kind)]
            if not set(want) <= set(got):
                raise Violation('schema %d: the %ss are %r, expected %r' % (i, kind, got, want))
    given = [schemas[i] for i in case['give']]
    validate = py2xsd.schema_validator(given)
    known = set()
    for i in case['give']:
        known |= closure(nodes, i)
    for i, node in enumerate(nodes):
        def q(j, name):
            return '{urn:graph:%d}%s' % (nodes[j]['ns'], name) if nodes[j]['efd'] == 'qualified' else name
        root = etree.Element('{urn:graph:%d}el%d' % (node['ns'], i))

        def content(parent, j, k, value, deep):
            # inherited fields come first and are those of the schema of the derived type
            if nodes[k]['base']:
                content(parent, j, nodes[k]['deps'][0], 1, deep)
            etree.SubElement(parent, q(j, 'own%d' % k)).text = str(value)
            for d in nodes[k]['deps'] if deep else []:
                content(etree.SubElement(parent, q(j, 'd%d_%d' % (k, d))), d, d, 1, False)
        content(root, i, i, case['value'], True)
        want = i in known and 0 <= case['value'] <= 9
        try:
            validate(root)
            got = True
        except etree.DocumentInvalid as e:
            got, why = False, e
        if got != want:
            raise Violation('schemas %r given: element el%d of schema %d (value %d) is %s%s'
                            % (case['give'], i, i, case['value'], 'accepted' if got else 'rejected', '' if got else ': %s' % why))
    return len(known) > 2


SUBS = [
    Sub('accepts', cases, check, quick=1800, thorough=40000, shards=6,
        rule='random schema x instance rendered by the library; non-trivial when at least two fields of the root are set'),
    Sub('graphs', graphs, check_graph, quick=500, thorough=10000, shards=2,
        rule='random acyclic graph of importing/including schemas given to the validator in random order; non-trivial when more than two schemas are reachable'),
]
