"""C01: round trip of model instances."""
from hypothesis import strategies as st
from lxml import etree

from harness import models as M
from harness.core import Sub, Violation

TECHNIQUE = 'property-based round trip over generated models and instances (Hypothesis)'
NOTE = 'Random models (nesting, inheritance, choices, groups, lists, nil, attributes, several schemas) and instances; the value oracle is the generated JSON value itself.'

O = M.Options(long=True)


@st.composite
def cases(draw):
    spec = draw(M.specs(O))
    spec['reg'] = draw(st.sampled_from([True, True, False]))
    v = draw(M.instances(spec, spec['root'], O))
    return {'spec': spec, 'v': v, 'how': draw(st.sampled_from(['assign', 'ctor'])),
            'via': draw(st.sampled_from(['bytes', 'str', 'element', 'lxml'])),
            'ns': draw(st.sampled_from([None, 'own', 'urn:other'])),
            'pretty': draw(st.booleans())}


def check(case):
    spec = case['spec']
    b = M.build(spec)
    try:
        ti = spec['root']
        fields = M.all_fields(spec, ti)
        obj = M.make(b, ti, case['v'], case['how'])
        d = M.diff(b, fields, case['v'], obj, parsed=False)
        if d:
            raise Violation('stored value differs from the accepted one: ' + d)
        ns = spec['schemas'][spec['types'][ti]['s']] if case['ns'] == 'own' else case['ns']
        kw = dict(namespace=ns, elementFormDefault=spec['efd'], pretty_print=case['pretty'])
        xml = obj.xml(spec['tag'], **kw)

        def parse(xml):
            if case['via'] == 'str':
                return b.root.parsexml(xml.decode('ascii'))
            elif case['via'] == 'element':
                return b.root.parse_xmlelement(etree.fromstring(xml))
            elif case['via'] == 'lxml':
                return b.root.parse_xmlelement(etree.fromstring(b'<w>' + xml + b'</w>')[0])
            return b.root.parsexml(xml)
        again, twin = parse(xml), parse(xml)
        if not again == twin or again != twin or hash(again) != hash(twin):
            raise Violation('instances read from the same document differ: %r %r\n%s' % (again, twin, xml.decode()))
        empty = etree.fromstring(xml)
        empty.clear()
        if case['v'][1] and etree.tostring(empty, method='c14n') != etree.tostring(etree.fromstring(xml), method='c14n'):
            other = parse(etree.tostring(empty))
            if again == other or not again != other:
                raise Violation('instances read from different documents are equal:\n%s\n%s' % (xml.decode(), etree.tostring(empty).decode()))
        d = M.diff(b, fields, case['v'], again)
        if d:
            raise Violation('value lost or altered by the round trip: %s\n%s' % (d, xml.decode()))
        xml2 = again.xml(spec['tag'], **kw)
        third = b.root.parsexml(xml2)
        d = M.diff(b, fields, case['v'], third)
        if d:
            raise Violation('second round trip: %s\n%s' % (d, xml2.decode()))
        # rendering the re-parsed instance is a fixpoint
        if third.xml(spec['tag'], **kw) != xml2:
            raise Violation('rendering is not stable:\n%s\n%s' % (xml2.decode(), third.xml(spec['tag'], **kw).decode()))
        return len(case['v'][1]) >= 2
    finally:
        M.dispose(b)


SUBS = [
    Sub('roundtrip', cases, check, quick=3000, thorough=60000, shards=6,
        rule='random model specification x random accepted instance; non-trivial when at least two fields of the root are set'),
]
