"""C02: rendered XML is exactly what the model declares."""
from hypothesis import strategies as st

from harness import models as M
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing against an independent reference renderer (Hypothesis)'
NOTE = 'Expected tree computed from the JSON model by a separate renderer, compared with what stdlib ElementTree reads from the output.'
O = M.Options(empty=True, long=True)


@st.composite
def cases(draw):
    spec = draw(M.specs(O))
    spec['reg'] = draw(st.sampled_from([True, True, False]))
    v = draw(M.instances(spec, spec['root'], O))
    return {'spec': spec, 'v': v, 'how': draw(st.sampled_from(['assign', 'ctor'])),
            'efd': draw(st.sampled_from(['spec', 'spec', None])),
            'ns': draw(st.sampled_from([None, 'own', 'urn:other'])), 'pretty': draw(st.booleans())}


def check(case):
    spec = case['spec']
    b = M.build(spec)
    try:
        ti = spec['root']
        fields = M.all_fields(spec, ti)
        obj = M.make(b, ti, case['v'], case['how'])
        ns = spec['schemas'][spec['types'][ti]['s']] if case['ns'] == 'own' else case['ns']
        efd = spec['efd'] if case['efd'] else None
        kw = dict(namespace=ns, elementFormDefault=efd, pretty_print=case['pretty'])
        xml = obj.xml(spec['tag'], **kw)
        want = M.ref_render(spec, ti, case['v'], spec['tag'], ns, efd, spec['reg'])
        d = M.node_diff(want, M.et(xml))
        if d:
            raise Violation('%s\n%s' % (d, xml.decode()))
        if obj.xml(spec['tag'], **kw) != xml:
            raise Violation('rendering twice differs:\n%s\n%s' % (xml.decode(), obj.xml(spec['tag'], **kw).decode()))
        d = M.diff(b, fields, case['v'], obj, parsed=False)
        if d:
            raise Violation('rendering changed the instance: ' + d)
        twin = M.make(b, ti, case['v'], 'assign' if case['how'] == 'ctor' else 'ctor')
        if twin.xml(spec['tag'], **kw) != xml:
            raise Violation('an equal instance renders differently:\n%s\n%s' % (xml.decode(), twin.xml(spec['tag'], **kw).decode()))
        return len(case['v'][1]) >= 2
    finally:
        M.dispose(b)


# --- refusals ------------------------------------------------------------------------------------------
@st.composite
def refusals(draw):
    """An instance with exactly one defect rendering must refuse: a required attribute unset or a list out of bounds."""
    spec = draw(M.specs(O))
    spec['reg'] = draw(st.booleans())
    ti = spec['root']
    cands = [f for f in M.all_fields(spec, ti) if (f['kind'] == 'attr' and f['use'] == 'required')
             or (f['kind'] == 'list' and (f['min'] or isinstance(f['max'], int)))]
    if not cands:
        f = {'name': 'reqd', 'kind': 'attr', 'tag': None, 'type': {'k': 's', 'b': 'String', 'f': {}}, 'use': 'required'}
        spec['types'][ti]['fields'].append(f)
        cands = [f]
    v = draw(M.instances(spec, ti, O))
    f = draw(st.sampled_from(cands))
    how = 'unset'
    if f['kind'] == 'list':
        hows = (['few'] if f['min'] else []) + (['many'] if isinstance(f['max'], int) else [])
        how = draw(st.sampled_from(hows))
    return {'spec': spec, 'v': v, 'field': f['name'], 'how': how}


def check_refusal(case):
    spec = case['spec']
    b = M.build(spec)
    try:
        ti = spec['root']
        f = next(x for x in M.all_fields(spec, ti) if x['name'] == case['field'])
        v = case['v']
        M.make(b, ti, v).xml(spec['tag'], elementFormDefault=spec['efd'])
        obj = M.make(b, ti, v)
        if case['how'] == 'unset':
            setattr(obj, f['name'], None)
        elif case['how'] == 'few':
            lst = getattr(obj, f['name'])
            while len(lst) >= f['min']:
                del lst[-1]
        else:
            lst = getattr(obj, f['name'])
            item = M.make(b, ti, v)
            extra = list(getattr(item, f['name']))
            if not extra:
                return False
            while len(lst) <= f['max']:
                list.append(lst, extra[0])
        try:
            xml = obj.xml(spec['tag'], elementFormDefault=spec['efd'])
        except ValueError:
            return True
        raise Violation('rendered although %s is %s: %s' % (f['name'], case['how'], xml.decode()))
    finally:
        M.dispose(b)


# --- Document ------------------------------------------------------------------------------------------
@st.composite
def documents(draw):
    spec = draw(M.specs(M.Options(schemas=1), efd='unqualified'))
    spec['reg'] = False
    return {'spec': spec, 'v': draw(M.instances(spec, spec['root'], M.Options())), 'tag': draw(st.sampled_from([None] + M.ROOT_TAGS))}


def check_document(case):
    from soapfish import xsd
    spec = case['spec']
    b = M.build(spec)
    try:
        ti = spec['root']
        doc_cls = type('Doc', (xsd.Document,), {'body': xsd.Element(b.root, tagname=case['tag'])})
        other = doc_cls()
        doc = doc_cls(body=M.make(b, ti, case['v']))
        xml = doc.render()
        want = M.ref_render(spec, ti, case['v'], case['tag'] or 'body', None, None, False)
        d = M.node_diff(want, M.et(xml))
        if d:
            raise Violation('%s\n%s' % (d, xml.decode()))
        again = doc_cls.parsexml(xml)
        d = M.diff(b, M.all_fields(spec, ti), case['v'], again.body)
        if d:
            raise Violation('Document round trip: %s\n%s' % (d, xml.decode()))
        if other.body is not None or doc_cls().body is not None:
            raise Violation('parsing a document changed another one')
        return len(case['v'][1]) >= 2
    finally:
        M.dispose(b)


SUBS = [
    Sub('render', cases, check, quick=3000, thorough=60000, shards=5,
        rule='random model x instance rendered and compared with the reference tree; non-trivial when at least two root fields are set'),
    Sub('refuse', refusals, check_refusal, quick=800, thorough=15000, shards=2,
        rule='an instance with one required attribute missing or one list out of bounds; non-trivial when rendering was attempted'),
    Sub('document', documents, check_document, quick=500, thorough=10000, shards=1,
        rule='xsd.Document with a random root type; non-trivial when at least two root fields are set'),
]
