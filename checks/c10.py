"""C10: code generated from an XSD implements that XSD."""
import inspect
import os
import re
import tempfile
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from checks import c09
from harness import models as M
from harness import noise
from harness import refxsd
from harness import values as V
from harness.codegen import Generated, python_name
from harness.core import HarnessError, Reject, Sub, Violation
from harness.layouts import restyle

TECHNIQUE = 'property-based testing: random XSD documents compiled to models, compared with the XSD on valid and mutated documents (libxml2 and a reference renderer as oracles)'
NOTE = 'Subset: see DESIGN.md (sequence/all/choice of elements, extension, named/inline simple and complex types, facets, attributes, attribute groups, nillable, occurrence, two namespaces).'
ASSUMPTIONS = ['type names stay distinct when turned into Python class names']

O = M.Options(content=False, groups=False, elem_ns=False, xsd_valid=True, defaults=False, prohibited=True)
# names of XSD, of the library and of Python, for the types of the schema
SPECIAL = ['string', 'int', 'date', 'boolean', 'decimal', 'integer', 'time', 'QName', 'anyURI', 'element', 'list', 'attribute', 'group', 'choice', 'schema', 'complexType', 'object', 'none', 'type', 'document', 'exception']
PREFIXES = ['T.', '', 'my', 'T_', 'a-b']


def flat(tag):
    """An inherited field must not be hidden by one whose Python name is the same."""
    return re.sub(r'\W', '_', tag).strip('_')


@st.composite
def specs(draw, o=O):
    """A model spec whose field names are the Python names expected in generated code ('?...' when unspecified)."""
    spec = draw(M.specs(o))
    spec['reg'] = True
    retag = draw(st.integers(0, 3)) == 0
    for t in spec['types']:
        tags = {'attr': set(), 'elem': set()}
        names = set()
        inherited = M.all_fields(spec, t['base']) if t['base'] is not None else []
        for f in inherited:
            if f['kind'] == 'ref':
                for gf in spec['groups'][f['g']]['fields']:
                    tags['attr'].add(gf['tag'])
            else:
                tags['attr' if f['kind'] == 'attr' else 'elem'].add(f['tag'])
            names.add(f['name'])
        for f in t['fields']:
            if f['kind'] == 'ref':
                for gf in spec['groups'][f['g']]['fields']:
                    name_field(gf, set())
                    tags['attr'].add(gf['tag'])
        inh = set(map(flat, tags['attr'] | tags['elem'])) if inherited else set()
        for f in t['fields']:
            if f['kind'] == 'ref':
                continue
            kind = 'attr' if f['kind'] == 'attr' else 'elem'
            f['tag'] = f['tag'] or f['name']
            if retag and kind == 'elem' and draw(st.integers(0, 2)) == 0:
                f['tag'] = draw(st.sampled_from(M.TYPE_NAMES))
            n = 0
            while f['tag'] in tags[kind] or flat(f['tag']) in inh:
                n += 1
                f['tag'] = 'u%d' % n
            tags[kind].add(f['tag'])
        # elements keep their names before attributes do
        for f in [f for f in t['fields'] if f['kind'] not in ('attr', 'ref')] + [f for f in t['fields'] if f['kind'] == 'attr']:
            name_field(f, names)
    spec['prefix'] = [draw(st.sampled_from(PREFIXES)), draw(st.sampled_from(['S.', 'simple', 'S_']))]
    for f in (f for t in spec['types'] for f in t['fields'] if f['kind'] == 'ref'):
        f['name'] = 'G_' + spec['groups'][f['g']]['name']
    if draw(st.integers(0, 3)) == 0:
        spec['prefix'][0] = ''
        used = {f['type'].get('b') for t in spec['types'] for f in t['fields'] if f['kind'] != 'ref'} - {None, 'NMTOKEN', 'NMTOKENS'}
        used = sorted({b[0].lower() + b[1:] for b in used} & set(SPECIAL)) or SPECIAL  # those which the types use are of most interest
        for t, name in zip(spec['types'], draw(st.lists(st.one_of(st.sampled_from(used), st.sampled_from(SPECIAL)), max_size=3, unique=True))):
            t['name'] = name
    # types to be defined in place: those used only as the type of elements, once
    uses = {}
    for i, t in enumerate(spec['types']):
        if t['base'] is not None:
            uses.setdefault(t['base'], []).append('base')
        for f in t['fields']:
            if f['kind'] != 'ref' and f['type']['k'] in 'cl':
                uses.setdefault(f['type']['i'], []).append('lazy' if f['type']['k'] == 'l' else i)
    spec['inline'] = []
    if draw(st.integers(0, 2)) == 0:
        for i, u in uses.items():
            if len(u) == 1 and u[0] not in ('base', 'lazy') and spec['types'][i]['s'] == spec['types'][u[0]]['s'] and i != spec['root']:
                spec['inline'].append(i)
        if spec['root'] not in uses:
            spec['inline'].append(spec['root'])
    return spec


@st.composite
def rich_facets(draw, base):
    f = draw(c09.extra_facets(base))
    # the library holds these as text: lengths are not those of XSD
    return {k: v for k, v in f.items() if 'ength' not in k} if base in ('Base64Binary', 'NMTOKENS') else f


@st.composite
def enriched(draw, spec):
    """The spec with richer facets: documents which were valid need not be any more."""
    spec['rich'] = draw(st.integers(0, 2)) == 0
    if spec['rich']:
        slots = [t for t in spec['simple']] + [f['type'] for ty in spec['types'] + spec['groups'] for f in ty['fields'] if f['kind'] != 'ref' and f['type']['k'] == 's' and f.get('use') != 'prohibited']
        for t in slots:
            if draw(st.booleans()):
                t['f'] = draw(rich_facets(t['b']))
        if len(spec['simple']) == 2 and spec['simple'][0]['b'] == spec['simple'][1]['b'] and draw(st.integers(0, 3)):
            b = spec['simple'][0]
            spec['simple'][1] = {'name': 'Simple1', 'b': b['b'], 'of': 0, 'f': {}}
            if b['b'] in ('String', 'AnyURI', 'NMTOKEN') and 'pattern' not in b['f']:
                spec['simple'][1]['f']['pattern'] = draw(V.patterns())
    return spec


def name_field(f, names):
    f['tag'] = f['tag'] or f['name']
    name = python_name(f['tag'])
    if name is None or name in names:
        f['name'] = '?' + f['kind'] + f['tag']
    else:
        f['name'] = name
        names.add(name)


def exact_fractions(spec):
    """The library takes fractionDigits for the exact number of digits, and documents were drawn before the facet was."""
    slots = spec['simple'] + [f['type'] for ty in spec['types'] + spec['groups'] for f in ty['fields'] if f['kind'] != 'ref' and f['type']['k'] == 's']
    return spec['rich'] and any(t['f'].get('fractionDigits') for t in slots)


def unnormalised(spec, v):
    """Documents were drawn before the facets were: does one normalise a text of the document?"""
    slots = spec['simple'] + [f['type'] for ty in spec['types'] + spec['groups'] for f in ty['fields'] if f['kind'] != 'ref' and f['type']['k'] == 's']

    def texts(x):
        if x[0] == 's':
            yield x[1]
        elif x[0] in 'cl':
            for y in x[1].values() if x[0] == 'c' else x[1]:
                yield from texts(y)
    return spec['rich'] and any(t['f'].get('whiteSpace') in ('replace', 'collapse') for t in slots) and any(t != V.ws_normalise('collapse', t) for t in texts(v))


@st.composite
def cases(draw):
    spec = draw(specs())
    v = draw(M.instances(spec, spec['root'], O, full=True))
    spec = draw(enriched(spec))
    tops = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2]))):
        t = draw(M.typeref(spec, 0, O, allow_complex=False))
        if t['k'] == 's' and draw(st.booleans()):
            t['f'] = draw(rich_facets(t['b']))
        tops.append({'tag': 'top%d' % i, 'type': t, 'nil': draw(st.booleans())})
    spec['tops'] = tops
    return {'spec': spec, 'v': v, 'docs': draw(st.lists(c09.muts_strategy(), min_size=1, max_size=4)),
            'topdocs': [[draw(st.integers(0, 1)), draw(st.one_of(st.sampled_from(c09.TEXTS), st.integers(0, 400))), draw(st.booleans())] for _ in range(2 if tops else 0)],
            'how': draw(st.sampled_from(['assign', 'ctor'])), 'xs': draw(st.sampled_from(['xs', 'xsd', 'default', 'target', 'local'])),
            'noise': draw(noise.noises), 'codec': draw(st.sampled_from(noise.CODECS))}


def class_name(name):
    name = name[0].upper() + name[1:]
    if name in ('None', 'True', 'False'):
        name = '_' + name
    name = ''.join(c if c.isalnum() or c == '_' else '_' for c in name)
    return '_' + name.lstrip('_') if name.startswith('__') else name  # (the name would be private to classes)


def writer(spec, **kw):
    return refxsd.Writer(spec, inline=spec['inline'], tprefix=spec['prefix'][0], sprefix=spec['prefix'][1], location='s%d.xsd', **kw)


def generate(spec, texts, codec='utf-8'):
    from soapfish import xsd2py
    with tempfile.TemporaryDirectory() as tmp:
        for s, x in enumerate(texts):
            with open(os.path.join(tmp, 's%d.xsd' % s), 'wb') as f:
                f.write(noise.encode(x, codec))
        return xsd2py.generate_code_from_xsd(noise.encode(texts[0], codec), cwd=tmp)


class Built2:
    pass


def prepare(case):
    """(writer, reference schema); rejects cases outside the domain."""
    spec = case['spec']
    w = writer(spec)
    # names which coincide once they are Python names are outside the domain
    names = [class_name(w.tprefix + t['name']) for i, t in enumerate(spec['types']) if i not in spec['inline']] + \
        [class_name(w.sprefix + t['name']) for t in spec['simple']] + ([class_name(spec['tag'])] if spec['root'] in spec['inline'] else [])
    if len(set(names)) != len(names):
        raise Reject
    try:
        return w, refxsd.xml_schema(spec, w)
    except etree.XMLSchemaParseError as e:
        raise HarnessError('reference schema: %s\n%s' % (e, w.schema(0)))


def check(case):
    w, ref = prepare(case)
    texts = [noise.add(restyle(w.schema(i), case['xs'], i), case['noise']) for i in range(len(case['spec']['schemas']))]
    return judge(case, w, ref, texts, generate(case['spec'], texts, case['codec']))


def judge(case, w, ref, texts, code, regenerate=True):
    """Do the classes of the generated code implement the reference schema?"""
    from soapfish import py2xsd
    spec = case['spec']
    ti = spec['root']
    s = spec['types'][ti]['s']
    try:
        g = Generated(code)
    except Exception as e:
        raise Violation('generated code does not load: %r\n%s\n%s' % (e, texts[0], code.decode()))
    with g:
        schemas = {x.targetNamespace: x for x in g.schemas()}
        if set(schemas) != set(spec['schemas']):
            raise Violation('schemas of %r generated for %r' % (sorted(schemas), spec['schemas']))
        if any(x.elementFormDefault != spec['efd'] for x in schemas.values()):
            raise Violation('wrong element form default')
        b = Built2()
        b.spec = spec
        b.classes = [None if i in spec['inline'] else getattr(g.module, class_name(w.tprefix + t['name']), None) for i, t in enumerate(spec['types'])]
        for i, t in enumerate(spec['types']):
            if i not in spec['inline'] and b.classes[i] is None:
                raise Violation('no class for type %s%s' % (w.tprefix, t['name']))
        for cls, t in zip(b.classes, spec['types']):
            if cls is not None and cls.INDICATOR.__name__ != t['ind']:
                raise Violation('%s is a %s of %s' % (cls.__name__, t['ind'], cls.INDICATOR.__name__))
        if ti in spec['inline']:
            b.classes[ti] = getattr(g.module, class_name(spec['tag']))
        root = b.classes[ti]
        base = M.write_node(M.ref_render(spec, ti, case['v'], spec['tag'], spec['schemas'][s], spec['efd'], True))
        expected = M.ref_render(spec, ti, case['v'], spec['tag'], spec['schemas'][s], spec['efd'], True)
        valid = ref.validate(etree.fromstring(base))
        if valid and not exact_fractions(spec) and not unnormalised(spec, case['v']):
            obj = root.parsexml(base)
            if not spec['inline'] or spec['inline'] == [ti]:
                d = M.diff(b, M.all_fields(spec, ti), case['v'], obj)
                if d:
                    raise Violation('%s\nread from %s\nby code generated from %s\n%s' % (d, base, texts[0], g.code))
            judge_xml(obj, M.ref_render(spec, ti, M.reread(case['v']), spec['tag'], spec['schemas'][s], spec['efd'], True), ref, spec, s, base, texts, g, 'read and written again')
            if not spec['inline'] and all(f['name'][0] != '?' for t in spec['types'] + spec['groups'] for f in t['fields']) \
                    and not any(f['kind'] == 'ref' for t in spec['types'] for f in t['fields']):
                judge_xml(M.make(b, ti, case['v'], case['how']), expected, ref, spec, s, base, texts, g, 'built in Python and written')
                check_create(spec, b, ti, case['v'], g)
        if not regenerate:
            return valid and len(case['v'][1]) >= 2
        validate = py2xsd.schema_validator(roots(g.schemas()))
        docs = [ET.fromstring(base)] + [c09.mutate(spec, ET.fromstring(base), muts) for muts in case['docs']]
        pool = c09.boundary_texts(spec) or c09.TEXTS
        for i, t, nil in case['topdocs']:
            el = ET.Element('{%s}%s' % (spec['schemas'][0], spec['tops'][i % len(spec['tops'])]['tag']))
            el.text = pool[t % len(pool)] if isinstance(t, int) else t
            if nil:
                el.text = None
                el.set(M.NIL_ATTR, 'true')
            docs.append(el)
        for top in spec['tops']:  # every facet of their types
            for t in sorted(set(c09.boundary_texts({'simple': [M.simple_of(spec, top['type'])], 'types': [], 'groups': [], 'tops': []})))[:20]:
                docs.append(ET.Element('{%s}%s' % (spec['schemas'][0], top['tag'])))
                docs[-1].text = t
        verdicts = set()
        for doc in docs:
            xml = ET.tostring(doc)
            want = ref.validate(etree.fromstring(xml))
            why = ref.error_log
            try:
                validate(etree.fromstring(xml))
                got = True
            except etree.DocumentInvalid as e:
                got, why = False, e
            verdicts.add(want)
            if got != want:
                raise Violation('the XSD generated from the generated models %s a document which the XSD %s: %s\n%s\n%s\n%s' % (
                    'accepts' if got else 'rejects', 'allows' if want else 'forbids', why, xml.decode(), '\n'.join(texts), g.code))
        return valid and len(case['v'][1]) >= 2


def roots(schemas):
    """The schemas which no other one refers to: only the first one, unless they refer to each other."""
    used = {id(x) for s in schemas for x in (*s.imports, *s.includes)}
    out = [s for s in schemas if id(s) not in used]
    if len(out) > 1:
        raise Violation('schemas %r are not connected' % [(s.targetNamespace, s.location) for s in out])
    return out or schemas


def judge_xml(obj, expected, ref, spec, s, base, texts, g, what):
    xml = obj.xml(spec['tag'], namespace=spec['schemas'][s], elementFormDefault=spec['efd'])
    d = M.node_diff(expected, ET.fromstring(xml))
    if d:
        raise Violation('document %s differs: %s\n%s\n%s\n%s\n%s' % (what, d, base, xml.decode(), texts[0], g.code))
    if not ref.validate(etree.fromstring(xml)):
        raise Violation('document %s is not valid: %s\n%s\n%s' % (what, ref.error_log, xml.decode(), texts[0]))


def check_create(spec, b, ti, v, g):
    """create() takes the required elements of a sequence in order."""
    t = spec['types'][ti]
    if t['ind'] != 'Sequence':
        return
    cls = b.classes[ti]
    need = [f for f in t['fields'] if f['kind'] != 'attr' and f['min'] == 1]
    got = list(inspect.signature(cls.create).parameters)
    if got != [f['name'] for f in need]:
        raise Violation('%s.create(%s), required elements are %r' % (cls.__name__, ', '.join(got), [f['name'] for f in need]))
    full = M.make(b, ti, v)
    obj = cls.create(*[getattr(full, f['name']) for f in need])
    part = ['c', {f['name']: v[1][f['name']] for f in need}]
    d = M.diff(b, M.all_fields(spec, ti), part, obj, parsed=False)
    if d:
        raise Violation('create(): ' + d)


SUBS = [
    Sub('implements', cases, check, quick=1200, thorough=30000, shards=8,
        rule='random XSD x valid document x mutated documents; non-trivial when the document is valid and sets at least two fields of the root'),
]
