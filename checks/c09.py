"""C09: the generated XSD gives the same verdict as a schema written by hand from the model, for valid and mutated documents."""
import copy
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from harness import models as M
from harness import refxsd
from harness import values as V
from harness.core import HarnessError, Reject, Sub, Violation

TECHNIQUE = 'differential property-based testing: generated XSD against an independent reference XSD writer on valid and mutated documents'
NOTE = 'Documents are written by the reference renderer and then mutated (values around facet boundaries, order, multiplicity, names, namespaces, nil, attributes); both schemas are judged by libxml2.'

O = M.Options(content=False, elem_ns=False, xsd_valid=True, prohibited=True)
TEXTS = ['', ' ', 'a', 'abc', 'nil', '0', '00', '-0', '1', '-1', '+5', '007', '1.0', '1.50', '12345', '123456', '0.001', '127', '128', '-129', '255', '256', '32767', '32768', '-32768',
         '65536', '2147483647', '2147483648', '-2147483649', '4294967296', '9223372036854775808', '18446744073709551616', '1e3', 'INF', 'NaN', 'true',
         'True', 'false', '2020-01-01', '2020-02-30', '2020-01-01Z', '2020-01-01T00:00:00', '2020-01-01T24:00:01', '12:00:00', '25:00:00', 'P1Y', 'P', 'aGk=', 'a b', ' a ', 'a  b',
         'x:y', '1a', 'http://x', '%%', 'a\tb', 'AB', 'Ab1', '2020-01-01T00:00:00+14:30']


# --- facets beyond those the instance generator satisfies ------------------------------------------------
@st.composite
def extra_facets(draw, base):
    f = {}
    if base in V.STRINGS:
        if draw(st.integers(0, 2)) == 0:
            f['enumeration'] = draw(st.lists(V.PLAIN, min_size=1, max_size=3, unique=True)) if base in ('String', 'AnyURI', 'NMTOKEN') else []
            if not f['enumeration']:
                del f['enumeration']
        if draw(st.integers(0, 2)) == 0:
            f['pattern'] = draw(V.patterns())
        k = draw(st.integers(0, 4))
        if base == 'QName':
            k = 0
        if base == 'Duration':
            k = 0
        if k == 1:
            f['length'] = draw(st.integers(0, 5))
        elif k >= 2:
            lo = draw(st.integers(0, 3))
            if k != 3:
                f['minLength'] = lo
            if k != 4:
                f['maxLength'] = lo + draw(st.integers(0, 3))
        if base == 'String' and draw(st.integers(0, 3)) == 0:
            f['whiteSpace'] = draw(st.sampled_from(['preserve', 'replace', 'collapse']))
    elif base in V.NUMERIC:
        lo, hi = V.INT_BOUNDS.get(base, (None, None))
        a = -20 if lo is None else max(lo, -20)
        b = 20 if hi is None else min(hi, 20)
        if base == 'PositiveInteger':
            a = 1
        k = draw(st.integers(0, 4))
        x = draw(st.integers(a, b))
        y = draw(st.integers(x, b))
        if k in (0, 1):
            f['minInclusive'] = x
        elif k == 2 and y > x:
            f['minExclusive'] = x
        if k in (0, 3):
            f['maxInclusive'] = y
        elif k == 4 and y > x:
            f['maxExclusive'] = y
        if base not in V.FLOATS and draw(st.integers(0, 2)) == 0:
            f['totalDigits'] = draw(st.integers(1, 6))
        if base == 'Decimal' and draw(st.integers(0, 2)) == 0:
            f['fractionDigits'] = draw(st.integers(0, min(3, f.get('totalDigits', 3))))
        if base not in V.FLOATS and draw(st.integers(0, 3)) == 0:
            f['pattern'] = draw(V.patterns(digits=True))
        if base in ('Decimal',) and draw(st.integers(0, 4)) == 0:
            f = {k: (v + 0.5 if k in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive') else v) for k, v in f.items()}
    return f


@st.composite
def tighter(draw, f):
    """Facets for a type derived from one with the facets given, which are stricter."""
    out = {}
    if set(f) == {'enumeration'} and len(f['enumeration']) > 1 and draw(st.integers(0, 3)):
        out['enumeration'] = draw(st.lists(st.sampled_from(f['enumeration']), min_size=1, max_size=len(f['enumeration']) - 1, unique=True))
    for low, high, lowest in (('minLength', 'maxLength', 0), ('minInclusive', 'maxInclusive', None)):
        x, y = f.get(low), f.get(high)
        if not set(f) <= {low, high} or (lowest is None and None in (x, y)):
            continue  # the values of facets have to be values of the base type
        if y is not None and draw(st.booleans()):
            lo = max(y - 3, lowest if x is None else x)
            out[high] = y = draw(st.sampled_from([v for v in (y - 3, y - 2, y - 1, y) if v >= lo]))
        if x is not None and draw(st.booleans()):
            out[low] = draw(st.sampled_from([v for v in (x, x + 1, x + 2) if y is None or v <= y]))
    return out


@st.composite
def cases(draw):
    spec = draw(M.specs(O))
    spec['reg'] = True
    v = draw(M.instances(spec, spec['root'], O, full=True))
    plain = copy.deepcopy(spec)
    # richer facets (the document then need not be valid any more: the verdicts still have to agree)
    if draw(st.integers(0, 2)):
        slots = [t for t in spec['simple']] + [f['type'] for ty in spec['types'] + spec['groups'] for f in ty['fields'] if f['kind'] != 'ref' and f['type']['k'] == 's' and f.get('use') != 'prohibited']
        for t in slots:
            if draw(st.booleans()):
                t['f'] = draw(extra_facets(t['b']))
    if len(spec['simple']) < 2 and draw(st.integers(0, 3)) == 0:
        for i in range(len(spec['simple']), 2):
            base = draw(st.sampled_from(['String', 'String', 'NMTOKEN', 'Integer', 'Int', 'Decimal']))
            spec['simple'].append({'name': 'Simple%d' % i, 'b': base, 'f': draw(extra_facets(base))})
    if len(spec['simple']) == 2 and draw(st.integers(0, 3)):
        b = spec['simple'][0]
        if b['b'] in ('String', 'NMTOKEN') and draw(st.booleans()):
            b['f'] = {'enumeration': draw(st.lists(st.text('abAB01', min_size=1, max_size=2), min_size=2, max_size=4, unique=True))}
        spec['simple'][1] = {'name': 'Simple1', 'b': b['b'], 'of': 0, 'f': {}}
        spec['simple'][1]['f'] = draw(tighter(b['f']))
        if spec['simple'][1]['f']:
            pass
        elif b['b'] in ('String', 'AnyURI', 'NMTOKEN') and 'pattern' not in b['f']:
            spec['simple'][1]['f']['pattern'] = draw(V.patterns())
        elif b['b'] in V.INT_BOUNDS and 'totalDigits' not in b['f']:
            spec['simple'][1]['f']['totalDigits'] = draw(st.integers(1, 4))
    if spec['simple'] != plain['simple']:
        for f in (f for ty in spec['types'] + spec['groups'] for f in ty['fields'] if 'type' in f and f['type']['k'] == 'n'):
            f.pop('default', None)
    for a, b in zip(spec['types'] + spec['groups'], plain['types'] + plain['groups']):
        for f, g in zip(a['fields'], b['fields']):
            if f != g:
                f.pop('default', None)  # defaults are values of their type
    tops = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2]))):
        t = draw(M.typeref(spec, 0, O, allow_complex=False))
        if t['k'] == 's' and draw(st.booleans()):
            t['f'] = draw(extra_facets(t['b']))
        tops.append({'tag': 'top%d' % i, 'type': t, 'nil': draw(st.booleans())})
    derived = len(spec['simple']) == 2 and 'of' in spec['simple'][1]
    if derived:
        tops.append({'tag': 'derived', 'type': {'k': 'n', 'i': 1}, 'nil': False})
    spec['tops'] = tops
    n = draw(st.integers(0, 3))
    muts = []
    for _ in range(n):
        muts.append([draw(st.sampled_from(['text', 'text', 'text', 'text', 'drop', 'dup', 'swap', 'rename', 'ns', 'add', 'attr-drop', 'attr-add', 'attr-text', 'attr-text', 'nil', 'unnil', 'mixed', 'twice'])),
                     draw(st.integers(0, 30)), draw(st.integers(0, 30)), draw(st.one_of(st.sampled_from(TEXTS), st.integers(0, 400), V.TEXT))])
    docs = draw(st.lists(muts_strategy(), min_size=2, max_size=5))
    return {'spec': spec, 'v': v, 'docs': [muts] + docs, 'topdocs': [[draw(st.integers(0, 2)), draw(st.one_of(st.sampled_from(TEXTS), st.integers(0, 400))), draw(st.booleans())]
                                                                      for _ in range((3 if tops else 0) + (3 if derived else 0))],
            'entry': draw(st.sampled_from(['validator', 'xsd']))}


def muts_strategy():
    return st.lists(st.tuples(
        st.sampled_from(['text', 'text', 'text', 'text', 'drop', 'dup', 'swap', 'rename', 'ns', 'add', 'attr-drop', 'attr-add', 'attr-text', 'attr-text', 'nil', 'unnil', 'mixed', 'twice']),
        st.integers(0, 30), st.integers(0, 30), st.one_of(st.sampled_from(TEXTS), st.integers(0, 400), V.TEXT)).map(list), min_size=1, max_size=2)


def boundary_texts(spec):
    """Texts around every facet of the model."""
    out = []
    types = list(spec['simple']) + [f['type'] for t in spec['types'] + spec['groups'] for f in t['fields'] if f['kind'] != 'ref' and f['type']['k'] == 's'] + \
        [t['type'] for t in spec['tops'] if t['type']['k'] == 's']
    for t in types:
        f = t['f']
        for k, v in f.items():
            if k in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
                out += [refxsd._num(x) for x in (v, v - 1, v + 1)]
                out += [refxsd._num(v + 0.5)]
            elif k in ('length', 'minLength', 'maxLength'):
                out += ['abcdefghijk'[:max(0, n)] for n in (v - 1, v, v + 1)]
            elif k == 'enumeration':
                out += [e if isinstance(e, str) else refxsd._num(e) for e in v]
                out += [out[-1] + 'x', ' ' + out[-1]]
            elif k == 'totalDigits':
                out += ['9' * v, '9' * (v + 1), '-' + '9' * v, '0.' + '1' * v, '0.' + '1' * (v + 1)]
            elif k == 'fractionDigits':
                out += ['1.' + '1' * v, '1.' + '1' * (v + 1)] if v else ['1', '1.5']
            elif k == 'pattern':
                s = ''.join(V.CLASSES[a[0]][0] * max(a[1], 1) if not a[0].startswith('=') else a[0][1:] * max(a[1], 1) for a in v['alts'][0])
                out += [s, s + s, s[:-1], s + '!']
            elif k == 'whiteSpace':
                out += ['  a  b ', 'a\tb']
    return out


def mutate(spec, root, muts):
    pool = boundary_texts(spec) or TEXTS
    for kind, i, j, t in muts:
        if isinstance(t, int):
            t = pool[t % len(pool)]
        parents = {c: p for p in root.iter() for c in p}
        els = list(root.iter())
        el = els[i % len(els)]
        leaves = [e for e in els if len(e) == 0]
        p = parents.get(el)
        if kind == 'text':
            (leaves or els)[i % len(leaves or els)].text = t
        elif kind == 'drop' and p is not None:
            p.remove(el)
        elif kind in ('dup', 'twice') and p is not None:
            for _ in range(1 + j % 4 if kind == 'dup' else 1):
                c = ET.fromstring(ET.tostring(el))
                p.insert(list(p).index(el) + (0 if kind == 'dup' else len(p)), c)
        elif kind == 'swap' and len(el) > 1:
            a, b = list(el)[j % len(el)], list(el)[(j + 1) % len(el)]
            ia, ib = list(el).index(a), list(el).index(b)
            el[ia], el[ib] = b, a
        elif kind == 'rename' and p is not None:
            names = sorted({(f.get('tag') or f['name']) for ty in spec['types'] + spec['groups'] for f in ty['fields']}) + ['other']
            ns = el.tag.split('}')[0] + '}' if el.tag[0] == '{' else ''
            el.tag = ns + names[j % len(names)]
        elif kind == 'ns':
            options = ['', 'urn:none'] + spec['schemas']
            ns = options[j % len(options)]
            local = el.tag.split('}')[-1]
            el.tag = '{%s}%s' % (ns, local) if ns else local
        elif kind == 'add':
            names = sorted({(f.get('tag') or f['name']) for ty in spec['types'] + spec['groups'] for f in ty['fields']}) + ['other']
            ns = ['', '{%s}' % spec['schemas'][0]][j % 2]
            c = ET.Element(ns + names[j % len(names)])
            c.text = t
            el.insert(j % (len(el) + 1), c)
        elif kind == 'attr-drop':
            withs = [e for e in els if e.attrib]
            if withs:
                e = withs[i % len(withs)]
                del e.attrib[sorted(e.attrib)[j % len(e.attrib)]]
        elif kind == 'attr-add':
            names = sorted({(f.get('tag') or f['name']) for ty in spec['types'] + spec['groups'] for f in ty['fields']}) + ['other']
            el.set(names[j % len(names)], t)
        elif kind == 'attr-text':
            withs = [e for e in els if e.attrib]
            if withs:
                e = withs[i % len(withs)]
                e.set(sorted(e.attrib)[j % len(e.attrib)], t)
        elif kind == 'nil':
            el.set(M.NIL_ATTR, ['true', '1', 'false'][j % 3])
            if j % 5:
                el.text = None
                for c in list(el):
                    el.remove(c)
        elif kind == 'unnil':
            el.attrib.pop(M.NIL_ATTR, None)
        elif kind == 'mixed':
            el.text = 'text'
    return root


def systematic(base):
    """Every element and attribute left out once, every element doubled (the first few)."""
    out = []
    for n in range(min(8, len(list(ET.fromstring(base).iter())))):
        for how in ('drop', 'double'):
            root = ET.fromstring(base)
            el = list(root.iter())[n]
            if not n:
                break
            p = next(p for p in root.iter() if any(c is el for c in p))
            i = [c is el for c in p].index(True)
            if how == 'drop':
                p.remove(el)
            else:
                p.insert(i, ET.fromstring(ET.tostring(el)))
            out.append(root)
        for a in sorted(list(ET.fromstring(base).iter())[n].attrib)[:4]:
            root = ET.fromstring(base)
            del list(root.iter())[n].attrib[a]
            out.append(root)
    return out


def check(case):
    from soapfish import py2xsd
    spec = case['spec']
    b = M.build(spec)
    try:
        ti = spec['root']
        s = spec['types'][ti]['s']
        try:
            ref = refxsd.xml_schema(spec)
        except etree.XMLSchemaParseError as e:
            raise HarnessError('reference schema: %s\n%s' % (e, refxsd.Writer(spec).schema(0)))
        if case['entry'] == 'xsd' and len(spec['schemas']) == 1:
            gen = etree.XMLSchema(py2xsd.generate_xsd(b.schema)).assertValid
        else:
            gen = py2xsd.schema_validator([b.schema])
        base = M.write_node(M.ref_render(spec, ti, case['v'], spec['tag'], spec['schemas'][s], spec['efd'], True))
        docs = [ET.fromstring(base)]
        for muts in case['docs']:
            docs.append(mutate(spec, ET.fromstring(base), muts))
        docs += systematic(base)
        pool = boundary_texts(spec) or TEXTS
        for i, t, nil in case['topdocs']:
            el = ET.Element('{%s}%s' % (spec['schemas'][0], spec['tops'][i % len(spec['tops'])]['tag']))
            el.text = pool[t % len(pool)] if isinstance(t, int) else t
            if nil:
                el.text = None
                el.set(M.NIL_ATTR, 'true')
            docs.append(el)
        if spec['tops'] and spec['tops'][-1]['tag'] == 'derived':
            for t in sorted(set(boundary_texts({'simple': spec['simple'], 'types': [], 'groups': [], 'tops': []})))[:25]:
                el = ET.Element('{%s}derived' % spec['schemas'][0])
                el.text = t
                docs.append(el)
        verdicts = set()
        for d in docs:
            xml = ET.tostring(d)
            want = ref.validate(etree.fromstring(xml))
            why = ref.error_log
            try:
                gen(etree.fromstring(xml))
                got = True
            except etree.DocumentInvalid as e:
                got, why = False, e
            verdicts.add(want)
            if got != want:
                raise Violation('the generated schema %s a document which the declared model %s: %s\n%s\n%s' % (
                    'accepts' if got else 'rejects', 'allows' if want else 'forbids', why, xml.decode(),
                    '\n'.join(etree.tostring(py2xsd.generate_xsd(x)).decode() for x in b.schemas)))
        return False in verdicts
    finally:
        M.dispose(b)


SUBS = [
    Sub('verdicts', cases, check, quick=2000, thorough=50000, shards=6,
        rule='random schema x valid document x 4..6 mutated documents, verdict compared with the reference schema; non-trivial when the reference rejects one'),
]
