"""Model specifications (JSON), builders to soapfish classes, instance values, reference renderer and reference parser."""
import itertools
import keyword
import sys
import types as pytypes
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from . import values as V

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NIL_ATTR = '{%s}nil' % XSI

PY_NAMES = ['alpha', 'beta', 'gamma', 'delta', 'code', 'name', 'items', 'value', 'id', 'size', 'tailNumber', 'note', 'kind', 'z9', 'Upper', '_under', 'a', 'b', 'message', 'status', 'Fault', 'tag', 'text']
TAGS = ['class', 'import', 'from', 'Tail-Number', 'x.y', 'alpha', 'beta', 'name', 'code', 'A', 'item', '_x', 'nil', 'type', 'lambda']
NAMESPACES = ['urn:example:one', 'http://example.com/ns/two?x=1&y=2', 'http://example.com/three.xsd', 'tag:example.org,2020:x%20y', 'http://schemas.example.org/four/']
TYPE_NAMES = ['Person', 'Order', 'Flight', 'Airport', 'Weight', 'Node', 'Leg', 'Crew']
ROOT_TAGS = ['root', 'order', 'Flight', 'get-it', 'alpha']

TWINS = [NAMESPACES[:2], ['urn:example:one', 'urn:example:one/2'], ['http://example.com/three.xsd', 'http://example.com/three'], ['urn:example:one', 'URN:example:one']]
_counter = itertools.count()


class Options:
    """What a model may contain."""

    def __init__(self, **kw):
        self.refs = True            # Group / AttributeGroup / Content fields
        self.content = True
        self.groups = True          # Group (not only AttributeGroup)
        self.choice = True
        self.inherit = True
        self.recursive = True
        self.defaults = True
        self.prohibited = False
        self.tagnames = True
        self.elem_ns = True         # Element(namespace=...)
        self.nillable = True
        self.xsd_valid = False      # values must be valid for the XSD built-ins
        self.named_simple = True
        self.attributes = True
        self.max_types = 4
        self.max_fields = 5
        self.schemas = 2
        self.bases = None
        self.empty = False          # text elements may hold the empty string (which reads back as absent)
        self.long = False           # lists of hundreds of items
        self.py_tags = True         # tag names may equal other fields' Python names
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


@st.composite
def typeref(draw, spec, upto, o, allow_complex=True, simple_only_inline=False):
    k = draw(st.integers(0, 9))
    if allow_complex and upto and k < 3:
        return {'k': 'c', 'i': draw(st.integers(0, upto - 1))}
    if o.named_simple and spec['simple'] and k == 9 and not simple_only_inline:
        return {'k': 'n', 'i': draw(st.integers(0, len(spec['simple']) - 1))}
    t = draw(V.simple_types(bases=o.bases, xsd_valid=o.xsd_valid))
    return dict(t, k='s')


def similar(used):
    """Names which are nearly one of the given."""
    names = {y for x in used if x[0] not in '_*' for y in (x.upper(), x[0].upper() + x[1:], x + '_', x + '2', x[:-1])}
    return sorted(x for x in names if x and x not in used and x not in PY_NAMES and not keyword.iskeyword(x) and x[-1] not in '-.' and x not in ('xml', 'accept'))


@st.composite
def field_group(draw, spec, upto, o, used_names, used_tags, used_attrs, n, ind, elements_only=False, attrs_only=False):
    fields = []
    for _ in range(n):
        near = similar(used_names) if draw(st.integers(0, 5)) == 0 else []
        name = draw(st.sampled_from(near or [x for x in PY_NAMES if x not in used_names]))
        used_names.add(name)
        kinds = ['elem'] * 4
        if ind == 'Sequence':
            kinds += ['list'] * 2
        if o.attributes and not elements_only:
            kinds += ['attr'] * 2
        if attrs_only:
            kinds = ['attr']
        kind = draw(st.sampled_from(kinds))
        f = {'name': name, 'kind': kind, 'tag': None}
        used = used_attrs if kind == 'attr' else used_tags
        if kind == 'list' or (o.tagnames and draw(st.integers(0, 3)) == 0) or name in used:
            cand = [x for x in TAGS + ([name] if kind == 'list' else []) if x not in used
                    and (o.py_tags or x not in PY_NAMES or x == name)]
            if draw(st.integers(0, 5)) == 0:
                cand = [x for x in similar(used) if o.py_tags or x not in used_names] or cand
            f['tag'] = draw(st.sampled_from(cand))
        used.add(f['tag'] or name)
        if kind == 'attr':
            f['type'] = draw(typeref(spec, 0, o, allow_complex=False))
            f['use'] = draw(st.sampled_from(['required', 'optional', 'optional'] + (['prohibited'] if o.prohibited else [])))  # never set then
            if f['use'] == 'prohibited' and f['type']['k'] == 's':
                f['type']['f'] = {}  # libxml2 accepts no anonymous type there
            if o.defaults and (f['use'] == 'optional' and draw(st.integers(0, 3)) == 0 or f['use'] == 'required' and draw(st.integers(0, 4)) == 0):
                f['default'] = draw(simple_value_of(spec, f['type'], o))
        else:
            f['type'] = draw(typeref(spec, upto, o))
            f['nil'] = bool(o.nillable and draw(st.integers(0, 3)) == 0)
            if o.elem_ns and draw(st.integers(0, 7)) == 0:
                f['ns'] = draw(st.sampled_from(NAMESPACES))
            if kind == 'list':
                f['min'] = draw(st.sampled_from([None, 0, 0, 1, 2]))
                f['max'] = draw(st.sampled_from([None, 'unbounded', 'unbounded', 3, 5]))
                if f['min'] == 2 and f['max'] is None:
                    f['max'] = 3
            else:
                f['min'] = draw(st.sampled_from([0, 1, 1])) if ind != 'Choice' else 1
                if o.defaults and f['type']['k'] != 'c' and ind == 'Sequence' and draw(st.integers(0, 9)) == 0:
                    f['default'] = draw(simple_value_of(spec, f['type'], o))
        fields.append(f)
    elements = [f for f in fields if f['kind'] != 'attr']
    if o.elem_ns and spec['efd'] == 'qualified' and len(elements) > 1 and draw(st.integers(0, 5)) == 0:
        # two elements of one name in different namespaces
        a, b = draw(st.permutations(elements))[:2]
        a['ns'], b['ns'] = draw(st.permutations(draw(st.sampled_from(TWINS))))
        b['tag'] = a['tag'] or a['name']
    return fields


@st.composite
def simple_value_of(draw, spec, tr, o, empty=False):
    t = spec['simple'][tr['i']] if tr['k'] == 'n' else tr
    if empty and t['b'] == 'String' and V.string_ok(t['f'], '')[0] and draw(st.integers(0, 5)) == 0:
        return ['s', '']
    return draw(V.simple_values(t, xsd_valid=o.xsd_valid))


@st.composite
def specs(draw, o=None, efd=None):
    o = o or Options()
    ns_list = draw(st.lists(st.sampled_from(NAMESPACES), min_size=1, max_size=o.schemas, unique=True))
    spec = {'efd': efd or draw(st.sampled_from(['qualified', 'unqualified'])), 'schemas': ns_list, 'simple': [], 'types': [], 'groups': [],
            'reg': True}
    if o.named_simple:
        for i in range(draw(st.integers(0, 2))):
            t = draw(V.simple_types(bases=o.bases, xsd_valid=o.xsd_valid))
            spec['simple'].append(dict(t, name='Simple%d' % i))
    if o.refs and draw(st.integers(0, 3)) == 0:
        names, tags, at = set(), set(), set()
        for k in range(draw(st.sampled_from([1, 1, 2, 3]))):
            attrs = (draw(st.booleans()) or not o.groups) and o.attributes
            g = {'name': 'Grp%s' % (k or ''), 'attrs': attrs,
                 'fields': draw(field_group(spec, 0, o, names, tags, at, draw(st.integers(1, 2)), 'Sequence', elements_only=not attrs, attrs_only=attrs))}
            spec['groups'].append(g)
    chain = o.inherit and draw(st.integers(0, 7)) == 0  # every type derives from the one before
    n = draw(st.integers(1, o.max_types)) if not chain else 5
    for i in range(n):
        t = {'name': TYPE_NAMES[i], 'ind': 'Sequence', 'base': None, 's': 0, 'fields': []}
        # types of the imported schema come first so that dependencies point backwards
        t['s'] = 0 if len(ns_list) == 1 else (1 if i < n // 2 else 0)
        if o.choice and draw(st.integers(0, 5)) == 0:
            t['ind'] = 'Choice' if not chain else 'Sequence'
        elif draw(st.integers(0, 7)) == 0 and not chain:
            t['ind'] = 'All'
        used_n, used_t, used_a = set(), set(), set()
        if o.inherit and t['ind'] == 'Sequence' and (chain or draw(st.integers(0, 3)) == 0):
            cands = [j for j in range(i) if spec['types'][j]['ind'] == 'Sequence' and spec['types'][j]['s'] == t['s']
                     and len(all_fields(spec, j)) < 8 and not any(f['kind'] == 'content' for f in all_fields(spec, j))]
            if cands:
                t['base'] = cands[-1] if chain else draw(st.sampled_from(cands))
                for f in all_fields(spec, t['base']):
                    used_n.add(f['name'])
                    (used_a if f['kind'] == 'attr' else used_t).add(f.get('tag') or f['name'])
                    if f['kind'] == 'ref':
                        for gf in spec['groups'][f['g']]['fields']:
                            (used_a if gf['kind'] == 'attr' else used_t).add(gf.get('tag') or gf['name'])
                    if f['kind'] == 'content':
                        used_t.add('*content')
        upto = i
        if o.refs and spec['groups'] and t['s'] == 0 and t['ind'] == 'Sequence' and t['base'] is None and draw(st.booleans()):
            for k, g in enumerate(spec['groups']):
                if k and draw(st.integers(0, 3)) == 0:
                    continue
                for gf in g['fields']:
                    (used_a if gf['kind'] == 'attr' else used_t).add(gf.get('tag') or gf['name'])
                name = 'grp%s' % (k or '')
                used_n.add(name)
                t['fields'].append({'name': name, 'kind': 'ref', 'g': k})
        if o.refs and o.content and t['ind'] == 'Sequence' and t['base'] is None and not t['fields'] and draw(st.integers(0, 9)) == 0:
            # simple content: text plus attributes
            t['fields'].append({'name': 'content', 'kind': 'content', 'type': draw(typeref(spec, 0, o, allow_complex=False))})
            used_n.add('content')
            if o.attributes:
                t['fields'] += draw(field_group(spec, 0, o, used_n, used_t, used_a, draw(st.integers(0, 2)), 'Sequence', attrs_only=True))
        else:
            lo = 1 if not t['fields'] else 0
            t['fields'] += draw(field_group(spec, upto, o, used_n, used_t, used_a, draw(st.integers(lo, o.max_fields)), t['ind']))
            if t['ind'] == 'Choice' and not any(f['kind'] == 'elem' for f in t['fields']):
                t['fields'] += draw(field_group(spec, upto, o, used_n, used_t, used_a, 1, t['ind'], elements_only=True))
        if t['fields'] and t['fields'][0]['kind'] == 'ref' and draw(st.booleans()):
            t['fields'].append(t['fields'].pop(0))
        # recursion through a type given by its dotted name
        if o.recursive and t['ind'] == 'Sequence' and not any(f['kind'] == 'content' for f in t['fields']) and draw(st.integers(0, 9)) == 0 \
                and 'child' not in used_n and 'child' not in used_t:
            t['fields'].append({'name': 'child', 'kind': 'elem', 'tag': None, 'type': {'k': 'l', 'i': i}, 'nil': False, 'min': 0})
        spec['types'].append(t)
    spec['root'] = draw(st.integers(0, n - 1)) if draw(st.booleans()) else n - 1
    spec['tag'] = draw(st.sampled_from(ROOT_TAGS))
    return spec


def all_fields(spec, ti):
    t = spec['types'][ti]
    return (all_fields(spec, t['base']) if t['base'] is not None else []) + t['fields']


def flat_fields(spec, ti):
    return [g for f in all_fields(spec, ti) for g in (spec['groups'][f['g']]['fields'] if f['kind'] == 'ref' else [f])]


def simple_of(spec, tr):
    if tr['k'] == 'n':
        return spec['simple'][tr['i']]
    return tr


def is_complex(tr):
    return tr['k'] in 'cl'


# --- instances -------------------------------------------------------------------------------
# complex value: ['c', {field: value}]; list: ['l', [..]]; nil: ['nil']; a missing key means unset.
@st.composite
def instances(draw, spec, ti, o=None, full=False, depth=0):
    """full: required elements are present (the instance is valid under the schema)."""
    o = o or Options()
    out = {}
    t = spec['types'][ti]
    fields = all_fields(spec, ti)
    if t['ind'] == 'Choice':
        elems = [f for f in fields if f['kind'] != 'attr']
        chosen = draw(st.sampled_from(elems))
        fields = [f for f in fields if f['kind'] == 'attr' or f is chosen]
    for f in fields:
        k = f['kind']
        if k == 'ref':
            sub = {}
            for gf in spec['groups'][f['g']]['fields']:
                v = draw(field_value(spec, gf, o, full, depth, forced=full))
                if v is not None:
                    sub[gf['name']] = v
            out[f['name']] = ['c', sub]
            continue
        if k == 'content':
            if full or draw(st.integers(0, 3)):
                out[f['name']] = draw(simple_value_of(spec, f['type'], o))
            continue
        v = draw(field_value(spec, f, o, full, depth, forced=(t['ind'] == 'Choice' and k != 'attr')))
        if v is not None:
            out[f['name']] = v
    return ['c', out]


@st.composite
def one_value(draw, spec, f, o, full, depth):
    tr = f['type']
    # A nil element has no room for the required attributes of its type.
    may = f.get('nil') and not (full and is_complex(tr) and any(x['kind'] == 'attr' and x['use'] == 'required' for x in flat_fields(spec, tr['i'])))
    if may and draw(st.integers(0, 3)) == 0:
        return ['nil']
    if is_complex(tr):
        return draw(instances(spec, tr['i'], o, full, depth + 1))
    return draw(simple_value_of(spec, tr, o, empty=o.empty))


@st.composite
def field_value(draw, spec, f, o, full, depth, forced=False):
    k = f['kind']
    if k == 'attr':
        if f['use'] == 'required' or f['use'] != 'prohibited' and draw(st.integers(0, 2)):
            return draw(simple_value_of(spec, f['type'], o, empty=True))
        return None
    if k == 'list':
        lo = f['min'] or 0
        if full and f['min'] is None:
            lo = 0
        hi = lo + 3 if f['max'] in (None, 'unbounded') else f['max']
        if depth >= 3 and is_complex(f['type']):
            hi = lo
        n = draw(st.integers(lo, min(hi, lo + 3)))
        items = [draw(one_value(spec, f, o, full, depth)) for _ in range(n)]
        if o.long and n > 1 and f['max'] in (None, 'unbounded') and not depth and not is_complex(f['type']) and draw(st.integers(0, 9)) == 0:
            items = [items[i * i % n] for i in range(draw(st.sampled_from([130, 300, 1050])))]
        return ['l', items]
    required = (full and f.get('min', 1) == 1) or forced
    if f['type']['k'] == 'l' and depth >= 3:
        return None
    if required or draw(st.integers(0, 3)):
        return draw(one_value(spec, f, o, full, depth))
    return None


# --- building soapfish classes -------------------------------------------------------------------
class Built:
    pass


def declared_in(spec, tag, ti):
    return spec.get('where', {}).get(tag, spec['types'][ti]['s'])


def build(spec, register=None, elements=None, locations=None):
    """Build fresh soapfish classes (and schemas when registered) for a spec.

    Returns an object with .classes, .groups, .simple, .schemas, .schema (main), .root, .spec.
    """
    from soapfish import xsd
    b = Built()
    b.spec = spec
    modname = 'verif_models_%d' % next(_counter)
    module = pytypes.ModuleType(modname)
    sys.modules[modname] = module
    b.module = module
    b.simple, b.classes, b.groups = [], [], []
    for s in spec['simple']:
        base = b.simple[s['of']] if s.get('of') is not None else getattr(xsd, s['b'])
        cls = type(s['name'], (base,), V.build_facets(s['f']))
        b.simple.append(cls)

    def type_arg(tr):
        if tr['k'] == 'c':
            return b.classes[tr['i']]
        if tr['k'] == 'l':
            return '%s.%s' % (modname, spec['types'][tr['i']]['name'])
        if tr['k'] == 'n':
            return b.simple[tr['i']]
        return V.build_simple(tr, xsd)

    def make_field(f):
        k = f['kind']
        if k == 'ref':
            return xsd.Ref(b.groups[f['g']])
        if k == 'content':
            return xsd.Content(type_arg(f['type']))
        kw = {}
        if f.get('default') is not None:
            kw['default'] = V.to_py(f['default'])
        if k == 'attr':
            return xsd.Attribute(type_arg(f['type']), use=xsd.Use(f['use']), tagname=f['tag'], **kw)
        if f.get('ns'):
            kw['namespace'] = f['ns']
        if k == 'list':
            mx = f['max']
            return xsd.ListElement(type_arg(f['type']), f['tag'], minOccurs=f['min'], maxOccurs=xsd.UNBOUNDED if mx == 'unbounded' else mx,
                                   nillable=f['nil'], **kw)
        return xsd.Element(type_arg(f['type']), minOccurs=f['min'], tagname=f['tag'], nillable=f['nil'], **kw)

    for g in spec['groups']:
        attrs = {}
        for f in g['fields']:
            attrs[f['name']] = make_field(f)
        b.groups.append(type(g['name'], (xsd.AttributeGroup if g['attrs'] else xsd.Group,), attrs))
    for t in spec['types']:
        base = xsd.ComplexType if t['base'] is None else b.classes[t['base']]
        attrs = {'INDICATOR': getattr(xsd, t['ind'])}
        if t['base'] is not None:
            attrs['INHERITANCE'] = xsd.Inheritance.EXTENSION
        for f in t['fields']:
            attrs[f['name']] = make_field(f)
        cls = type(t['name'], (base,), attrs)
        cls.__module__ = modname
        setattr(module, t['name'], cls)
        b.classes.append(cls)
    b.root = b.classes[spec['root']]
    b.schemas = []
    b.schema = None
    if spec['reg'] if register is None else register:
        imported = None
        n = len(spec['schemas'])
        for s in reversed(range(n)):
            # an element is declared in the schema of its type unless the specification says otherwise
            els = {name: xsd.Element(b.classes[ti]) for name, ti in (elements or spec.get('elements') or {spec['tag']: spec['root']}).items()
                   if declared_in(spec, name, ti) == s}
            if spec.get('anon') and spec['types'][spec['root']]['s'] == s:
                els = {name: xsd.Element(b.root()) for name in els}
            for t in spec.get('tops', ()) if s == 0 else ():
                els[t['tag']] = xsd.Element(type_arg(t['type']), nillable=t['nil'], **({'substitutionGroup': t['subst']} if t.get('subst') else {}))
            kw = {}
            if locations and s in locations:
                kw['location'] = locations[s]
            sch = xsd.Schema(
                targetNamespace=spec['schemas'][s],
                elementFormDefault=xsd.ElementFormDefault(spec['efd']),
                simpleTypes=b.simple if s == n - 1 else [],
                groups=[g for g, gs in zip(b.groups, spec['groups']) if not gs['attrs']] if s == 0 else [],
                attributeGroups=[g for g, gs in zip(b.groups, spec['groups']) if gs['attrs']] if s == 0 else [],
                complexTypes=[c for i, (c, t) in enumerate(zip(b.classes, spec['types']))
                              if t['s'] == s and not (spec.get('anon') and i == spec['root'])],
                elements=els,
                imports=[imported] if imported is not None else [],
                **kw)
            b.schemas.insert(0, sch)
            imported = sch
        b.schema = b.schemas[0]
    return b


def dispose(b):
    sys.modules.pop(b.module.__name__, None)


def make(b, ti, v, how='assign'):
    """Build a soapfish instance from a complex JSON value through the public API."""
    spec = b.spec
    cls = b.classes[ti]
    return fill(b, cls, all_fields(spec, ti), v, how)


def fill(b, cls, fields, v, how):
    from soapfish import xsd
    spec = b.spec

    def conv(f, x):
        if x[0] == 'nil':
            return xsd.NIL
        if x[0] == 'c':
            return make(b, f['type']['i'], x, how)
        return V.to_py(x)
    if how == 'ctor':
        kw = {f['name']: conv(f, v[1][f['name']]) for f in fields
              if f['name'] in v[1] and f['kind'] not in ('list', 'ref')}
        obj = cls(**kw)
    else:
        obj = cls()
    for f in fields:
        if f['name'] not in v[1]:
            continue
        x = v[1][f['name']]
        if f['kind'] == 'list':
            for item in x[1]:
                getattr(obj, f['name']).append(conv(f, item))
        elif f['kind'] == 'ref':
            g = spec['groups'][f['g']]
            if how == 'ctor':
                setattr(obj, f['name'], fill(b, b.groups[f['g']], g['fields'], x, how))
            else:
                sub = getattr(obj, f['name'])
                for gf in g['fields']:
                    if gf['name'] not in x[1]:
                        continue
                    y = x[1][gf['name']]
                    if gf['kind'] == 'list':
                        for item in y[1]:
                            getattr(sub, gf['name']).append(conv(gf, item))
                    else:
                        setattr(sub, gf['name'], conv(gf, y))
        elif how != 'ctor':
            setattr(obj, f['name'], conv(f, x))
    return obj


def diff(b, fields, v, obj, parsed=True, path=''):
    """None when obj carries exactly the complex JSON value v, else a description of the first difference."""
    from soapfish import xsd
    spec = b.spec

    def one(f, x, got, p):
        if x[0] == 'nil':
            return None if got is xsd.NIL else f'{p}: expected NIL, got {got!r}'
        if got is xsd.NIL:
            return f'{p}: unexpected NIL'
        if x[0] == 'c':
            want = b.classes[f['type']['i']]
            if not isinstance(got, want):
                return f'{p}: expected a {want.__name__}, got {got!r}'
            return diff(b, all_fields(spec, f['type']['i']), x, got, parsed, p)
        if parsed and x == ['s', ''] and got is None and f['kind'] != 'attr':
            return None  # An empty element reads as absent.
        return None if V.same(x, got, parsed) else f'{p}: expected {x!r}, got {got!r}'

    for f in fields:
        if f['name'][0] == '?':
            continue  # the Python name is not specified
        p = path + '.' + f['name']
        got = getattr(obj, f['name'])
        if f['kind'] == 'list':
            want = v[1].get(f['name'], ['l', []])[1]
            if len(got) != len(want):
                return f'{p}: expected {len(want)} items, got {len(got)}'
            for i, (x, g) in enumerate(zip(want, got)):
                d = one(f, x, g, f'{p}[{i}]')
                if d:
                    return d
            continue
        if f['kind'] == 'ref':
            g = spec['groups'][f['g']]
            if got is None:
                return f'{p}: group is None'
            d = diff(b, g['fields'], v[1].get(f['name'], ['c', {}]), got, parsed, p)
            if d:
                return d
            continue
        want = v[1].get(f['name'])
        if want is None and f.get('default') is not None:
            want = f['default']
            parsed_ = parsed and f['kind'] != 'attr'
            d = None if (got is not None and got is not xsd.NIL and (V.same(want, got, parsed) or V.same(want, got, False))) \
                else f'{p}: expected default {want!r}, got {got!r}'
            del parsed_
        elif want is None:
            d = None if got is None else f'{p}: expected unset, got {got!r}'
        else:
            d = one(f, want, got, p)
        if d:
            return d
    return None


def reread(v):
    """The value as it is read from XML: a dateTime or time without an offset is taken as UTC."""
    if v[0] == 'c':
        return ['c', {k: reread(x) for k, x in v[1].items()}]
    if v[0] == 'l':
        return ['l', [reread(x) for x in v[1]]]
    if v[0] in ('dt', 't') and v[-1] is None:
        return v[:-1] + [0]
    return v


# --- reference renderer ----------------------------------------------------------------------------
# Node: (tag, attrs {name: ('lex', base, jv)} , children, text ('lex', base, jv) | None, nil)
class Node:
    __slots__ = ('tag', 'attrs', 'kids', 'text', 'nil')

    def __init__(self, tag):
        self.tag, self.attrs, self.kids, self.text, self.nil = tag, {}, [], None, False


def q(ns, name):
    return '{%s}%s' % (ns, name) if ns else name


def ref_render(spec, ti, v, tag, namespace, efd, registered):
    """Expected element tree for instance.xml(tag, namespace, efd)."""
    node = Node(q(namespace, tag))
    ref_fill(spec, ti, v, node, namespace, efd, registered)
    return node


def ref_fill(spec, ti, v, node, namespace, efd, registered):
    if registered:
        namespace = spec['schemas'][spec['types'][ti]['s']]
    ref_fields(spec, all_fields(spec, ti), v, node, namespace, efd, registered)


def ref_fields(spec, fields, v, node, namespace, efd, registered):
    def leaf(tr, x):
        return (simple_of(spec, tr)['b'], x)

    for f in fields:
        x = v[1].get(f['name'])
        if f['kind'] == 'ref':
            g = spec['groups'][f['g']]
            gns = spec['schemas'][0] if registered else namespace
            ref_fields(spec, g['fields'], x or ['c', {}], node, gns, efd, registered)
            continue
        if f['kind'] == 'content':
            if x is not None:
                node.text = leaf(f['type'], x)
            continue
        if x is None:
            x = f.get('default')
        if x is None:
            continue
        if f['kind'] == 'attr':
            node.attrs[f['tag'] or f['name']] = leaf(f['type'], x)
            continue
        ns = f.get('ns') or namespace
        ename = q(ns if efd == 'qualified' else None, f['tag'] or f['name'])
        for item in (x[1] if f['kind'] == 'list' else [x]):
            kid = Node(ename)
            if item[0] == 'nil':
                kid.nil = True
            elif item[0] == 'c':
                ref_fill(spec, f['type']['i'], item, kid, ns, efd, registered)
            else:
                kid.text = leaf(f['type'], item)
            node.kids.append(kid)


def node_diff(node, el, path=''):
    """Compare the expected Node with a stdlib ElementTree element; None when equal."""
    p = path + '/' + node.tag
    if el.tag != node.tag:
        return f'{p}: tag is {el.tag!r}'
    attrs = dict(el.attrib)
    nil = attrs.pop(NIL_ATTR, None)
    if node.nil != (nil is not None) or (node.nil and nil not in ('true', '1')):
        return f'{p}: xsi:nil is {nil!r}, expected nil={node.nil}'
    if set(attrs) != set(node.attrs):
        return f'{p}: attributes {sorted(attrs)}, expected {sorted(node.attrs)}'
    for a, (base, jv) in node.attrs.items():
        if not V.lex_means(base, jv, attrs[a]):
            return f'{p}/@{a}: {attrs[a]!r} does not denote {jv!r} as {base}'
    if node.text is not None:
        if len(el):
            return f'{p}: unexpected children'
        if not V.lex_means(node.text[0], node.text[1], el.text or ''):
            return f'{p}: text {el.text!r} does not denote {node.text[1]!r} as {node.text[0]}'
        return None
    if not node.kids and (el.text or '').strip():
        return f'{p}: unexpected text {el.text!r}'
    got, want = [k.tag for k in el], [k.tag for k in node.kids]
    if got != want:
        return f'{p}: children {got}, expected {want}'
    for t in [el.text] + [k.tail for k in el]:
        if (t or '').strip() :
            return f'{p}: unexpected text {t!r}'
    for k, e in zip(node.kids, el):
        d = node_diff(k, e, p)
        if d:
            return d
    return None


# --- reference document writer -----------------------------------------------------------------------
def esc(s, quot=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if quot:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def to_lex(pair):
    return V.lexical(*pair)


def write_node(node, scope=None):
    """Plain serialisation of a Node: default namespace declarations, no added white space."""
    tag, decl, scope = _tag(node.tag, scope)
    s = '<' + tag + decl
    if node.nil:
        s += ' xmlns:xsi="%s" xsi:nil="true"' % XSI
    for a, pair in node.attrs.items():
        s += ' %s="%s"' % (a, esc(to_lex(pair), True))
    body = esc(to_lex(node.text)) if node.text is not None else ''.join(write_node(k, scope) for k in node.kids)
    return s + ('/>' if not body else '>' + body + '</' + tag + '>')


def _tag(tag, scope):
    ns, local = tag[1:].split('}') if tag[0] == '{' else (None, tag)
    decl = ''
    if ns != scope:
        decl = ' xmlns="%s"' % esc(ns or '', True)
    return local, decl, ns


def et(xml):
    return ET.fromstring(xml)
