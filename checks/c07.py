"""C07: instances are isolated and a refused change alters nothing (histories over several live instances)."""
import copy
import operator

from hypothesis import strategies as st

from harness import models as M
from harness import values as V
from harness.core import Sub, Violation

TECHNIQUE = 'stateful model-based testing: operation histories over several live instances against plain dictionaries (Hypothesis)'
NOTE = 'After every step every live instance, and a new instance of every class, is compared with the reference model.'
O = M.Options(max_fields=4)
REFUSED = (ValueError, AttributeError, TypeError)


def bad_simple(t):
    b, f = t['b'], t['f']
    out = [['x', 'object'], ['x', 'bytes']]
    if b in V.STRINGS:
        out += [['i', 5], ['f', '1.5'], ['b', True]]
        if 'enumeration' in f:
            out += [['s', f['enumeration'][0] + 'zz' * 9]]
        if 'length' in f:
            out += [['s', 'q' * (f['length'] + 1)], ['s', 'q' * (f['length'] - 1)]]
        if 'maxLength' in f:
            out += [['s', 'q' * (f['maxLength'] + 1)]]
    elif b == 'Boolean':
        out += [['s', 'maybe'], ['i', 7]]
    elif b in V.TEMPORAL:
        out += [['i', 5], ['s', 'never']]
    else:
        out += [['s', 'zz'], ['s', '1x']]
        if 'maxInclusive' in f:
            out += [['i', f['maxInclusive'] + 1]]
        if 'minInclusive' in f:
            out += [['i', f['minInclusive'] - 1]]
        if b in V.INT_BOUNDS:
            lo, hi = V.INT_BOUNDS[b]
            out += ([['i', lo - 1]] if lo is not None else []) + ([['i', hi + 1]] if hi is not None else [])
    return out


@st.composite
def bad_value(draw, spec, f):
    """A value the field must refuse."""
    if f['kind'] == 'ref':
        return draw(st.sampled_from([['x', 'object'], ['s', 'zz'], ['i', 1]]))
    if M.is_complex(f.get('type', {'k': 's'})):
        opts = [['x', 'object'], ['s', 'zz'], ['x', 'stranger']]
    else:
        opts = bad_simple(M.simple_of(spec, f['type']))
    if not f.get('nil') and f['kind'] in ('elem', 'list', 'attr'):
        opts.append(['nil'])
    return draw(st.sampled_from(opts))


@st.composite
def ops(draw, spec, slots):
    """One operation, fully described by data: path = nested field names to walk first (skipped when absent)."""
    slot = draw(st.integers(0, len(slots) - 1))
    kind = draw(st.sampled_from(['set'] * 4 + ['append'] * 3 + ['bad'] * 4 + ['new', 'unset', 'render', 'parse', 'unknown', 'overflow', 'delitem', 'badlist', 'badctor', 'setlist', 'spare', 'render', 'share', 'listop', 'listop', 'badlistop', 'shrink', 'notlist', 'repeat', 'copy']))
    op = {'op': kind, 'slot': slot}
    if kind == 'new':
        op['v'] = draw(M.instances(spec, slots[slot], O)) if draw(st.booleans()) else ['c', {}]
        op['how'] = draw(st.sampled_from(['assign', 'ctor']))
        return op
    if kind == 'parse':
        op['v'] = draw(M.instances(spec, slots[slot], O))
        op['bad'] = draw(st.integers(0, 3)) == 0
        return op
    if kind == 'render':
        return rendering(draw, slot)
    if kind in ('spare', 'copy'):
        return op
    ti, path, fields = slots[slot], [], M.all_fields(spec, slots[slot])
    while True:
        nested = [f for f in fields if f['kind'] in ('ref', 'elem', 'list') and (f['kind'] == 'ref' or (M.is_complex(f['type'])))]
        if not nested or len(path) >= 3 or draw(st.integers(0, 2)) != 0:
            break
        f = draw(st.sampled_from(nested))
        path.append([f['name'], draw(st.integers(0, 2)) if f['kind'] == 'list' else None])
        fields = spec['groups'][f['g']]['fields'] if f['kind'] == 'ref' else M.all_fields(spec, f['type']['i'])
    op['path'] = path
    if kind == 'unknown':
        names = {f['name'] for f in fields}
        op['field'] = draw(st.sampled_from([n for n in ['zz', 'Alpha', 'alpha_', '_meta_', 'x-y', 'class'] + M.TAGS if n not in names and not n.startswith('_')]))
        return op
    pool = fields
    if kind == 'share':
        op['other'] = draw(st.integers(0, len(slots) - 1))
        op['path'] = path = []
        fields = M.all_fields(spec, ti)
    if kind in ('append', 'overflow', 'delitem', 'badlist', 'setlist', 'share', 'listop', 'badlistop', 'shrink', 'notlist', 'repeat'):
        pool = [f for f in fields if f['kind'] == 'list' and (kind != 'overflow' or isinstance(f['max'], int)) and not (kind == 'repeat' and M.is_complex(f['type']))]
    elif kind == 'set':
        pool = [f for f in fields if f['kind'] != 'list']
    elif kind == 'unset':
        pool = [f for f in fields if f['kind'] in ('elem', 'attr', 'content') and f.get('default') is None]
    elif kind == 'badctor':
        pool = [f for f in M.all_fields(spec, ti) if f['kind'] != 'list']
        op['path'] = []
    if not pool:
        return rendering(draw, slot)
    f = draw(st.sampled_from(pool))
    op['field'] = f['name']
    if kind == 'share' and (slots[op['other']] != ti or M.is_complex(f['type'])):
        return rendering(draw, slot)
    if kind in ('append', 'overflow'):
        op['v'] = draw(M.one_value(spec, f, O, False, 1))
    elif kind in ('setlist', 'badlist'):
        n = draw(st.integers(0 if kind == 'setlist' else 1, 3))
        if isinstance(f['max'], int):
            n = min(n, f['max'] - (kind == 'badlist'))
        op['v'] = ['l', [draw(M.one_value(spec, f, O, False, 1)) for _ in range(n)]]
        if kind == 'badlist':
            op['bad'] = draw(bad_value(spec, f))
            op['at'] = draw(st.integers(0, n))
    elif kind in ('listop', 'badlistop'):
        op['how'] = draw(st.sampled_from(['extend', 'generator', 'iadd', 'attr-iadd', 'insert', 'setitem', 'slice', 'step', 'assign', 'tuple']))
        op['at'] = [draw(st.integers(-4, 4)), draw(st.integers(-4, 4))]
        op['v'] = ['l', [draw(M.one_value(spec, f, O, False, 1)) for _ in range(draw(st.integers(0, 4)))]]
        if kind == 'badlistop':
            op['v'][1].insert(draw(st.integers(0, len(op['v'][1]))), ['bad', draw(bad_value(spec, f))])
    elif kind == 'notlist':
        op['v'] = draw(st.sampled_from(['ab', '1', '12', '', 5, 0, 1.5, True, {'1': 1}, {'a': None}]))
    elif kind == 'repeat':
        op['n'], op['how'] = draw(st.integers(-1, 4)), draw(st.sampled_from(['list', 'attribute']))
    elif kind == 'shrink':
        op['how'] = draw(st.sampled_from(['pop', 'pop0', 'clear', 'reverse', 'del', 'delslice']))
    elif kind == 'set':
        if f['kind'] == 'ref':
            sub = {}
            for gf in spec['groups'][f['g']]['fields']:
                x = draw(M.field_value(spec, gf, O, False, 1))
                if x is not None:
                    sub[gf['name']] = x
            op['v'] = ['c', sub]
        elif f['kind'] in ('attr', 'content'):
            op['v'] = draw(M.simple_value_of(spec, f['type'], O))
        else:
            op['v'] = draw(M.one_value(spec, f, O, False, 1))
    elif kind in ('bad', 'badctor'):
        op['v'] = draw(bad_value(spec, f)) if f['kind'] != 'list' or True else None
    return op


def rendering(draw, slot):
    return {'op': 'render', 'slot': slot, 'ns': draw(st.sampled_from([None, 'urn:a', 'urn:b'])), 'efd': draw(st.sampled_from(['qualified', 'unqualified']))}


@st.composite
def cases(draw):
    spec = draw(M.specs(O))
    spec['reg'] = draw(st.booleans())
    n = len(spec['types'])
    slots = [spec['root'], spec['root']] + draw(st.lists(st.integers(0, n - 1), max_size=2))
    return {'spec': spec, 'slots': slots, 'ops': draw(st.lists(ops(spec, slots), min_size=5, max_size=20)),
            'final': [draw(M.instances(spec, spec['root'], O, True)), draw(st.sampled_from([['urn:a', 'urn:b'], ['urn:b', 'urn:a'], [None, 'urn:a'], ['urn:a', None]]))]}


def with_defaults(spec, fields, v):
    """The content as it is written: with the defaults of the fields which are not set."""
    if v[0] != 'c':
        return v
    out = dict(v[1])
    for f in fields:
        x = out.get(f['name'])
        if x is None:
            if f.get('default') is not None:
                out[f['name']] = f['default']
        elif f['kind'] == 'ref':
            out[f['name']] = with_defaults(spec, spec['groups'][f['g']]['fields'], x)
        elif M.is_complex(f.get('type', {'k': 's'})):
            inner = M.all_fields(spec, f['type']['i'])
            out[f['name']] = ['l', [with_defaults(spec, inner, y) for y in x[1]]] if x[0] == 'l' else with_defaults(spec, inner, x)
    return ['c', out]


def change_list(how, items, new, a, z):
    if how in ('extend', 'generator'):
        items.extend(iter(new) if how == 'generator' else new)
    elif how in ('iadd', 'attr-iadd'):
        items += new
    elif how == 'insert':
        items.insert(a, new[0])
    elif how == 'setitem':
        items[a] = new[0]
    elif how == 'slice':
        items[a:z] = new
    elif how == 'step':
        items[a::2] = new
    else:
        items[:] = new


def shrink(how, items):
    if how in ('pop', 'pop0', 'del') and items:
        del items[0 if how == 'pop0' else -1]
    elif how == 'clear':
        items.clear()
    elif how == 'reverse':
        items.reverse()
    elif how == 'delslice':
        del items[1:]


class World:
    def __init__(self, case):
        self.case, self.spec = case, case['spec']
        self.b = M.build(self.spec)
        self.live = []
        for ti in case['slots']:
            self.live.append([ti, self.b.classes[ti](), ['c', {}]])
        self.extra = []   # instances that must never change again: [ti, obj, model]
        self.refused = self.changed = 0

    def group_model(self, model, name):
        return model[1].setdefault(name, ['c', {}])

    def walk(self, obj, model, ti, path):
        """Follow a path through the real and the model instance; None when it does not exist."""
        from soapfish import xsd
        fields = M.all_fields(self.spec, ti)
        for name, index in path:
            f = next(x for x in fields if x['name'] == name)
            if f['kind'] == 'ref':
                model = model[1].setdefault(name, ['c', {}])
                obj = getattr(obj, name)
                fields = self.spec['groups'][f['g']]['fields']
                continue
            m = model[1].get(name)
            if m is None:
                return None
            nxt = getattr(obj, name)
            if f['kind'] == 'list':
                if not m[1]:
                    return None
                index %= len(m[1])
                m, nxt = m[1][index], nxt[index]
            if m[0] == 'nil':
                return None
            if nxt is xsd.NIL:
                return None
            obj, model, fields = nxt, m, M.all_fields(self.spec, f['type']['i'])
        return obj, model, fields

    def py(self, f, v):
        from soapfish import xsd
        if v[0] == 'nil':
            return xsd.NIL
        if v[0] == 'x':
            if v[1] == 'stranger':
                return type('Stranger', (xsd.ComplexType,), {'a': xsd.Element(xsd.String)})()
            return {'object': object(), 'bytes': b'bytes'}[v[1]]
        if v[0] == 'c':
            if f['kind'] == 'ref':
                g = self.spec['groups'][f['g']]
                return M.fill(self.b, self.b.groups[f['g']], g['fields'], v, 'assign')
            return M.make(self.b, f['type']['i'], v)
        return V.to_py(v)

    def refuse(self, what, fn):
        try:
            fn()
        except REFUSED:
            self.refused += 1
            return
        raise Violation('not refused: ' + what)

    def list_operation(self, target, f, m, op):
        """Whatever way the items of a list are changed, they are all valid and not too many, or nothing changes."""
        name, how, (a, z) = f['name'], op['how'], op['at']
        cur = m[1].setdefault(name, ['l', []])
        model = list(cur[1])
        bad = [v[0] == 'bad' for v in op['v'][1]]
        if how in ('insert', 'setitem'):
            if not bad:
                return
            bad, op_values = bad[:1], op['v'][1][:1]
        else:
            op_values = op['v'][1]
        data = [v[1] if v[0] == 'bad' else v for v in op_values]
        items = [self.py(f, v) for v in data]
        real = getattr(target, name)
        if how == 'setitem' and not -len(model) <= a < len(model) or how == 'step' and len(model[a::2]) != len(data):
            return  # no such item
        change_list(how, model, data, a, z)
        fn = {'assign': lambda: setattr(target, name, items), 'tuple': lambda: setattr(target, name, tuple(items)),
              'attr-iadd': lambda: setattr(target, name, operator.iadd(real, items))}.get(how, lambda: change_list(how, real, items, a, z))
        if any(bad) or isinstance(f['max'], int) and len(model) > f['max']:
            self.refuse('%s %r' % (how, items), fn)
        else:
            fn()
            cur[1] = copy.deepcopy(model)
            self.changed += 1

    def step(self, op):
        k = op['op']
        slot = self.live[op['slot']]
        ti, obj, model = slot
        spec, b = self.spec, self.b
        if k == 'new':
            self.extra = (self.extra + [list(slot)])[-2:]
            slot[1], slot[2] = M.make(b, ti, op['v'], op['how']), copy.deepcopy(op['v'])
            return
        if k == 'parse':
            ns = spec['schemas'][spec['types'][ti]['s']]
            text = M.write_node(M.ref_render(spec, ti, op['v'], 'doc', ns, spec['efd'], True))
            if op['bad']:
                try:
                    b.classes[ti].parsexml(text[:-3])
                except Exception:
                    self.refused += 1
                    return
                raise Violation('truncated document was parsed: ' + text[:-3])
            self.extra = (self.extra + [list(slot)])[-2:]
            slot[1], slot[2] = b.classes[ti].parsexml(text), M.reread(with_defaults(spec, M.all_fields(spec, ti), op['v']))
            self.changed += 1
            return
        if k == 'render':
            try:
                xml = obj.xml('r', namespace=op['ns'], elementFormDefault=op['efd'])
            except ValueError:
                pass  # incomplete instances cannot be rendered
            else:
                # what has been rendered before does not matter
                d = M.node_diff(M.ref_render(spec, ti, model, 'r', op['ns'], op['efd'], spec['reg']), M.et(xml))
                if d:
                    raise Violation('rendered in %r, %s: %s\n%s' % (op['ns'], op['efd'], d, xml.decode()))
            str(obj), repr(obj), obj == obj, hash(obj)
            return
        if k == 'spare':
            self.extra = (self.extra + [[ti, b.classes[ti](), ['c', {}]]])[-2:]
            return
        if k == 'copy':
            # a copy has the same content and a life of its own
            self.extra = (self.extra + [list(slot)])[-2:]
            slot[1], slot[2] = copy.deepcopy(obj), copy.deepcopy(model)
            self.changed += 1
            return
        if k == 'badctor':
            f = next(x for x in M.all_fields(spec, ti) if x['name'] == op['field'])
            v = self.py(f, op['v'])
            self.refuse('constructor %s=%r' % (f['name'], v), lambda: b.classes[ti](**{f['name']: v}))
            return
        at = self.walk(obj, model, ti, op['path'])
        if at is None:
            return
        target, m, fields = at
        if k == 'unknown':
            self.refuse('attribute ' + op['field'], lambda: setattr(target, op['field'], 'x'))
            return
        f = next(x for x in fields if x['name'] == op['field'])
        name = f['name']
        if k == 'set':
            setattr(target, name, self.py(f, op['v']))
            m[1][name] = copy.deepcopy(op['v'])
            self.changed += 1
        elif k == 'unset':
            setattr(target, name, None)
            m[1].pop(name, None)
        elif k == 'append':
            cur = m[1].setdefault(name, ['l', []])
            v = self.py(f, op['v'])
            if isinstance(f['max'], int) and len(cur[1]) >= f['max']:
                self.refuse('item beyond maximum', lambda: getattr(target, name).append(v))
            else:
                getattr(target, name).append(v)
                cur[1].append(copy.deepcopy(op['v']))
                self.changed += 1
        elif k == 'overflow':
            cur = m[1].setdefault(name, ['l', []])
            v = self.py(f, op['v'])
            while len(cur[1]) < f['max']:
                getattr(target, name).append(self.py(f, op['v']))
                cur[1].append(copy.deepcopy(op['v']))
            self.refuse('item beyond maximum', lambda: getattr(target, name).append(v))
        elif k == 'delitem':
            cur = m[1].setdefault(name, ['l', []])
            if cur[1]:
                del getattr(target, name)[-1]
                cur[1].pop()
                self.changed += 1
        elif k in ('listop', 'badlistop'):
            self.list_operation(target, f, m, op)
        elif k == 'repeat':
            cur = m[1].setdefault(name, ['l', []])
            real = getattr(target, name)
            fn = (lambda: operator.imul(real, op['n'])) if op['how'] == 'list' else (lambda: setattr(target, name, operator.imul(real, op['n'])))
            if isinstance(f['max'], int) and len(cur[1]) * op['n'] > f['max']:
                self.refuse('%s *= %d' % (name, op['n']), fn)
            else:
                fn()
                cur[1][:] = copy.deepcopy(cur[1] * op['n'])
        elif k == 'notlist':
            self.refuse('%s=%r' % (name, op['v']), lambda: setattr(target, name, op['v']))
            self.refuse('constructor %s=%r' % (name, op['v']), lambda: type(target)(**{name: op['v']}))
        elif k == 'shrink':
            shrink(op['how'], getattr(target, name))
            shrink(op['how'], m[1].setdefault(name, ['l', []])[1])
            self.changed += 1
        elif k == 'setlist':
            setattr(target, name, [self.py(f, x) for x in op['v'][1]])
            m[1][name] = copy.deepcopy(op['v'])
            self.changed += 1
        elif k == 'share':
            # the list of another instance: both hold the same items, but are not the same list
            other = self.live[op['other']]
            setattr(target, name, getattr(other[1], name))
            m[1][name] = copy.deepcopy(other[2][1].get(name, ['l', []]))
            self.changed += 1
        elif k == 'badlist':
            items = [self.py(f, x) for x in op['v'][1]]
            items.insert(op['at'], self.py(f, op['bad']))
            self.refuse('list %r' % items, lambda: setattr(target, name, items))
        elif k == 'bad':
            v = self.py(f, op['v'])
            if f['kind'] == 'list':
                self.refuse('append %s %r' % (name, v), lambda: getattr(target, name).append(v))
            else:
                self.refuse('%s=%r' % (name, v), lambda: setattr(target, name, v))

    def verify(self, after):
        for i, (ti, obj, model) in enumerate(self.live + self.extra):
            d = M.diff(self.b, M.all_fields(self.spec, ti), model, obj)
            if d:
                raise Violation('instance %d after %s: %s' % (i, after, d))
        for ti, cls in enumerate(self.b.classes):
            d = M.diff(self.b, M.all_fields(self.spec, ti), ['c', {}], cls(), parsed=False)
            if d:
                raise Violation('a new %s after %s is not empty: %s' % (cls.__name__, after, d))


def check(case):
    w = World(case)
    try:
        w.verify('creation')
        for i, op in enumerate(case['ops']):
            w.step(op)
            w.verify('step %d (%s)' % (i, op['op']))
        value, namespaces = case.get('final') or (None, [])
        for ns in namespaces:
            # Complete instances, of the root type: rendering leaves no trace either.
            w.live[0][1:] = M.make(w.b, case['slots'][0], value), copy.deepcopy(value)
            w.step({'op': 'render', 'slot': 0, 'ns': ns, 'efd': 'qualified'})
            w.verify('rendering in %r' % (ns,))
        return w.refused >= 1 and w.changed >= 2
    finally:
        M.dispose(w.b)


# --- Defaults which are instances themselves -------------------------------------

TEXT = st.text('abxyz', min_size=1, max_size=3)
PERSON = st.fixed_dictionaries({'n': st.none() | TEXT, 'l': st.lists(TEXT, max_size=2), 'i': st.none() | st.fixed_dictionaries({'t': st.none() | TEXT})})


@st.composite
def defaults(draw):
    ops = [draw(st.sampled_from(['new', 'text', 'append', 'deep', 'replace', 'unset', 'parse', 'render', 'copy', 'other'])) for _ in range(draw(st.integers(3, 12)))]
    return {'default': draw(PERSON), 'where': draw(st.sampled_from(['own', 'inherited', 'group', 'choice', 'shared'])), 'nillable': draw(st.booleans()),
            'ops': [[k, draw(st.integers(0, 5)), draw(PERSON) if k == 'replace' else draw(TEXT)] for k in ops]}


def check_defaults(case):
    from soapfish import xsd

    class Inner(xsd.ComplexType):
        t = xsd.Attribute(xsd.String, use='optional')

    class Person(xsd.ComplexType):
        n = xsd.Element(xsd.String, minOccurs=0)
        l = xsd.ListElement(xsd.String, 'l', minOccurs=0)
        i = xsd.Element(Inner, minOccurs=0)

    def make(v):
        p = Person(n=v['n'], l=v['l'])
        if v['i'] is not None:
            p.i = Inner(t=v['i']['t'])
        return p

    default = make(case['default'])
    element = xsd.Element(Person, minOccurs=0, default=default, nillable=case['nillable'])
    where = case['where']
    fields = {'p': element, 'other': xsd.Element(xsd.String, minOccurs=0)}
    if where == 'inherited':
        cls = type('A', (type('Base', (xsd.ComplexType,), {'p': element}),), {'other': fields['other']})
    elif where == 'group':
        cls = type('A', (xsd.ComplexType,), {'g': xsd.Ref(type('G', (xsd.Group,), fields))})
    elif where == 'shared':
        fields['p2'] = xsd.Element(Person, minOccurs=0, default=default)
        cls = type('A', (xsd.ComplexType,), fields)
    else:
        cls = type('A', (xsd.ComplexType,), dict(fields, INDICATOR=xsd.Choice if where == 'choice' else xsd.Sequence))
    at = (lambda x: x.g) if where == 'group' else (lambda x: x)
    names = ['p', 'p2'] if where == 'shared' else ['p']

    def read(p):
        return None if p is None else {'n': p.n, 'l': list(p.l), 'i': None if p.i is None else {'t': p.i.t}}

    fresh = lambda: {name: copy.deepcopy(case['default']) for name in names}
    live = [[cls(), fresh()], [cls(), fresh()]]
    changed = 0
    for k, slot, x in case['ops']:
        obj, model = live[slot % len(live)]
        name = names[slot % len(names)]
        p, m = getattr(at(obj), name), model[name]
        if k == 'new':
            live.append([cls(), fresh()])
        elif k == 'text' and p is not None:
            p.n = m['n'] = x
        elif k == 'append' and p is not None:
            p.l.append(x)
            m['l'].append(x)
        elif k == 'deep' and p is not None and p.i is not None:
            p.i.t = m['i']['t'] = x
        elif k == 'replace':
            setattr(at(obj), name, make(x))
            model[name] = copy.deepcopy(x)
        elif k == 'unset':
            setattr(at(obj), name, None)
            model[name] = None
        elif k == 'parse':
            live.append([cls.parsexml('<a><other>%s</other></a>' % x), fresh()])
        elif k == 'render':
            obj.xml('a')
        elif k == 'copy':
            live.append([copy.deepcopy(obj), copy.deepcopy(model)])
        elif k == 'other':
            at(obj).other = x
        changed += k in ('text', 'append', 'deep') and p is not None
        for i, (o, want) in enumerate(live + [[cls(), fresh()]]):
            got = {name: read(getattr(at(o), name)) for name in names}
            if got != want:
                raise Violation('%s after %s of %d: %r is not %r' % ('a new instance' if i == len(live) else 'instance %d' % i, k, slot % len(live), got, want))
    return changed


SUBS = [
    Sub('history', cases, check, quick=2400, thorough=50000, shards=8,
        rule='history of 5-20 operations over 2-4 live instances; non-trivial when at least two changes took effect and one was refused'),
    Sub('defaults', defaults, check_defaults, quick=1200, thorough=20000, shards=4,
        rule='history of 3-12 operations over instances of a model with an instance as default; non-trivial when the content of such a default was changed'),
]
