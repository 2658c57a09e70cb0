"""C06: declared facets are enforced exactly, wherever a value enters."""
import decimal

from hypothesis import strategies as st

from harness import simple as S
from harness import values as V
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing against independent facet semantics, values generated around every boundary (Hypothesis)'
NOTE = 'fractionDigits above zero demands exactly that many digits (pinned by the repository tests), so values with fewer are left out.'
D = decimal.Decimal
PATHS = ['assign', 'ctor', 'append', 'listassign', 'listctor', 'insert', 'group', 'attr', 'content', 'parse-elem', 'parse-attr', 'parse-list', 'parse-group',
         'parse-content', 'text']


# --- types -----------------------------------------------------------------------------------------------
@st.composite
def string_facets(draw):
    f = {}
    names = draw(st.lists(st.sampled_from(['enumeration', 'pattern', 'length', 'minLength', 'maxLength', 'whiteSpace', 'whiteSpace']), min_size=1, max_size=3, unique=True))
    for n in names:
        if n == 'enumeration':
            f[n] = draw(st.lists(st.one_of(V.PLAIN, V.TEXT), min_size=1, max_size=4, unique=True))
        elif n == 'pattern':
            f[n] = draw(V.patterns())
        elif n == 'whiteSpace':
            f[n] = draw(st.sampled_from(['preserve', 'replace', 'collapse']))
        else:
            f[n] = draw(st.integers(0, 6))
    return f


@st.composite
def number_facets(draw, integer):
    f = {}
    names = draw(st.lists(st.sampled_from(['enumeration', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive', 'totalDigits', 'fractionDigits', 'pattern']),
                          min_size=1, max_size=3, unique=True))
    for n in names:
        if n == 'enumeration':
            f[n] = draw(st.lists(bounds(integer), min_size=1, max_size=4, unique_by=str))
        elif n == 'totalDigits':
            f[n] = draw(st.integers(1, 5))
        elif n == 'fractionDigits':
            f[n] = 0 if integer else draw(st.integers(0, 3))
        elif n == 'pattern':
            f[n] = draw(V.patterns(digits=True))
        else:
            f[n] = draw(bounds(integer))
    return f


def bounds(integer):
    ints = st.one_of(st.integers(-20, 20), st.sampled_from([0, 0, 1, -1, 100, 127, -128, 255, 10**6]))
    if integer:
        return ints
    return st.one_of(ints, st.tuples(st.integers(-2000, 2000), st.sampled_from([1, 2])).map(lambda t: format(D(t[0]).scaleb(-t[1]), 'f')))


# --- values ------------------------------------------------------------------------------------------------
@st.composite
def string_value(draw, f):
    opts = [V.TEXT, st.text(V.XML_CHARS, min_size=0, max_size=8)]
    for n in ('length', 'minLength', 'maxLength'):
        if n in f:
            k = f[n]
            opts += [st.sampled_from([max(k - 1, 0), k, k + 1]).flatmap(lambda m: st.text(V.XML_CHARS, min_size=m, max_size=m))] * 2
    if 'enumeration' in f:
        e = st.sampled_from(f['enumeration'])
        opts += [e, e, e.map(str.upper), st.tuples(e, st.sampled_from([' ', 'x', '\n', '\t'])).map(''.join), e.map(lambda s: s[:-1]), st.tuples(st.sampled_from([' ', 'x', '\n']), e).map(''.join),
                 st.tuples(e, e).map(''.join)]
    if 'pattern' in f:
        p = V.pat_value(f['pattern'])
        opts += [p, p, st.tuples(p, st.sampled_from(['\n', 'x', ' ', '0'])).map(''.join), st.tuples(st.sampled_from(['\n', 'x', ' ', '0']), p).map(''.join),
                 p.map(lambda s: s[:-1])]
    if f.get('whiteSpace') in ('replace', 'collapse'):
        core = st.one_of(*opts[2:]) if len(opts) > 2 else V.PLAIN
        sp = st.text(st.sampled_from(' \t\n'), max_size=3)
        opts += [st.tuples(sp, core, sp).map(''.join)] * 3 + [st.tuples(core, sp, core).map(''.join)]
        opts += [core.map(lambda s: s.replace(' ', '\t')), st.tuples(st.sampled_from(['\u00a0', '\u2003', '\x85']), core).map(''.join)]
    return ['s', draw(st.one_of(*opts)).replace('\r', '\n')]


@st.composite
def number_value(draw, base, f):
    integer = base in V.INT_BOUNDS
    cand = [D(0), D(1), D(-1)]
    for n in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
        if n in f:
            x = D(f[n])
            steps = [D(0), D(0), D(1), D(-1)] + ([] if integer else [D('0.1'), D('-0.1'), D('0.01'), D('-0.001')])
            cand += [x + s for s in steps]
    for e in f.get('enumeration', []):
        cand += [D(e), D(e), D(e) + 1] + ([] if integer else [D(e) + D('0.5')])
    if 'totalDigits' in f:
        t = f['totalDigits']
        cand += [D(10) ** t - 1, D(10) ** t, -(D(10) ** t - 1), -(D(10) ** t), D(10) ** (t - 1)]
        if not integer:
            cand += [(D(10) ** t - 1).scaleb(-1), (D(10) ** t + 1).scaleb(-1), (D(10) ** t - 1).scaleb(-t), (D(10) ** t + 1).scaleb(-t), D(1).scaleb(-t - 1), D(1).scaleb(-t)]
    if f.get('fractionDigits') is not None and not integer:
        n = f['fractionDigits']
        cand += [D('1.' + '1' * (n + 1)), D('-7.' + '3' * n) if n else D(-7), D('0.' + '0' * n + '1')]
    strategy = st.sampled_from(cand)
    if 'pattern' in f:
        strategy = st.one_of(strategy, V.pat_value(f['pattern']).filter(lambda s: s.isdigit()).map(lambda s: D(int(s))))
    if integer:
        strategy = st.one_of(strategy, st.integers(-300, 300).map(D))
        return ['i', int(draw(strategy))]
    x = draw(st.one_of(strategy, st.integers(-3000, 3000).map(lambda n: D(n).scaleb(-2))))
    if x == x.to_integral_value() and draw(st.booleans()):
        return ['i', int(x)]
    if base == 'Decimal' and draw(st.booleans()):
        return ['d', format(x, 'f')]
    return ['f', repr(float(x))]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from('snnn'))
    if kind == 's':
        base = draw(st.sampled_from(['String'] * 4 + ['AnyURI', 'NMTOKEN']))
        f = draw(string_facets())
        vs = [draw(string_value(f)) for _ in range(3)]
    else:
        base = draw(st.sampled_from(['Decimal'] * 3 + ['Integer'] * 2 + V.FLOATS + list(V.INT_BOUNDS)))
        f = draw(number_facets(base in V.INT_BOUNDS))
        if base in V.FLOATS:
            f.pop('totalDigits', None)
            f.pop('fractionDigits', None)
        vs = [draw(number_value(base, f)) for _ in range(3)]
    return {'base': base, 'f': f, 'vs': vs, 'path': draw(st.sampled_from(PATHS)), 'via': draw(st.sampled_from(['args', 'class', 'mixed', 'subclass'])),
            'how': draw(st.sampled_from(['type', 'instance']))}


def verdict(case, v):
    """(must accept, stored JSON value) or None when the outcome is pinned differently."""
    f, base = case['f'], case['base']
    if v[0] == 's':
        ok, s = V.string_ok(f, v[1])
        return ok, ['s', s]
    x = V.to_py(v)
    if base in V.INT_BOUNDS:
        lo, hi = V.INT_BOUNDS[base]
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            return False, v
    g = dict(f)
    if base in V.INT_BOUNDS:
        g.pop('fractionDigits', None)
    n = g.get('fractionDigits')
    if n:
        _, fr = V.digits_of(x)
        if fr < n or (v[0] == 'd' and len(v[1].partition('.')[2]) != fr):
            return None, v
    if 'pattern' in g:
        text = V.lexical(base, v)
        if text != str(x) or (base in V.FLOATS and v[0] == 'i'):
            return None, v  # the text is no canonical form of the value
    return V.number_ok(g, x), v


def make_type(case, xsd):
    base = getattr(xsd, case['base'])
    numeric = case['base'] in V.NUMERIC
    f = {}
    for k, x in V.build_facets(case['f']).items():
        if numeric and k == 'enumeration':
            x = [D(e) if isinstance(e, str) else e for e in x]
        elif numeric and isinstance(x, str) and k != 'pattern':
            x = D(x)
        f[k] = x
    via = case['via']
    if via == 'args':
        return base(**f)
    names = sorted(f)
    half = names[::2]
    if via == 'class':
        t = type('T', (base,), f)
    elif via == 'subclass':
        t = type('T', (type('B', (base,), {n: f[n] for n in half}),), {n: f[n] for n in names if n not in half})
    else:
        return type('T', (base,), {n: f[n] for n in half})(**{n: f[n] for n in names if n not in half})
    return t if case['how'] == 'type' else t()


def check(case):
    from soapfish import xsd
    path = case['path']
    t = make_type(case, xsd)
    place = {'attr': 'attr', 'append': 'list', 'listassign': 'list', 'listctor': 'list', 'insert': 'list', 'group': 'group', 'content': 'content',
             'parse-attr': 'attr', 'parse-list': 'list', 'parse-group': 'group', 'parse-content': 'content'}.get(path, 'elem')
    H = S.holder(xsd, t, place)
    interesting = set()
    for v in case['vs']:
        want, stored = verdict(case, v)
        if want is None:
            continue
        if path.startswith('parse') and place != 'attr' and v == ['s', '']:
            continue
        py = V.to_py(v)
        if path == 'text' and v[0] == 's':
            path = 'assign'
        obj = H()
        old = S.get(obj, place)
        err = None
        try:
            if path.startswith('parse'):
                obj = H.parsexml(S.doc(V.lexical(case['base'], v), place))
            elif path == 'ctor':
                obj = H(v=py)
            elif path == 'listctor':
                obj = H(v=[py])
            elif path == 'listassign':
                obj.v = [py]
            elif path == 'insert':
                obj.v.insert(0, py)
            elif path == 'text':
                obj.v = V.lexical(case['base'], v)
            else:
                S.put(obj, place, py)
        except ValueError as e:
            err = e
        got = S.get(obj, place)
        if err is not None:
            if want:
                raise Violation('%s %r refuses %r by %s: %s' % (case['base'], case['f'], py, path, err))
            if got != old and not (isinstance(got, list) and got == []):
                raise Violation('refused value %r was stored by %s: %r' % (py, path, got))
        else:
            if not want:
                raise Violation('%s %r accepts %r by %s' % (case['base'], case['f'], py, path))
            if not V.same(stored, got):
                raise Violation('%r entered by %s is stored as %r, expected %r' % (py, path, got, stored))
        interesting.add(want)
    return len(interesting) == 2


SUBS = [
    Sub('facets', cases, check, quick=12000, thorough=300000, shards=8,
        rule='random facet set x entry path x three values near its boundaries; non-trivial when both an accepted and a refused value were decided'),
]
