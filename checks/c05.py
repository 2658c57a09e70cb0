"""C05: numbers and booleans."""
import decimal
import math
import re

from hypothesis import strategies as st

from harness import simple as S
from harness import values as V
from harness.core import HarnessError, Sub, Violation

TECHNIQUE = 'property-based testing against exact arithmetic and libxml2 datatype validation (Hypothesis)'
NOTE = 'decimal text reads back as the nearest double (pinned by the repository tests); an empty element and the text "nil" read as absent.'
ASSUMPTIONS = ['libxml2 implements the XSD numeric and boolean lexical spaces']
D = decimal.Decimal
BASES = V.NUMERIC + ['Boolean']


def in_space(base, jv):
    """True, False, or None when the library may decide (another Python type denoting a value of the space)."""
    k = jv[0]
    if base == 'Boolean':
        if k == 'b':
            return True
        return None if k in 'ifd' and V.to_py(jv) in (0, 1) else False
    if k == 'b':
        return None
    if k == 'i':
        if base in V.INT_BOUNDS:
            lo, hi = V.INT_BOUNDS[base]
            return (lo is None or jv[1] >= lo) and (hi is None or jv[1] <= hi)
        return True
    x = V.to_py(jv)
    finite = math.isfinite(x)
    if base in V.FLOATS:
        return True
    if base == 'Decimal':
        return finite
    if not finite or x != int(x):
        return False
    lo, hi = V.INT_BOUNDS[base]
    return None if (lo is None or x >= lo) and (hi is None or x <= hi) else False


@st.composite
def ints(draw, base):
    lo, hi = V.INT_BOUNDS.get(base, (None, None))
    edges = [0, 1, -1] + [e + d for e in (lo, hi) if e is not None for d in (-2, -1, 0, 1, 2)]
    return draw(st.one_of(st.sampled_from(edges), st.integers(-200, 300), st.integers(-2**70, 2**70),
                          st.sampled_from([2**k + d for k in (7, 8, 15, 16, 31, 32, 63, 64) for d in (-1, 0, 1)]).flatmap(lambda x: st.sampled_from([x, -x]))))


DECS = st.one_of(
    st.tuples(st.integers(-10**20, 10**20), st.integers(-12, 12)).map(lambda t: str(D(t[0]).scaleb(t[1]))),
    st.sampled_from(['0', '-0', '0.0', '1E+5', '1E-7', '-1.50', '100', '1.0', '0.000001', '0.0000001', '12345678901234567890.123456789', '1E+30']))
FLTS = st.one_of(st.floats().map(repr), st.sampled_from(['1e-05', '1e-07', '1e+16', '1e22', '0.1', '-0.0', '1e300', '5e-324', 'inf', '-inf', 'nan', '4.13', '1.0', '123456789.0']))


@st.composite
def values(draw):
    base = draw(st.sampled_from(BASES))
    k = draw(st.sampled_from('iiidfb' if base != 'Boolean' else 'bbbidf'))
    if k == 'i':
        v = ['i', draw(ints(base))]
    elif k == 'd':
        v = ['d', draw(DECS)]
    elif k == 'f':
        v = ['f', draw(FLTS)]
    else:
        v = ['b', draw(st.booleans())]
    return {'base': base, 'v': v, 'place': draw(st.sampled_from(S.PLACES))}


def check_value(case):
    from soapfish import xsd
    base, v, place = case['base'], case['v'], case['place']
    H = S.holder(xsd, getattr(xsd, base), place)
    py = V.to_py(v)
    want = in_space(base, v)
    obj = H()
    before = S.get(obj, place)
    try:
        S.put(obj, place, py)
    except ValueError:
        if want:
            raise Violation('%s refuses %r' % (base, py))
        if S.get(obj, place) != before:
            raise Violation('refused value %r was stored: %r' % (py, S.get(obj, place)))
        return want is False
    if want is False:
        raise Violation('%s accepts %r' % (base, py))
    xml = obj.xml('h')
    text = S.text_of(xml, place)
    if want is None:
        # another Python type: whatever was stored must be written as the same value
        if base == 'Boolean':
            v = ['b', bool(py)]
        elif v[0] == 'b':
            v = ['i', int(py)]
        elif base in V.INT_BOUNDS:
            v = ['i', int(py)]
    if not V.lex_means(base, v, text):
        raise Violation('%r rendered as %r' % (py, text))
    if not S.libxml2_accepts(V.XSD_NAME[base], text):
        raise Violation('%r rendered as %r, which is no valid xs:%s' % (py, text, V.XSD_NAME[base]))
    got = S.get(H.parsexml(xml), place)
    if v[0] == 'i' and base in V.FLOATS:
        v = ['f', repr(float(v[1]))]  # xs:double and xs:float hold the nearest double
    if not V.same(v, got):
        raise Violation('%r rendered as %r, read back as %r' % (py, text, got))
    text2 = S.text_of(H.parsexml(xml).xml('h'), place)
    if not V.lex_means(base, ['f', repr(float(V.to_py(v)))] if v[0] in 'df' else v, text2):
        raise Violation('%r written, read and written again: %r' % (py, text2))
    return True


# --- valid lexical forms --------------------------------------------------------------------------------
@st.composite
def lexicals(draw):
    base = draw(st.sampled_from(BASES))
    if base == 'Boolean':
        text = draw(st.sampled_from(['true', 'false', '1', '0']))
        v = ['b', text in ('true', '1')]
    elif base in V.INT_BOUNDS:
        lo, hi = V.INT_BOUNDS[base]
        n = draw(ints(base))
        n = n if lo is None else max(n, lo)
        n = n if hi is None else min(n, hi)
        text = ('-' if n < 0 else draw(st.sampled_from(['', '', '+']))) + '0' * draw(st.sampled_from([0, 0, 1, 3])) + str(abs(n))
        if n == 0 and draw(st.booleans()):
            text = '-0'
        v = ['i', n]
    else:
        whole = draw(st.text(st.sampled_from('0123456789'), max_size=9))
        frac = draw(st.text(st.sampled_from('0123456789'), min_size=0 if whole else 1, max_size=9))
        dot = '.' if frac or draw(st.integers(0, 3)) == 0 else ''
        text = draw(st.sampled_from(['', '', '-', '+'])) + whole + dot + frac
        if base in V.FLOATS:
            k = draw(st.integers(0, 5))
            if k == 0:
                text = draw(st.sampled_from(['INF', '-INF', 'NaN']))
            elif k < 4:
                text += draw(st.sampled_from('eE')) + draw(st.sampled_from(['', '+', '-'])) + str(draw(st.integers(0, 30)))
        v = ['f', repr(float({'INF': 'inf', '-INF': '-inf', 'NaN': 'nan'}.get(text, text)))]
    ws = draw(st.sampled_from([['', '']] * 4 + [[' ', ''], ['\n', '\t'], ['', ' ']]))
    return {'base': base, 'text': text, 'v': v, 'ws': ws, 'place': draw(st.sampled_from(S.PLACES))}


def check_lexical(case):
    from soapfish import xsd
    base, place = case['base'], case['place']
    if not S.libxml2_accepts(V.XSD_NAME[base], case['text']):
        if not re.fullmatch(r'[-+]?[0-9.]{20,}', case['text']):
            raise HarnessError('generated an invalid form %r of %s' % (case['text'], base))
    text = case['ws'][0] + case['text'] + case['ws'][1]
    H = S.holder(xsd, getattr(xsd, base), place)
    got = S.get(H.parsexml(S.doc(text, place)), place)
    if not V.same(case['v'], got):
        raise Violation('%r read as %r' % (text, got))
    if base != 'Boolean':
        obj = H()
        S.put(obj, place, text)
        if not V.same(case['v'], S.get(obj, place)):
            raise Violation('%r assigned gives %r' % (text, S.get(obj, place)))
    return case['text'] not in ('true', 'false') and text != str(case['v'][1])


# --- texts outside the lexical space ------------------------------------------------------------------------
JUNK = ['abc', '0x10', '1_000', '1 2', '--1', '+-1', '1-', '-', '+', '.', '1.2.3', '1,5', '\u0663', '\u00b2', '\uff11', 'inf', 'nan', 'Infinity', '+INF', 'INFINITY', 'Nan', '1e', 'e5',
        '1e5', '1E5', '1.0', '5.', '.5', '2', 'yes', 'no', 'True', 'FALSE', 'tru', 'truefalse', 'on', '1f', '1L', '0b1', '0o7', '1/2', '\u00bd', ' ', '\n', 'null', 'None', 'nan(1)', '1e+', '- 1',
        '\u00a05', '5\u00a0', '\x85' '5', '5\u2003', '-\u0661', '1__0', '_1', '00x', '1d', '\u22125']


@st.composite
def broken(draw):
    base = draw(st.sampled_from(BASES))
    k = draw(st.integers(0, 3))
    if k == 0 and base in V.INT_BOUNDS:
        lo, hi = V.INT_BOUNDS[base]
        c = ([st.integers(1, 5).map(lambda d: lo - d), st.integers(1, 2**66).map(lambda d: lo - d)] if lo is not None else []) + \
            ([st.integers(1, 5).map(lambda d: hi + d), st.integers(1, 2**66).map(lambda d: hi + d)] if hi is not None else [])
        text = str(draw(st.one_of(*c))) if c else draw(st.sampled_from(JUNK))
    elif k == 1:
        text = draw(st.text(st.sampled_from('0123456789+-.eE \u0661_xINFaN'), min_size=1, max_size=8))
    elif k == 2:
        text = draw(V.TEXT)
    else:
        text = draw(st.sampled_from(JUNK))
    return {'base': base, 'text': text, 'place': draw(st.sampled_from(S.PLACES))}


def check_broken(case):
    from soapfish import xsd
    base, text, place = case['base'], case['text'], case['place']
    stripped = text.strip(' \t\r\n')
    if stripped == 'nil' or S.libxml2_accepts(V.XSD_NAME[base], stripped):
        return False
    if re.fullmatch(r'[-+]?[0-9]*\.?[0-9]*', stripped) and re.search('[0-9]', stripped) and base == 'Decimal':
        return False  # libxml2 limits the number of digits
    if base in V.FLOATS and stripped in ('+INF',):
        return False  # XSD 1.1
    H = S.holder(xsd, getattr(xsd, base), place)
    try:
        obj = H.parsexml(S.doc(text, place))
    except ValueError:
        pass
    else:
        raise Violation('%r read as %s %r' % (text, base, S.get(obj, place)))
    obj = H()
    try:
        S.put(obj, place, text)
    except ValueError:
        pass
    else:
        raise Violation('%r assigned as %s %r' % (text, base, S.get(obj, place)))
    return True


# --- objects of other types -----------------------------------------------------------------------------------
OBJECTS = ['list', 'dict', 'object', 'bytes', 'complex', 'date', 'emptytuple', 'type', 'nan_decimal', 'inf_decimal']


def check_objects(case):
    import datetime
    from soapfish import xsd
    x = {'list': [1], 'dict': {}, 'object': object(), 'bytes': b'1', 'complex': 1j, 'date': datetime.date(2000, 1, 1), 'emptytuple': (),
         'type': int, 'nan_decimal': D('NaN'), 'inf_decimal': D('Infinity')}[case['o']]
    if case['o'].endswith('_decimal') and case['base'] in V.FLOATS:
        return False
    H = S.holder(xsd, getattr(xsd, case['base']), case['place'])
    obj = H()
    try:
        S.put(obj, case['place'], x)
    except ValueError:
        return True
    raise Violation('%s accepts %r' % (case['base'], x))


def objects():
    return st.fixed_dictionaries({'o': st.sampled_from(OBJECTS), 'base': st.sampled_from(BASES), 'place': st.sampled_from(S.PLACES)})


SUBS = [
    Sub('value', values, check_value, quick=6000, thorough=150000, shards=3,
        rule='Python number/boolean offered to a type: accepted iff in its value space, then rendered, read independently, parsed; non-trivial unless the verdict is left to the library'),
    Sub('lexical', lexicals, check_lexical, quick=4000, thorough=100000, shards=2,
        rule='valid lexical form parsed and assigned; non-trivial when it is not the canonical text'),
    Sub('broken', broken, check_broken, quick=4000, thorough=100000, shards=2,
        rule='text outside the lexical or value space (libxml2 agrees); non-trivial when it was offered to the library'),
    Sub('objects', objects, check_objects, quick=600, thorough=6000, shards=1, rule='objects of unrelated Python types; all are refused'),
]
