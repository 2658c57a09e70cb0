"""Simple types: JSON-able facet sets, values, lexical forms, strategies and reference semantics (independent of soapfish)."""
import datetime as dtm
import decimal
import math
import re

from hypothesis import strategies as st

D = decimal.Decimal

INT_BOUNDS = {
    'Integer': (None, None), 'NonNegativeInteger': (0, None), 'NonPositiveInteger': (None, 0),
    'NegativeInteger': (None, -1), 'PositiveInteger': (1, None),
    'Long': (-2**63, 2**63 - 1), 'Int': (-2**31, 2**31 - 1), 'Short': (-2**15, 2**15 - 1), 'Byte': (-128, 127),
    'UnsignedLong': (0, 2**64 - 1), 'UnsignedInt': (0, 2**32 - 1), 'UnsignedShort': (0, 2**16 - 1), 'UnsignedByte': (0, 255),
}
STRINGS = ['String', 'AnyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'Base64Binary', 'Duration']
FLOATS = ['Double', 'Float']
NUMERIC = ['Decimal'] + FLOATS + list(INT_BOUNDS)
TEMPORAL = ['Date', 'DateTime', 'Time']
BASES = STRINGS + NUMERIC + TEMPORAL + ['Boolean']
XSD_NAME = {b: b[0].lower() + b[1:] for b in BASES}
XSD_NAME.update(QName='QName', NMTOKEN='NMTOKEN', NMTOKENS='NMTOKENS', AnyURI='anyURI')


# --- text ---------------------------------------------------------------------
def xml_ok(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or 0x10000 <= o


WORDS = ['a', 'b', 'foo', 'Bar', 'x y', 'nil', 'true', 'None', '0', '-1', '<', '&amp;', ']]>', '"q"', "it's", '${host}', '$$', '{{x}}',
         '%s', '\\n', 'a\nb', 'a\tb', 'a\r\nb', '\u00e9', '\u4e2d\u6587', '\U0001F600', ' lead', 'trail ', '  ', '\u00a0', '\u2028', 'unbounded',
         '<!-- c -->', '<![CDATA[x]]>', 'xsi:nil', '\x85', '\ufffd', 'e\u0301']
XML_CHARS = st.one_of(
    st.characters(min_codepoint=32, max_codepoint=126),
    st.characters(blacklist_categories=('Cs', 'Cc', 'Cn'), max_codepoint=0x2FFFF).filter(xml_ok),
    st.sampled_from(list('<>&"\'\\\n\t\r {}$%')),
)
TEXT = st.one_of(st.sampled_from(WORDS), st.text(XML_CHARS, min_size=1, max_size=12))
PLAIN = st.text(st.characters(min_codepoint=97, max_codepoint=122), min_size=1, max_size=8)


# --- JSON value codec -----------------------------------------------------------
def tz(off):
    return None if off is None else dtm.timezone(dtm.timedelta(minutes=off))


def to_py(v):
    """Decode a simple JSON value into the Python value handed to soapfish."""
    k = v[0]
    if k == 's':
        return v[1]
    if k == 'i':
        return v[1]
    if k == 'b':
        return v[1]
    if k == 'f':
        return float(v[1])
    if k == 'd':
        return D(v[1])
    if k == 'date':
        from soapfish.xsd_types import XSDDate
        return XSDDate(v[1], v[2], v[3], tzinfo=tz(v[4]))
    if k == 'pydate':
        return dtm.date(v[1], v[2], v[3])
    if k == 'dt':
        return dtm.datetime(*v[1:7], tzinfo=tz(v[7]))
    if k == 't':
        return dtm.time(*v[1:4], tzinfo=tz(v[4]))
    raise AssertionError(v)


def offset_of(x):
    t = getattr(x, 'tzinfo', None)
    if t is None:
        return None
    if isinstance(x, dtm.datetime):
        o = x.utcoffset()
    else:
        o = t.utcoffset(None)
    return None if o is None else int(o.total_seconds() // 60)


def num_eq(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b or float(a) == float(b)


def same(jv, got, parsed=True):
    """Does the Python object `got`, read from a field, carry the value jv?  parsed: it went through XML text.

    A dateTime or time without offset is read back as UTC (the documented behaviour of the library's ISO 8601 parser).
    """
    k = jv[0]
    if k == 's':
        return isinstance(got, str) and got == jv[1]
    if k == 'b':
        return got is jv[1]
    if k == 'i':
        return isinstance(got, (int, float, D)) and not isinstance(got, bool) and got == jv[1]
    if k == 'f':
        return isinstance(got, (int, float, D)) and not isinstance(got, bool) and num_eq(float(jv[1]), got)
    if k == 'd':
        return isinstance(got, (int, float, D)) and not isinstance(got, bool) and float(got) == float(D(jv[1]))
    if k in ('date', 'pydate'):
        off = jv[4] if k == 'date' else None
        return (getattr(got, 'year', None), getattr(got, 'month', None), getattr(got, 'day', None)) == tuple(jv[1:4]) \
            and offset_of(got) == off and not isinstance(got, dtm.datetime)
    if k == 'dt':
        if not isinstance(got, dtm.datetime):
            return False
        off = jv[7]
        o = offset_of(got)
        return (got.year, got.month, got.day, got.hour, got.minute, got.second) == tuple(jv[1:7]) and got.microsecond == 0 \
            and (o == off or (parsed and off is None and o == 0))
    if k == 't':
        if not isinstance(got, dtm.time):
            return False
        off = jv[4]
        o = offset_of(got)
        return (got.hour, got.minute, got.second) == tuple(jv[1:4]) and got.microsecond == 0 \
            and (o == off or (parsed and off is None and o == 0))
    raise AssertionError(jv)


def fmt_off(off):
    if off is None:
        return ''
    s = '+' if off >= 0 else '-'
    off = abs(off)
    return '%s%02d:%02d' % (s, off // 60, off % 60)


def lexical(base, jv):
    """A valid XSD lexical form of the value (canonical enough; independent of the library)."""
    k = jv[0]
    if k == 's':
        return jv[1]
    if k == 'b':
        return 'true' if jv[1] else 'false'
    if k == 'i':
        return '%d' % jv[1]
    if k == 'd':
        return format(D(jv[1]), 'f')
    if k == 'f':
        x = float(jv[1])
        if base == 'Decimal':
            return format(D(repr(x)), 'f')
        if math.isinf(x):
            return 'INF' if x > 0 else '-INF'
        if math.isnan(x):
            return 'NaN'
        return repr(x)
    if k == 'date':
        return '%04d-%02d-%02d' % tuple(jv[1:4]) + fmt_off(jv[4])
    if k == 'pydate':
        return '%04d-%02d-%02d' % tuple(jv[1:4])
    if k == 'dt':
        return '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(jv[1:7]) + fmt_off(jv[7])
    if k == 't':
        return '%02d:%02d:%02d' % tuple(jv[1:4]) + fmt_off(jv[4])
    raise AssertionError(jv)


def lex_means(base, jv, text):
    """Is `text` a rendering of jv, judged by value (for text produced by the library)?"""
    if text is None:
        return False
    k = jv[0]
    try:
        if k == 's':
            return text == jv[1]
        if k == 'b':
            return text in (('true', '1') if jv[1] else ('false', '0'))
        if k in ('i', 'd', 'f'):
            x = float(jv[1]) if k == 'f' else D(jv[1])
            if base in FLOATS:
                t = {'INF': 'inf', '-INF': '-inf', 'NaN': 'nan'}.get(text, text)
                if t is text and not re.fullmatch(r'[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?', text):
                    return False
                return num_eq(float(t), float(x))
            if base == 'Decimal':
                if not re.fullmatch(r'[-+]?(\d+(\.\d*)?|\.\d+)', text):
                    return False
                return D(text) == x or (k == 'f' and float(text) == x)
            return re.fullmatch(r'[-+]?\d+', text) is not None and int(text) == x
        if k in ('date', 'pydate', 'dt', 't'):
            return norm_off(text) == norm_off(lexical(base, jv))
    except (ValueError, ArithmeticError):
        return False
    raise AssertionError(jv)


def norm_off(text):
    return re.sub(r'([+-]00:00)$', 'Z', text)


# --- temporal strategies -----------------------------------------------------------
@st.composite
def ymd(draw):
    y = draw(st.one_of(st.integers(1, 9999), st.sampled_from([1, 4, 99, 100, 400, 999, 1000, 1582, 1752, 1899, 1900, 1970, 1999, 2000, 2004, 2100, 9999]), st.integers(1950, 2050)))
    m = draw(st.integers(1, 12))
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    last = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    d = draw(st.one_of(st.integers(1, last), st.sampled_from([1, last])))
    return [y, m, d]


OFFSETS = st.one_of(st.none(), st.integers(-14 * 60, 14 * 60), st.sampled_from([0, 60, -60, 90, -90, 330, 345, -210, -30, 30, 840, -840, -1, 1, -59, 59]))
HMS = st.tuples(st.one_of(st.integers(0, 23), st.sampled_from([0, 23])), st.one_of(st.integers(0, 59), st.sampled_from([0, 59])),
                st.one_of(st.integers(0, 59), st.sampled_from([0, 59]))).map(list)


def temporal(base):
    if base == 'Date':
        return st.one_of(st.tuples(ymd(), OFFSETS).map(lambda x: ['date'] + x[0] + [x[1]]), ymd().map(lambda x: ['pydate'] + x))
    if base == 'DateTime':
        return st.tuples(ymd(), HMS, OFFSETS).map(lambda x: ['dt'] + x[0] + x[1] + [x[2]])
    return st.tuples(HMS, OFFSETS).map(lambda x: ['t'] + x[0] + [x[1]])


# --- patterns -----------------------------------------------------------------------
# AST: {'alts': [[ [cls, min, max], ... ], ...]}; cls is a key of CLASSES or a literal character '=x'.
CLASSES = {'[a-z]': 'abcdefghijklmnopqrstuvwxyz', '[A-Z]': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', '[0-9]': '0123456789', r'\d': '0123456789',
           '[A-Za-z0-9_]': 'ABCxyz019_', '[abc]': 'abc', '[^a-z]': 'ABC019 _', '.': 'aZ0 _-', '[-+]': '-+', r'\.': '.', r'\-': '-'}


def pat_chars(a):
    if a[0] in ('.', '[^a-z]'):
        return {chr(i) for i in range(32, 127)}
    return set(a[0][1:] if a[0].startswith('=') else CLASSES[a[0]])


def pat_regex(p):
    # libxml2 (the reference validator) miscounts {m,n} when other atoms take the same characters: spell those out
    counted = len(p['alts']) == 1 and all(not pat_chars(a) & pat_chars(b) for i, a in enumerate(p['alts'][0]) for b in p['alts'][0][:i])

    def atom(a):
        c = a[0]
        s = re.escape(c[1:]) if c.startswith('=') else c
        if not counted:
            return s * a[1] + (s + '?') * (a[2] - a[1])
        if (a[1], a[2]) == (1, 1):
            return s
        if (a[1], a[2]) == (0, 1):
            return s + '?'
        return '%s{%d,%d}' % (s, a[1], a[2])
    return '|'.join(''.join(atom(a) for a in alt) for alt in p['alts'])


@st.composite
def patterns(draw, digits=False):
    keys = ['[0-9]', r'\d'] if digits else list(CLASSES)

    def atom():
        c = draw(st.one_of(st.sampled_from(keys), st.sampled_from(list('1290' if digits else 'abX1_')).map(lambda x: '=' + x)))
        lo = draw(st.integers(0, 2)) if not digits else draw(st.integers(1, 2))
        hi = draw(st.integers(max(lo, 1), 3))
        return [c, lo, hi]
    alts = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        alts.append([atom() for _ in range(draw(st.integers(1, 3)))])
    for alt in alts:  # never empty (an empty element has no text to carry)
        if all(a[1] == 0 for a in alt):
            alt[0][1] = 1
    return {'alts': alts}


@st.composite
def pat_value(draw, p):
    alt = draw(st.sampled_from(p['alts']))
    out = []
    for c, lo, hi in alt:
        n = draw(st.integers(lo, hi))
        for _ in range(n):
            out.append(c[1:] if c.startswith('=') else draw(st.sampled_from(CLASSES[c])))
    return ''.join(out)


# --- reference facet semantics --------------------------------------------------------
def ws_normalise(mode, s):
    if mode in ('replace', 'collapse'):
        s = s.replace('\t', ' ').replace('\n', ' ').replace('\r', ' ')
    if mode == 'collapse':
        s = re.sub(' +', ' ', s).strip(' ')
    return s


def string_ok(f, s):
    """(accepted, stored) of string s under facets f."""
    s = ws_normalise(f.get('whiteSpace'), s)
    ok = True
    if 'pattern' in f:
        ok = ok and re.fullmatch(pat_regex(f['pattern']), s) is not None
    if 'enumeration' in f:
        ok = ok and s in f['enumeration']
    n = len(s)
    if 'length' in f:
        ok = ok and n == f['length']
    if 'minLength' in f:
        ok = ok and n >= f['minLength']
    if 'maxLength' in f:
        ok = ok and n <= f['maxLength']
    return ok, s


def digits_of(x):
    """(total digits, fraction digits) of the exact decimal value, trailing zeros not counted (XSD value space)."""
    x = D(repr(x)) if isinstance(x, float) else D(x)
    sign, ds, exp = x.normalize(decimal.Context(prec=400)).as_tuple()
    if exp >= 0:
        return max(1, len(ds) + exp), 0
    return max(len(ds), -exp), -exp


def number_ok(f, x):
    ex = D(repr(x)) if isinstance(x, float) else D(x)

    def b(name):
        return D(f[name]) if isinstance(f[name], (int, str)) else D(repr(f[name]))
    if 'minInclusive' in f and not ex >= b('minInclusive'):
        return False
    if 'maxInclusive' in f and not ex <= b('maxInclusive'):
        return False
    if 'minExclusive' in f and not ex > b('minExclusive'):
        return False
    if 'maxExclusive' in f and not ex < b('maxExclusive'):
        return False
    if 'enumeration' in f and not any(ex == (D(repr(e)) if isinstance(e, float) else D(e)) for e in f['enumeration']):
        return False
    t, fr = digits_of(x)
    if 'totalDigits' in f and t > f['totalDigits']:
        return False
    if 'fractionDigits' in f and fr > f['fractionDigits']:
        return False
    if 'pattern' in f and re.fullmatch(pat_regex(f['pattern']), str(x)) is None:
        return False
    return True


# --- simple type specs -------------------------------------------------------------------
@st.composite
def simple_types(draw, bases=None, facets=True, xsd_valid=False):
    """{'b': base, 'f': facets}: one facet family per type, always satisfiable."""
    base = draw(st.sampled_from(bases or (['String'] * 4 + ['Integer', 'Int', 'Decimal', 'Boolean', 'Date', 'DateTime'] + BASES)))
    f = {}
    if facets and draw(st.booleans()):
        if base == 'String':
            mode = draw(st.sampled_from(['enum', 'pattern', 'length', 'minmax', 'ws']))
            if mode == 'enum':
                f['enumeration'] = draw(st.lists(PLAIN if xsd_valid else st.one_of(PLAIN, TEXT), min_size=1, max_size=4, unique=True))
            elif mode == 'pattern':
                f['pattern'] = draw(patterns())
            elif mode == 'length':
                f['length'] = draw(st.integers(1, 6))
            elif mode == 'minmax':
                f['minLength'] = draw(st.integers(0, 4))
                f['maxLength'] = f['minLength'] + draw(st.integers(1, 4))
                if draw(st.integers(0, 3)) == 0:
                    del f['maxLength']
            else:
                f['whiteSpace'] = draw(st.sampled_from(['preserve', 'replace', 'collapse']))
        elif base in INT_BOUNDS:
            lo, hi = INT_BOUNDS[base]
            mode = draw(st.sampled_from(['enum', 'bounds', 'bounds', 'digits']))
            a = lo if lo is not None else (-1000 if hi is None else hi - 1000)
            b = hi if hi is not None else a + 2000
            if mode == 'enum':
                f['enumeration'] = draw(st.lists(st.integers(max(a, -300), min(b, 300)) if max(a, -300) <= min(b, 300) else st.integers(a, b), min_size=1, max_size=4, unique=True))
            elif mode == 'bounds':
                x = draw(st.one_of(st.integers(max(a, -5), min(b, 5)) if max(a, -5) <= min(b, 5) else st.integers(a, b), st.integers(a, b)))
                y = draw(st.integers(x, b))
                which = draw(st.integers(0, 2))
                if which != 1:
                    f['minInclusive' if draw(st.booleans()) or y - x < 3 else 'minExclusive'] = x
                if which != 0:
                    f['maxInclusive' if draw(st.booleans()) or y - x < 3 else 'maxExclusive'] = y
            else:
                f['totalDigits'] = draw(st.integers(1, 5))
        elif base == 'Decimal':
            mode = draw(st.sampled_from(['bounds', 'enum', 'total']))
            if mode == 'bounds':
                x = draw(st.integers(-50, 50))
                y = x + draw(st.integers(3, 100))
                f[draw(st.sampled_from(['minInclusive', 'minExclusive']))] = x
                f[draw(st.sampled_from(['maxInclusive', 'maxExclusive']))] = y
            elif mode == 'enum':
                f['enumeration'] = draw(st.lists(st.integers(-9, 9), min_size=1, max_size=3, unique=True))
            else:
                f['totalDigits'] = draw(st.integers(2, 6))
        elif base in FLOATS:
            x = draw(st.integers(-50, 50))
            f['minInclusive'] = x
            f['maxExclusive'] = x + draw(st.integers(3, 100))
    return {'b': base, 'f': f}


B64 = st.binary(min_size=1, max_size=9).map(lambda b: __import__('base64').b64encode(b).decode())
NAME_CH = 'abcXYZ019._-'
NMTOK = st.text(st.sampled_from(NAME_CH), min_size=1, max_size=6)
NCNAME = st.tuples(st.sampled_from('abXY_'), st.text(st.sampled_from(NAME_CH), max_size=5)).map(''.join)
DUR = st.sampled_from(['P1Y', 'P1Y2M3DT4H5M6S', 'PT0S', '-P30D', 'PT1.5S', 'P0D', 'PT36H'])
URI = st.one_of(st.sampled_from(['http://example.com/', 'urn:a:b', '../rel?x=1&y=2', '#frag', 'mailto:a@b.c', 'x']), PLAIN)


@st.composite
def int_values(draw, base, f):
    lo, hi = INT_BOUNDS[base]
    if 'enumeration' in f:
        return ['i', draw(st.sampled_from(f['enumeration']))]
    if 'minInclusive' in f:
        lo = f['minInclusive'] if lo is None else max(lo, f['minInclusive'])
    if 'minExclusive' in f:
        lo = f['minExclusive'] + 1 if lo is None else max(lo, f['minExclusive'] + 1)
    if 'maxInclusive' in f:
        hi = f['maxInclusive'] if hi is None else min(hi, f['maxInclusive'])
    if 'maxExclusive' in f:
        hi = f['maxExclusive'] - 1 if hi is None else min(hi, f['maxExclusive'] - 1)
    if 'totalDigits' in f:
        m = 10 ** f['totalDigits'] - 1
        lo = -m if lo is None else max(lo, -m)
        hi = m if hi is None else min(hi, m)
    opts = [st.integers(lo, hi)]
    if lo is not None:
        opts.append(st.just(lo))
    if hi is not None:
        opts.append(st.just(hi))
    if (lo is None or lo <= 0) and (hi is None or hi >= 0):
        opts.append(st.just(0))
    return ['i', draw(st.one_of(*opts))]


@st.composite
def dec_values(draw, base, f):
    if 'enumeration' in f:
        return ['i', draw(st.sampled_from(f['enumeration']))]
    td = f.get('totalDigits')
    if 'minInclusive' in f or 'minExclusive' in f:
        lo = f.get('minInclusive', f.get('minExclusive'))
        hi = f.get('maxInclusive', f.get('maxExclusive'))
        n = draw(st.integers(lo * 100 + (1 if 'minExclusive' in f else 0), hi * 100 - (1 if 'maxExclusive' in f else 0)))
        x = D(n) / 100
        k = draw(st.sampled_from('df'))
        return ['d', str(x)] if k == 'd' and base == 'Decimal' else ['f', repr(float(x))]
    if td:
        n = draw(st.integers(-(10 ** td - 1), 10 ** td - 1))
        e = draw(st.integers(0, td))
        x = D(n).scaleb(-e)
        return ['d', format(x, 'f')]
    k = draw(st.sampled_from(['i', 'd', 'f', 'f2']))
    if k == 'i':
        return ['i', draw(st.integers(-2**53, 2**53))]
    if k == 'd' and base == 'Decimal':
        n = draw(st.integers(-10**14, 10**14))
        return ['d', format(D(n).scaleb(-draw(st.integers(0, 9))), 'f')]
    if k == 'f2':
        return ['f', repr(draw(st.floats(allow_nan=False, allow_infinity=False)))]
    return ['f', repr(draw(st.integers(-10**6, 10**6)) / 64)]


@st.composite
def simple_values(draw, t, xsd_valid=False, unicode_ok=True):
    """A value satisfying the type (as a JSON value). xsd_valid: also valid for the XSD built-in of the same name."""
    base, f = t['b'], t['f']
    if base == 'String':
        if 'enumeration' in f:
            return ['s', draw(st.sampled_from(f['enumeration']))]
        if 'pattern' in f:
            return ['s', draw(pat_value(f['pattern']))]
        text = TEXT if not xsd_valid else st.one_of(PLAIN, TEXT)
        if 'whiteSpace' in f:
            s = ws_normalise(f['whiteSpace'], draw(text))
            return ['s', s or 'x']
        if 'length' in f:
            return ['s', draw(st.text(XML_CHARS, min_size=f['length'], max_size=f['length']))]
        if 'minLength' in f or 'maxLength' in f:
            lo = max(f.get('minLength', 0), 1)
            return ['s', draw(st.text(XML_CHARS, min_size=lo, max_size=f.get('maxLength', lo + 4)))]
        return ['s', draw(text)]
    if base in STRINGS:
        if not xsd_valid and draw(st.integers(0, 2)) == 0:
            return ['s', draw(TEXT)]
        return ['s', draw({'AnyURI': URI, 'QName': NCNAME, 'NMTOKEN': NMTOK, 'Base64Binary': B64, 'Duration': DUR,
                           'NMTOKENS': st.lists(NMTOK, min_size=1, max_size=3).map(' '.join)}[base])]
    if base == 'Boolean':
        return ['b', draw(st.booleans())]
    if base in TEMPORAL:
        return draw(temporal(base))
    if base in INT_BOUNDS:
        return draw(int_values(base, f))
    return draw(dec_values(base, f))


def build_simple(t, xsd):
    """Element type argument for an inline simple type: class when facet-less, instance otherwise."""
    cls = getattr(xsd, t['b'])
    if not t['f']:
        return cls
    return cls(**build_facets(t['f']))


def build_facets(f):
    out = {}
    for k, v in f.items():
        if k == 'pattern':
            v = pat_regex(v)
        elif k == 'enumeration':
            v = [D(e) if isinstance(e, str) and False else e for e in v]
        out[k] = v
    return out
