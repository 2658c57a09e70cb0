"""C04: dates, times and UTC offsets."""
import datetime as dtm

from hypothesis import strategies as st

from harness import simple as S
from harness import values as V
from harness.core import HarnessError, Sub, Violation

TECHNIQUE = 'property-based testing against an independent lexical model plus libxml2 datatype validation (Hypothesis)'
NOTE = 'Years 0001-9999; dateTime and time without offset read back as UTC (pinned by the repository tests).'
ASSUMPTIONS = ['libxml2 implements the XSD date, time and dateTime lexical spaces']


class Summer(dtm.tzinfo):
    """An offset that depends on the date, as real time zones have."""

    def __init__(self, winter, summer):
        self.w, self.s = winter, summer

    def utcoffset(self, d):
        if d is None:
            return None
        return dtm.timedelta(minutes=self.s if 4 <= d.month <= 9 else self.w)

    def dst(self, d):
        return dtm.timedelta(0)

    def tzname(self, d):
        return 'S'


@st.composite
def values(draw):
    base = draw(st.sampled_from(V.TEMPORAL))
    v = draw(V.temporal(base))
    zone = None
    if v[0] != 'pydate' and v[-1] is not None and draw(st.integers(0, 9)) == 0:
        v = v[:-1] + [draw(st.integers(-1439, 1439))]  # XSD knows no more than 14 hours
    if base == 'DateTime' and draw(st.integers(0, 4)) == 0:
        zone = [draw(st.integers(-840, 840)), draw(st.integers(-840, 840))]
    return {'base': base, 'v': v, 'place': draw(st.sampled_from(S.PLACES)), 'zone': zone}


def check_value(case):
    from soapfish import xsd
    base, v, place = case['base'], case['v'], case['place']
    H = S.holder(xsd, getattr(xsd, base), place)
    py = V.to_py(v)
    if case['zone']:
        w, s = case['zone']
        v = v[:7] + [s if 4 <= v[2] <= 9 else w]
        py = dtm.datetime(*v[1:7], tzinfo=Summer(w, s))
    obj = H()
    S.put(obj, place, py)
    if not V.same(v, S.get(obj, place), parsed=False):
        raise Violation('stored %r for %r' % (S.get(obj, place), py))
    xml = obj.xml('h')
    text = S.text_of(xml, place)
    if not V.lex_means(base, v, text):
        raise Violation('%r rendered as %r' % (py, text))
    if abs(v[-1] or 0) <= 840 and not S.libxml2_accepts(V.XSD_NAME[base], text):
        raise Violation('%r rendered as %r, which is no valid xs:%s' % (py, text, V.XSD_NAME[base]))
    again = H.parsexml(xml)
    got = S.get(again, place)
    if not V.same(v, got):
        raise Violation('%r rendered as %r, read back as %r' % (py, text, got))
    # what was read can be written again without change of meaning
    text2 = S.text_of(again.xml('h'), place)
    w2 = v
    if base != 'Date' and v[-1] is None:
        w2 = v[:-1] + [0]
    if not V.lex_means(base, w2, text2):
        raise Violation('%r written, read and written again: %r' % (py, text2))
    return v[-1] not in (None, 0)


# --- lexical forms ---------------------------------------------------------------------------------------
@st.composite
def lexicals(draw):
    base = draw(st.sampled_from(V.TEMPORAL))
    v = draw(V.temporal(base).filter(lambda x: x[0] != 'pydate'))
    frac = None
    if base != 'Date' and draw(st.integers(0, 3)) == 0:
        frac = draw(st.text(st.sampled_from('0123456789'), min_size=1, max_size=6))
    off = draw(st.sampled_from(['num'] * 4 + ['Z', '-00:00', '+00:00']))
    if off != 'num':  # the ways to write no offset from UTC
        v = v[:-1] + [0]
    return {'base': base, 'v': v, 'frac': frac, 'off': off, 'place': draw(st.sampled_from(S.PLACES)),
            'ws': draw(st.sampled_from([['', '']] * 3 + [[' ', ''], ['', '\n'], ['\t', ' ']]))}


def check_lexical(case):
    from soapfish import xsd
    base, v, place = case['base'], case['v'], case['place']
    text = V.lexical(base, v[:-1] + [None])
    if case['frac']:
        text += '.' + case['frac']
    text += V.fmt_off(v[-1]) if case['off'] == 'num' else case['off']
    if not S.libxml2_accepts(V.XSD_NAME[base], text):
        raise HarnessError('generated an invalid form %r' % text)
    text = case['ws'][0] + text + case['ws'][1]
    H = S.holder(xsd, getattr(xsd, base), place)
    obj = H.parsexml(S.doc(text, place))
    got = S.get(obj, place)
    probe = got
    if case['frac']:
        us = int((case['frac'] + '000000')[:6])
        if getattr(got, 'microsecond', None) != us:
            raise Violation('%r read as %r' % (text, got))
        probe = got.replace(microsecond=0)
    if not V.same(v, probe):
        raise Violation('%r read as %r' % (text, got))
    if base in ('DateTime', 'Time'):
        # the same text is accepted by assignment
        obj = H()
        S.put(obj, place, text)
        if S.get(obj, place) != got or V.offset_of(S.get(obj, place)) != V.offset_of(got):
            raise Violation('%r assigned gives %r, parsed %r' % (text, S.get(obj, place), got))
    return v[-1] not in (None, 0)


# --- texts that are no date or time --------------------------------------------------------------------------
@st.composite
def broken(draw):
    base = draw(st.sampled_from(V.TEMPORAL))
    y, m, d = draw(V.ymd())
    hh, mm, ss = draw(V.HMS)
    off = draw(V.OFFSETS)
    kinds = ['offmin', 'offhour', 'junk', 'word', 'empty']
    if base in ('Date', 'DateTime'):
        kinds += ['month', 'day', 'day31', 'bc', 'letter']
    if base in ('Time', 'DateTime'):
        kinds += ['hour', 'minute', 'second']
    kind = draw(st.sampled_from(kinds))
    date = '%04d-%02d-%02d' % (y, m, d)
    time = '%02d:%02d:%02d' % (hh, mm, ss)
    offs = V.fmt_off(off)
    if kind == 'month':
        date = '%04d-%02d-%02d' % (y, draw(st.sampled_from([0, 13, 20, 99])), d)
    elif kind == 'day':
        date = '%04d-%02d-%02d' % (y, m, draw(st.sampled_from([0, 32, 40, 99])))
    elif kind == 'day31':
        yy, mo, da = draw(st.sampled_from([(1900, 2, 29), (2001, 2, 29), (2100, 2, 29), (2000, 2, 30), (2001, 4, 31), (2001, 6, 31), (2001, 9, 31), (2001, 11, 31)]))
        date = '%04d-%02d-%02d' % (yy, mo, da)
    elif kind == 'bc':
        date = '-' + date
    elif kind == 'letter':
        date = date.replace(draw(st.sampled_from(list('0123456789'))), draw(st.sampled_from(['x', 'O', '\u0663', ' ', '.'])))
        if date == '%04d-%02d-%02d' % (y, m, d):
            date = 'x' + date
    elif kind == 'hour':
        time = '%02d:%02d:%02d' % (draw(st.sampled_from([25, 30, 99])), mm, ss)
    elif kind == 'minute':
        time = '%02d:%02d:%02d' % (hh, draw(st.sampled_from([60, 75, 99])), ss)
    elif kind == 'second':
        time = '%02d:%02d:%02d' % (hh, mm, draw(st.sampled_from([61, 75, 99])))
    elif kind == 'offmin':
        offs = draw(st.sampled_from('+-')) + '%02d:%02d' % (draw(st.integers(0, 13)), draw(st.integers(60, 99)))
    elif kind == 'offhour':
        offs = draw(st.sampled_from('+-')) + '%02d:%02d' % (draw(st.integers(24, 99)), draw(st.integers(0, 59)))
    text = {'Date': date + offs, 'Time': time + offs, 'DateTime': date + 'T' + time + offs}[base]
    if kind == 'junk':
        text += draw(st.sampled_from(['x', '+', ' 1', '-0', 'ZZ', '.', ':00:00', '+1:00', '+01:0', 'T', '/']))
    elif kind == 'word':
        text = draw(st.sampled_from(['today', 'Z', 'T', '-', '--', '1/2/2003', '12.12.2012', 'noon', '0x10', 'true', 'NaN', '+01:00', 'now()']))
    elif kind == 'empty':
        text = draw(st.sampled_from([' ', '\n', '\t \n']))
    return {'base': base, 'text': text, 'place': draw(st.sampled_from(S.PLACES)), 'kind': kind}


def check_broken(case):
    from soapfish import xsd
    base, text, place = case['base'], case['text'], case['place']
    if S.libxml2_accepts(V.XSD_NAME[base], text) and case['kind'] != 'bc':
        return False
    H = S.holder(xsd, getattr(xsd, base), place)
    try:
        obj = H.parsexml(S.doc(text, place))
    except ValueError:
        pass
    else:
        raise Violation('%r read as %s %r' % (text, base, S.get(obj, place)))
    if base != 'Date':
        obj = H()
        try:
            S.put(obj, place, text)
        except ValueError:
            pass
        else:
            raise Violation('%r assigned as %s %r' % (text, base, S.get(obj, place)))
    return True


# --- helpers -----------------------------------------------------------------------------------------------
def pairs():
    d = V.ymd().map(lambda x: x)
    offsets = V.OFFSETS | st.integers(-1439, 1439)
    return st.tuples(d, offsets, d, offsets, st.booleans(), st.booleans()).map(
        lambda t: {'a': t[0] + [t[1]], 'b': (t[0] if t[4] else t[2]) + [t[1] if t[5] else t[3]]})


def check_pairs(case):
    from soapfish.utils import timezone_offset_to_string
    from soapfish.xsd_types import XSDDate
    a, b = case['a'], case['b']

    def mk(x):
        return XSDDate(x[0], x[1], x[2], tzinfo=V.tz(x[3]))
    if (mk(a) == mk(b)) != (a == b):
        raise Violation('XSDDate equality of %r and %r is %r' % (a, b, mk(a) == mk(b)))
    if (mk(a) != mk(b)) != (a != b):
        raise Violation('XSDDate inequality of %r and %r is %r' % (a, b, mk(a) != mk(b)))
    plain = dtm.date(*a[:3])
    if mk(a).as_datetime_date() != plain or XSDDate.from_datetime_date(plain) != XSDDate(*a[:3]):
        raise Violation('date conversion of %r' % (a,))
    if a[3] is not None:
        text = timezone_offset_to_string(dtm.timedelta(minutes=a[3]))
        if text != V.fmt_off(a[3]):
            raise Violation('offset of %d minutes written as %r' % (a[3], text))
    return a != b


SUBS = [
    Sub('value', values, check_value, quick=4000, thorough=100000, shards=3,
        rule='date/time value at a random place of a model: render, read independently, parse; non-trivial when it has a non-zero UTC offset'),
    Sub('lexical', lexicals, check_lexical, quick=3000, thorough=80000, shards=2,
        rule='valid XSD lexical form parsed and assigned; non-trivial when it has a non-zero UTC offset'),
    Sub('broken', broken, check_broken, quick=3000, thorough=80000, shards=2,
        rule='text that is no calendar date, clock time or offset (libxml2 agrees); non-trivial when it was offered to the library'),
    Sub('dates', pairs, check_pairs, quick=1500, thorough=30000, shards=1,
        rule='pairs of XSDDate values and offsets; non-trivial when the two differ'),
]
