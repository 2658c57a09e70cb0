"""C03: parsing depends only on the content of the XML document."""
from hypothesis import strategies as st
from lxml import etree

from harness import models as M
from harness import rewrite as R
from harness.core import Sub, Violation

TECHNIQUE = 'metamorphic and reference-parser property-based testing over equivalent XML serialisations (Hypothesis)'
NOTE = 'Each document is written by an independent serialiser in a random equivalent form; the oracle is the instance it was written from.'
O = M.Options(long=True)
FEATURES = ['prefix', 'space', 'comment', 'text', 'unknown', 'order', 'nil', 'quote']


@st.composite
def cases(draw):
    spec = draw(M.specs(O))
    spec['reg'] = draw(st.booleans())
    v = draw(M.instances(spec, spec['root'], O))
    return {'spec': spec, 'v': v, 'features': draw(st.lists(st.sampled_from(FEATURES), min_size=1, max_size=6, unique=True)),
            'steer': draw(st.lists(st.integers(0, 255), min_size=1, max_size=60)),
            'enc': draw(st.sampled_from(['utf-8', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii', 'str', 'element', 'tree']))}


def check(case):
    spec = case['spec']
    b = M.build(spec)
    try:
        ti = spec['root']
        fields = M.all_fields(spec, ti)
        ns = spec['schemas'][spec['types'][ti]['s']]
        node = M.ref_render(spec, ti, case['v'], spec['tag'], ns, spec['efd'], spec['reg'])
        w = R.Writer(R.Choices(case['steer']), set(case['features']), R.declared_names(spec))
        text = w.document(node)
        enc = case['enc']
        if enc == 'str':
            got = b.root.parsexml(text)
        elif enc == 'element':
            got = b.root.parse_xmlelement(etree.fromstring(R.encode(text, 'utf-8')))
        elif enc == 'tree':
            w_el = etree.fromstring(R.encode('<w><!-- -->' + text + 'tail</w>', 'utf-8'))
            got = b.root.parse_xmlelement(next(e for e in w_el if isinstance(e.tag, str)))
        else:
            got = b.root.parsexml(R.encode(text, enc))
        d = M.diff(b, fields, case['v'], got)
        if d:
            raise Violation('%s\nread from %s' % (d, text))
        plain = b.root.parsexml(M.write_node(node))
        d = M.diff(b, fields, case['v'], plain)
        if d:
            raise Violation('plain form: %s\nread from %s' % (d, M.write_node(node)))
        return len(w.used) >= 2 and len(case['v'][1]) >= 1
    finally:
        M.dispose(b)


SUBS = [
    Sub('rewrite', cases, check, quick=3500, thorough=80000, shards=7,
        rule='random model x instance written in a random equivalent serialisation; non-trivial when at least two rewriting features took effect'),
]
