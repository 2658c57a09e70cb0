"""C11: code generation treats the text of a document as data and does not depend on the order of declarations."""
import ast
import builtins
import os
import re
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from checks import c10, c14
from harness import env
from harness import models as M
from harness import noise
from harness import refwsdl
from harness import values as V
from harness.codegen import Generated
from harness.core import Reject, Sub, Violation

TECHNIQUE = 'property-based testing: hostile texts in schemas and WSDL documents (the code compared with that for harmless texts, the texts with what the code holds), random permutations of the declarations'
NOTE = 'Structure of the code is compared as syntax trees with all strings left out. URLs without control characters, patterns limited to what XSD and Python have in common.'

XS = 'http://www.w3.org/2001/XMLSchema'
CANARY = 'verif_canary'
CALL = '__import__("builtins").%s.append(1)' % CANARY
HOSTILE = [
    "');%s#" % CALL, "']);%s#" % CALL, '");%s#' % CALL, "'+str(%s)+'" % CALL, "\\');%s#" % CALL, "\\", "\\\\", "x\\", "'", '"', "'''", '"""', "'\"", "''\"\"", "\\'", '\\"', "r'", "'\\",
    "\n%s\n" % CALL, "\r%s" % CALL, "\u2028%s" % CALL, "\x85%s" % CALL, "a\nb", "a\rb", "a\tb", "\\n", "\\x41", "\\u0041", "\\N{DASH}", "\\", "%s", "%(x)s", "%d%%", "{0}", "{x}", "{{ 1 // 0 }}", "{% raise %}", "{# c",
    "#}", "{{", "}}", "%}", "${host}", "$$", "$", "# c", "\n# c\n", "é", "\u4e2d", "\U0001F600", "e\u0301", "\ufeff", "\u202e", "\u200b", "a b", "a  b", " a", "a ", " ", "None", "True", "0", "1e3", "[]", "xsd.String",
    "&amp;", "<b>", "]]>", "<![CDATA[x]]>", "--", "-->", "`", "\x7f", "\ufffd", "class", "\t", "\n",
]
texts = st.one_of(st.sampled_from(HOSTILE), st.lists(st.sampled_from(["'", '"', ' ', ',', '\\', 'x', "r'", '+', '#']), min_size=1, max_size=6).map(''.join), st.lists(st.sampled_from(HOSTILE), min_size=2, max_size=3).map(''.join), st.text(V.XML_CHARS, min_size=1, max_size=10))
words = texts.map(lambda t: ' '.join(''.join(c for c in t if c.isprintable() and not c.isspace() or c == ' ').split()) or 'x')  # nothing to be normalised
# namespaces have to be URIs (or the parser refuses the document)
CODE = "__import__('builtins').%s.append(1)" % CANARY
URN = ["');%s#'" % CODE, "',%s,'" % CODE, "'", "''", "'''", "$$", "${host}", "&amp;", "%7B%7B", "%27", "#", "(", "))", ";", "a=b&c='d'", "x,y", "~!*", "?a=1&b=2#c", "//x/y'z/"]
spaces = st.lists(st.sampled_from(URN), min_size=1, max_size=3).map(lambda x: 'urn:' + ''.join(''.join(x).replace('#', '').replace('{', '').replace('}', '')) + ('#' if '#' in x[0] else ''))


def literal(text):
    """A pattern, of XSD as well as of Python, for this text."""
    return ''.join('\\' + c if c in r'\.[]{}()*+?|^-' else c for c in text.replace('$', ''))


# --- schemas -------------------------------------------------------------------------------------------------
PLACES = ['simple', 'element', 'attribute', 'list']


@st.composite
def text_cases(draw):
    fields = []
    for k in range(draw(st.integers(1, 5))):
        f = {'place': draw(st.sampled_from(PLACES)), 'kind': draw(st.sampled_from(['enumeration', 'pattern'])), 'values': draw(st.lists(texts, min_size=1, max_size=3, unique=True))}
        fields.append(f)
    wild = draw(st.integers(0, 3)) == 0
    return {'ns': draw(texts.map(lambda t: 'urn:' + t) if wild else spaces), 'wild': wild, 'other': draw(words), 'fields': fields, 'comment': draw(texts), 'version': draw(words), 'noise': draw(noise.noises), 'codec': draw(st.sampled_from(noise.CODECS)),
            'location': draw(st.none() | words | texts), 'parent': draw(st.booleans()), 'import': draw(st.booleans())}


def harmless(case):
    """The same case with other texts."""
    count = iter(range(1000))
    return dict(case, ns='urn:h0', other='urn:h1', comment='c', version='1', noise=[], location=case['location'] and 'here.xsd',
                fields=[dict(f, values=['v%d' % next(count) for _ in f['values']]) for f in case['fields']])


def values_of(f):
    out = f['values'] if f['kind'] == 'enumeration' else [f['values'][0].replace('$', '') or 'x']
    if f['place'] == 'attribute':
        out = list(out)
    return out


def restriction(f):
    content = ''.join('<xs:enumeration value="%s"/>' % M.esc(v, True) for v in values_of(f)) if f['kind'] == 'enumeration' else '<xs:pattern value="%s"/>' % M.esc(literal(values_of(f)[0]), True)
    return '<xs:restriction base="xs:string">%s</xs:restriction>' % content


def text_schema(case):
    simple = elements = attributes = ''
    for k, f in enumerate(case['fields']):
        inline = '<xs:simpleType>%s</xs:simpleType>' % restriction(f)
        if f['place'] in ('simple', 'list') and not case['wild']:
            simple += '<xs:simpleType name="S%d">%s</xs:simpleType>' % (k, restriction(f))
            elements += '<xs:element name="f%d" type="t:S%d" minOccurs="0"%s/>' % (k, k, ' maxOccurs="unbounded"' if f['place'] == 'list' else '')
        elif f['place'] != 'attribute':
            elements += '<xs:element name="f%d" minOccurs="0"%s>%s</xs:element>' % (k, ' maxOccurs="unbounded"' if f['place'] == 'list' else '', inline)
        else:
            attributes += '<xs:attribute name="f%d">%s</xs:attribute>' % (k, inline)
    # a namespace which is declared elsewhere
    other = '<xs:import namespace="%s"/>' % M.esc(case['other'], True) if case['import'] and case['other'] != case['ns'] else ''
    comment = '<xs:annotation><xs:documentation>%s</xs:documentation></xs:annotation>' % M.esc(case['comment'])
    record = '>%s<xs:sequence>%s</xs:sequence>%s</xs:complexType>' % (comment, elements, attributes)
    if case['wild']:
        items = '<xs:element name="record"><xs:complexType%s</xs:element>' % record
    else:
        items = '<xs:complexType name="Record"' + record + '<xs:element name="record" type="t:Record"/>'
    space = '' if case['wild'] else ' xmlns:t="%s"' % M.esc(case['ns'], True)
    return noise.add('<xs:schema xmlns:xs="%s"%s targetNamespace="%s" elementFormDefault="qualified" version="%s">%s%s%s%s</xs:schema>' % (
        XS, space, M.esc(case['ns'], True), M.esc(case['version'], True), other, comment, simple, items), case['noise'])


class Masked(ast.NodeTransformer):
    """Syntax without strings and without names made of texts."""

    def visit_Constant(self, node):
        return ast.Constant('*') if isinstance(node.value, str) else node

    def visit_Name(self, node):
        node.id = re.sub(r'^Schema_[0-9a-f]{5}$', 'Schema_*', node.id)
        return node


def structure(code, what):
    try:
        tree = ast.parse(code)
    except (SyntaxError, ValueError) as e:
        raise Violation('%s: generated code is not valid Python: %r\n%s' % (what, e, code))
    return ast.dump(Masked().visit(tree))


def without_time(code):
    return '\n'.join(line for line in code.split('\n') if 'Generated by soapfish' not in line)


class Canary:
    def __enter__(self):
        setattr(builtins, CANARY, [])
        return self

    def __exit__(self, kind, e, tb):
        touched = getattr(builtins, CANARY)
        delattr(builtins, CANARY)
        if touched:
            raise Violation('text of the document was executed')


def compare_structure(code, other, shown):
    if structure(code, shown) != structure(other, 'harmless'):
        raise Violation('%s\nthe texts changed the structure of the code:\n%s\ncompared with\n%s' % (shown, code, other))


def check_text(case):
    from soapfish import xsd2py
    xml = text_schema(case)
    try:
        etree.XMLSchema(etree.fromstring(xml.encode()))
    except etree.XMLSchemaParseError as e:
        if 'pattern' in str(e) or 'anyURI' in str(e):
            raise Reject
        raise

    def code_of(c, text):
        kw = {'location': c['location'], 'known_paths': []} if c['location'] else {}
        return xsd2py.generate_code_from_xsd(noise.encode(text, c['codec']), cwd='/nonexistent', **kw).decode()
    code = code_of(case, xml)
    if without_time(code_of(case, xml)) != without_time(code):
        raise Violation('generated twice: differs\n%s' % xml)
    h = harmless(case)
    compare_structure(code, code_of(h, text_schema(h)), xml)
    try:
        with Canary(), Generated(code) as g:
            judge_texts(case, g)
    except Violation as e:
        raise Violation('%s\n%s\n%s' % (e, xml, code))
    except Exception as e:
        raise Violation('%r\n%s\n%s' % (e, xml, code)) from e
    return any(not v.isalnum() for f in case['fields'] for v in f['values'])


def judge_texts(case, g):
    schemas = g.schemas()
    if [s.targetNamespace for s in schemas] != [case['ns']]:
        raise Violation('namespaces %r, expected %r' % ([s.targetNamespace for s in schemas], case['ns']))
    if list(schemas[0].elements) != ['record']:
        raise Violation('elements %r' % schemas[0].elements)
    if case['wild']:
        return  # nothing can be written in such a namespace
    for k, f in enumerate(case['fields']):
        name = 'f%d' % k
        for v in values_of(f):
            record = g.Record(**{name: [v] if f['place'] == 'list' else v})
            xml = record.xml('record', namespace=case['ns'], elementFormDefault='qualified')
            again = getattr(g.Record.parsexml(xml), name)
            if again != ([v] if f['place'] == 'list' else v):
                raise Violation('%r read as %r' % (v, again))
            bad = [v + 'x', 'x' + v] + ([v[:-1], v.replace('\\', '\\\\'), v.replace('\\\\', '\\')] if f['kind'] == 'enumeration' else [])
            bad = [x for x in bad if x and x not in values_of(f)]
            for x in bad:
                try:
                    g.Record(**{name: [x] if f['place'] == 'list' else x}).xml('record')
                except ValueError:
                    continue
                raise Violation('%r is not among %r but accepted' % (x, values_of(f)))


# --- WSDL documents -----------------------------------------------------------------------------------------
urls = words.map(lambda t: 'http://svc.example/' + t.replace(' ', '+').replace('&', '&').replace('[', '(').replace(']', ')')).map(lambda t: re.sub(r'[;?#]+(?=[;?#]|$)', '', t))


@st.composite
def wsdl_cases(draw):
    case = draw(c14.cases())
    svc = case['svc']
    svc['tns'] = draw(spaces)
    svc['location'] = draw(urls)
    for op in svc['ops']:
        if op['action'] is not None:
            op['action'] = draw(words)
    if case['shape']['second']:
        case['shape']['second']['location'] = draw(urls)
    case['calls'] = []
    return case


def check_wsdl(case):
    from soapfish import wsdl2py
    c14.prepare(case)
    plain = dict(case, noise=[], svc=dict(case['svc'], tns='urn:h0', location='http://svc.example/h', ops=[dict(op, action=op['action'] and 'urn:h%d' % k) for k, op in enumerate(case['svc']['ops'])]))
    if case['shape']['second']:
        plain['shape'] = dict(case['shape'], second=dict(case['shape']['second'], location='http://svc.example/i'))
    xml = noise.add(c14.document(case), case['noise'])
    code = {}
    for target in ('client', 'server'):
        codes = []
        for c, text in ((case, xml), (case, xml), (plain, c14.document(plain))):
            codes.append(wsdl2py.generate_code_from_wsdl(noise.encode(text, c['codec']), target, cwd='/nonexistent', use_wsa=bool(case.get('wsa'))).decode())
        code[target] = codes[0]
        if without_time(codes[0]) != without_time(codes[1]):
            raise Violation('generated twice: differs\n%s' % xml)
        compare_structure(codes[0], codes[2], xml)
    try:
        with Canary(), Generated(code['client']) as g, Generated(code['server']) as h:
            todo = list(c14.views(case))
            for n, view in enumerate(todo):
                client = c14.judge_facts(view, g, n, len(todo))
                c14.judge_client(view, g, client, n, len(todo))
                c14.judge_server(view, h, c14.judge_facts(view, h, n, len(todo)), len(todo))
    except Violation as e:
        raise Violation('%s\n%s\n%s' % (e, xml, code['client']))
    except Exception as e:
        raise Violation('%r\n%s\n%s' % (e, xml, code['server'])) from e
    return True


# --- order --------------------------------------------------------------------------------------------------
@st.composite
def order_cases(draw):
    case = draw(c10.cases())
    case['keys'] = draw(st.lists(st.integers(0, 9), min_size=4, max_size=14))
    return case


def shuffle(keys):
    def order(items):
        return [x for _, x in sorted(enumerate(items), key=lambda k: (keys[k[0] % len(keys)], -k[0]))]
    return order


def declarations(xml):
    """What a schema document declares, regardless of the order."""
    root = etree.fromstring(xml)

    def canonical(e):
        attrs = dict(e.attrib)
        for name in ('type', 'ref', 'base', 'substitutionGroup'):
            if name in attrs:
                prefix, _, local = attrs[name].rpartition(':')
                attrs[name] = '{%s}%s' % (e.nsmap.get(prefix or None), local)
        return e.tag, sorted(attrs.items()), [canonical(k) for k in e]
    return root.tag, sorted(root.attrib.items()), sorted(canonical(e) for e in root)


def members(g):
    """The classes of a module with what they inherit and declare."""
    from soapfish import xsd
    out = {}
    for name, cls in g.classes().items():
        bases = [b.__name__ for b in cls.__bases__]
        own = [(k, type(v).__name__) for k, v in vars(cls).items() if isinstance(v, (xsd.Element, xsd.ListElement, xsd.Attribute, xsd.Ref))]
        out[name] = bases, own
    return out


def check_order(case):
    from soapfish import py2xsd
    w, ref = c10.prepare(case)
    n = len(case['spec']['schemas'])
    order = shuffle(case['keys'])
    straight = [c10.restyle(w.schema(i), case['xs'], i) for i in range(n)]
    w.order = order
    mixed = [c10.restyle(w.schema(i), case['xs'], i) for i in range(n)]
    code, other = c10.generate(case['spec'], straight), c10.generate(case['spec'], mixed)
    if without_time(c10.generate(case['spec'], mixed).decode()) != without_time(other.decode()):
        raise Violation('generated twice: differs\n%s' % '\n'.join(mixed))
    done = c10.judge(case, w, ref, mixed, other)
    with Generated(code) as g, Generated(other) as h:
        if members(g) != members(h):
            raise Violation('classes %r in the order\n%s\nbut %r in the order\n%s' % (members(g), '\n'.join(straight), members(h), '\n'.join(mixed)))
        one, two = [{s.targetNamespace: declarations(etree.tostring(py2xsd.generate_xsd(s))) for s in x.schemas()} for x in (g, h)]
        if one != two:
            raise Violation('schemas %r in the order\n%s\nbut %r in the order\n%s' % (one, '\n'.join(straight), two, '\n'.join(mixed)))
    return done and straight != mixed


@st.composite
def wsdl_order_cases(draw):
    case = draw(c14.cases())
    case['keys'] = draw(st.lists(st.integers(0, 9), min_size=4, max_size=14))
    # lxml drops declarations of prefixes (which look superfluous) when elements are moved
    case['xs'] = ['xs' if style == 'local' else style for style in case['xs']]
    case['shape']['local'] = None
    return case


def check_wsdl_order(case):
    """Blocks of the document, schemas and what they declare may come in any order."""
    from soapfish import wsdl2py
    c14.prepare(case)
    root = etree.fromstring(c14.document(case))
    order = shuffle(case['keys'])

    def rearrange(parent, kept=()):
        fixed = [e for e in parent if etree.QName(e).localname in kept]
        rest = [e for e in parent if etree.QName(e).localname not in kept]
        parent[:] = fixed + order(rest)
    services = [e for e in root if etree.QName(e).localname == 'service']
    rearrange(root, ('documentation',))
    for a, b in zip([e for e in root if etree.QName(e).localname == 'service'], services):  # the order of services is that of the stubs
        if a is not b:
            root.replace(a, etree.fromstring(etree.tostring(b)))
    for types in root.findall('{*}types'):
        rearrange(types, ('documentation',))
        for schema in types.findall('{%s}schema' % XS):
            rearrange(schema, ('import', 'include', 'annotation'))
    xml = etree.tostring(root, encoding='unicode')
    code = {target: wsdl2py.generate_code_from_wsdl(xml.encode(), target, use_wsa=bool(case.get('wsa')), cwd='/nonexistent') for target in ('client', 'server')}
    return c14.judge(case, code, xml)


# --- the same in every process ------------------------------------------------------------------------------
@st.composite
def stable_cases(draw):
    return {'wsdl': [draw(c14.cases()) for _ in range(3)], 'seeds': draw(st.lists(st.integers(0, 4294967295), min_size=2, max_size=2, unique=True))}


SCRIPT = '''
import sys, soapfish.wsdl2py
for path in sys.argv[1:]:
    with open(path, 'rb') as f:
        xml = f.read()
    for target in ('client', 'server'):
        sys.stdout.write(soapfish.wsdl2py.generate_code_from_wsdl(xml, target, cwd='/nonexistent', encoding=None).replace('\\r', ' '))
'''


def check_stable(case):
    docs = []
    for c in case['wsdl']:
        try:
            c14.prepare(c)
        except Reject:
            continue
        docs.append(c14.document(c))
    if not docs:
        raise Reject
    outputs = []
    with tempfile.TemporaryDirectory() as tmp:
        paths = []
        for k, d in enumerate(docs):
            paths.append(os.path.join(tmp, '%d.wsdl' % k))
            with open(paths[-1], 'wb') as f:
                f.write(d.encode())
        for seed in case['seeds']:
            e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=env.REPO, PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-c', SCRIPT, *paths], env=e, capture_output=True, cwd='/', timeout=50)
            if p.returncode:
                raise Violation('%s\n%s' % (p.stderr.decode(), '\n'.join(docs)))
            outputs.append(without_time(p.stdout.decode()))
    if outputs[0] != outputs[1]:
        diff = [(a, b) for a, b in zip(*(o.split('\n') for o in outputs)) if a != b][:3]
        raise Violation('two processes generate different code: %r\n%s' % (diff, '\n'.join(docs)))
    return True


SUBS = [
    Sub('text', text_cases, check_text, quick=2000, thorough=30000, shards=8,
        rule='random texts in enumerations, patterns, namespaces, locations and documentation of a schema; non-trivial when one of the values is not just letters and digits'),
    Sub('wsdl-text', wsdl_cases, check_wsdl, quick=400, thorough=12000, shards=8,
        rule='random service with random texts as actions, addresses and namespace'),
    Sub('order', order_cases, check_order, quick=600, thorough=20000, shards=8,
        rule='random schemas x random order of the declarations; non-trivial when the order differs and the document is valid and sets two fields'),
    Sub('wsdl-order', wsdl_order_cases, check_wsdl_order, quick=400, thorough=12000, shards=8,
        rule='random WSDL document x random order of everything in it; non-trivial when a call was made'),
    Sub('processes', stable_cases, check_stable, quick=16, thorough=300, shards=8,
        rule='random WSDL documents compiled in two processes with different hash seeds'),
]
