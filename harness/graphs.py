"""Graphs of schemas connected by imports and includes (cycles, diamonds, several schemas of one namespace)."""
from hypothesis import strategies as st

NAMESPACES = ['urn:g:a', 'urn:g:b', 'http://example.com/g?c=1&d=2', 'urn:g:$host']
LOCATIONS = ['a.xsd', 'b.xsd', 'sub/a.xsd', '../a.xsd', 'a b.xsd', 'a&b.xsd', 'a%20b.xsd', 'a%b.xsd', 'é.xsd', '漢字.xsd', 'a#b.xsd', 'a?b=c.xsd', 'http://x.example/a.xsd', 'http://x.example/b.xsd?x=1&y=2',
             'a+b.xsd', 'xsd', 'wsdl', "a'b.xsd", 'a"b<c>.xsd', 'A.xsd', 'a.xsd/', '/a.xsd', '${host}.xsd', 'a;b=c.xsd', 'a=b', ' a.xsd', 'a.xsd ']


@st.composite
def graphs(draw, max_n=6):
    n = draw(st.integers(1, max_n))
    ns = [draw(st.integers(0, len(NAMESPACES) - 1)) for _ in range(n)]
    locs = draw(st.lists(st.sampled_from(LOCATIONS), min_size=n, max_size=n, unique=True))
    edges = []
    for i in range(1, n):  # most are reachable from the first one
        if draw(st.integers(0, 9)):
            edges.append([draw(st.integers(0, i - 1)), i])
    for _ in range(draw(st.integers(0, n))):
        e = [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
        if e not in edges and (e[0] != e[1]):
            edges.append(e)
    listed = [0] + [i for i in range(1, n) if draw(st.integers(0, 3)) == 0]
    if draw(st.booleans()):
        listed = draw(st.permutations(listed))
    return {'ns': ns, 'loc': locs, 'edges': edges, 'listed': list(listed), 'qualified': draw(st.booleans()),
            'noloc': draw(st.booleans()), 'bases': [draw(st.integers(0, 3)) == 0 for _ in range(n)]}


def namespace(g, i):
    return NAMESPACES[g['ns'][i]]


def location(g, i):
    """Schemas which nothing refers to need no location."""
    if g['noloc'] and not any(j == i for _, j in g['edges']):
        return None
    return g['loc'][i]


def imports(g, i):
    return [j for k, j in g['edges'] if k == i and g['ns'][i] != g['ns'][j]]


def includes(g, i):
    return [j for k, j in g['edges'] if k == i and g['ns'][i] == g['ns'][j]]


def later(g, i):
    return [j for k, j in g['edges'] if k == i and j > i]


def base(g, i):
    """T<i> may be derived from a type of another schema."""
    return later(g, i)[0] if g['bases'][i] and later(g, i) else None


def uses(g, i):
    """The types of the fields of T<i>, inherited ones included."""
    return set(later(g, i)) | (uses(g, base(g, i)) if base(g, i) is not None else set())


def reachable(g, start=None):
    todo = list(g['listed'] if start is None else start)
    for i in todo:
        todo += [j for k, j in g['edges'] if k == i and j not in todo]
    return todo


def build(g):
    """(schemas, classes): class T<i> and element e<i> in schema i; T<i> refers to T<j> for the edges to later schemas."""
    from soapfish import xsd
    n = len(g['ns'])
    classes, schemas = [None] * n, []
    for i in reversed(range(n)):
        fields = {'value': xsd.Element(xsd.String, minOccurs=0)}
        for j in later(g, i):
            fields['t%d' % j] = xsd.Element(classes[j], minOccurs=0)
        classes[i] = type('T%d' % i, (xsd.ComplexType if base(g, i) is None else classes[base(g, i)],), fields)
    for i in range(n):
        schemas.append(xsd.Schema(namespace(g, i), elementFormDefault=xsd.ElementFormDefault.QUALIFIED if g['qualified'] else xsd.ElementFormDefault.UNQUALIFIED,
                                  complexTypes=[classes[i]], elements={'e%d' % i: xsd.Element(classes[i])}, location=location(g, i)))
    for i in range(n):
        schemas[i].imports = [schemas[j] for j in imports(g, i)]
        schemas[i].includes = [schemas[j] for j in includes(g, i)]
    return schemas, classes
