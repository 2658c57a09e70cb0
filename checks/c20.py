"""C20: served WSDL and XSD documents form a closed, usable set."""
import copy
from urllib.parse import parse_qs, quote, urljoin, urlsplit

from hypothesis import strategies as st
from lxml import etree

from harness import graphs as G
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing: random graphs of schemas, the served documents crawled by following every schema location, judged by the graph and an own resolver of references'
NOTE = 'Every schema another one refers to has a location (others cannot be served); placeholders are written ${scheme} and ${host}.'

XSD = '{http://www.w3.org/2001/XMLSchema}'
WSDL = '{http://schemas.xmlsoap.org/wsdl/}'
SOAP = {'11': '{http://schemas.xmlsoap.org/wsdl/soap/}', '12': '{http://schemas.xmlsoap.org/wsdl/soap12/}'}
ADDRESSES = ['${scheme}://${host}/ws', 'http://fixed.example/ws', '${scheme}://${host}/a/${host}/${scheme}', 'https://${host}/x?a=1&b=2', '${scheme}://fixed.example/${path}/$5', 'http://x/${unknown}', "${scheme}://${host}/it's", '${scheme}://${host}/"q"', '']
HOSTS = ['svc.example', 'svc.example:8080', '[::1]:80', None, 'a&b', 'x"y', 'a<b>', "it's", '${scheme}', '$host', r'\1', 'é', 'localhost']


@st.composite
def cases(draw):
    g = draw(G.graphs())
    return {'g': g, 'version': draw(st.sampled_from(['11', '12'])), 'address': draw(st.sampled_from(ADDRESSES)), 'host': draw(st.sampled_from(HOSTS)),
            'scheme': draw(st.sampled_from(['http', 'https'])), 'proto': draw(st.sampled_from([None, None, 'http', 'https'])), 'key': draw(st.sampled_from(['wsdl', 'singleWsdl'])),
            'action': draw(st.sampled_from(['urn:a', 'http://${host}/a', '${scheme}', ' location="${host}"'])),
            'names': draw(st.lists(st.one_of(st.sampled_from(G.LOCATIONS), st.text(max_size=6)), max_size=3)),
            'style': draw(st.sampled_from(['raw', 'quoted']))}


def fetch(dispatcher, case, query):
    from soapfish.core import SOAPRequest
    env = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': query, 'wsgi.url_scheme': case['scheme'], 'PATH_INFO': '/ws'}
    if case['host'] is not None:
        env['HTTP_HOST'] = case['host']
    if case['proto']:
        env['HTTP_X_FORWARDED_PROTO'] = case['proto']
    r = dispatcher.dispatch(SOAPRequest(env, b''))
    return r.http_status_code, r.http_content


def references(doc):
    """(kind, QName in Clark notation) of every reference to a component."""
    for e in doc.iter(etree.Element):
        for name in ('type', 'ref', 'base', 'substitutionGroup'):
            v = e.get(name)
            if v is None:
                continue
            prefix, _, local = v.rpartition(':')
            ns = e.nsmap.get(prefix or None)
            if ns is None:
                raise Violation('the prefix of %s is not declared: %s' % (v, etree.tostring(e).decode()))
            yield 'type' if name in ('type', 'base') else 'element', '{%s}%s' % (ns, local)


def declared(doc):
    ns = doc.get('targetNamespace')
    out = {('element', '{%s}%s' % (ns, e.get('name'))) for e in doc.findall(XSD + 'element')}
    out |= {('type', '{%s}%s' % (ns, e.get('name'))) for k in ('complexType', 'simpleType') for e in doc.findall(XSD + k)}
    return out


def check(case):
    from soapfish import py2wsdl, soap, xsd
    from soapfish.soap_dispatch import SOAPDispatcher
    g = case['g']
    schemas, classes = G.build(g)
    n = len(schemas)
    name = 'e%d' % g['listed'][0]
    version = {'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[case['version']]
    service = soap.Service(name='Svc', targetNamespace=G.namespace(g, g['listed'][0]), location=case['address'], schemas=[schemas[i] for i in g['listed']], version=version,
                           methods=[xsd.Method('Op', case['action'], name, name)])
    generated = etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(service)))
    dispatcher = SOAPDispatcher(service)
    status, content = fetch(dispatcher, case, case['key'])
    if status != 200:
        raise Violation('WSDL: status %r' % status)
    base = 'http://base.example/ws?' + case['key']
    wsdl = etree.fromstring(content)

    # --- the service address
    want = case['address']
    if case['host'] is not None:
        scheme = case['proto'] or case['scheme']
        want = case['host'].join(scheme.join(x.split('${scheme}')) for x in want.split('${host}'))
    addresses = [e.get('location') for e in wsdl.iter(SOAP[case['version']] + 'address')]
    if addresses != [want]:
        raise Violation('address %r served, expected %r' % (addresses, want))

    # --- everything reachable, followed by location only
    documents = {}          # index -> document

    def follow(doc, i, url):
        own = [(e.tag[len(XSD):], e.get('namespace'), e.get('schemaLocation')) for e in doc if e.tag in (XSD + 'import', XSD + 'include')]
        imports, includes = G.imports(g, i), G.includes(g, i)
        # what the schemas of base classes refer to may be necessary, too
        own = {kind: [x for x in own if x[0] == kind] for kind in ('import', 'include')}
        more = {'import': own['import'][len(imports):], 'include': own['include'][len(includes):]}
        if ([x[1] for x in own['import']][:len(imports)] != [G.namespace(g, j) for j in imports] or len(own['include']) < len(includes) or any(x[1] for x in own['include'])
                or (more['import'] or more['include']) and G.base(g, i) is None):
            raise Violation('schema %d refers to %r, expected imports %r and includes %r' % (i, own, imports, includes))
        edges[i] = []
        for (kind, ns, loc), j in list(zip(own['import'], imports)) + list(zip(own['include'], includes)) + [(x, None) for x in more['import'] + more['include']]:
            if loc is None:
                raise Violation('the %s of schema %d has no location' % (kind, i))
            target = urlsplit(urljoin(url, loc))
            if (target.scheme, target.netloc, target.path) != ('http', 'base.example', '/ws'):
                raise Violation('%r of schema %d is not served by the service' % (loc, i))
            status, content = fetch(dispatcher, case, target.query)
            if status != 200:
                raise Violation('%r of schema %d: status %r' % (loc, i, status))
            other = etree.fromstring(content)
            if j is None:
                found = [k for k in G.uses(g, i) if ('type', '{%s}t%d' % (G.namespace(g, k), k)) in declared(other)]
                if not found or (ns or G.namespace(g, i)) != other.get('targetNamespace'):
                    raise Violation('schema %d refers to %r, which it does not need' % (i, (kind, ns, loc)))
                j = found[0]
            edges[i].append(j)
            if j in documents:
                if etree.tostring(other, method='c14n') != etree.tostring(documents[j], method='c14n') and j not in inline:
                    raise Violation('schema %d is served in two versions' % j)
            elif not check_schema(other, j):
                documents[j] = other
                follow(other, j, urljoin(url, loc))

    def check_schema(doc, i):
        if doc.tag != XSD + 'schema' or doc.get('targetNamespace') != G.namespace(g, i):
            raise Violation('schema %d is served as %s of %r' % (i, doc.tag, doc.get('targetNamespace')))
        want = {('element', '{%s}e%d' % (G.namespace(g, i), i)), ('type', '{%s}t%d' % (G.namespace(g, i), i))}
        if declared(doc) != want:
            raise Violation('schema %d declares %r, expected %r' % (i, sorted(declared(doc)), sorted(want)))

    inline, edges = {}, {}
    got = wsdl.find(WSDL + 'types').findall(XSD + 'schema')
    if len(got) != len(g['listed']):
        raise Violation('%d inline schemas, expected %d' % (len(got), len(g['listed'])))
    for i, doc in zip(g['listed'], got):
        check_schema(doc, i)
        inline[i] = doc
    for i, doc in inline.items():
        follow(doc, i, base)
    want = G.reachable(g)
    missing = set(want) - set(documents) - set(inline)
    if missing:
        raise Violation('schemas %r cannot be found from the WSDL' % sorted(missing))

    # --- every reference resolves to something the document can see
    def visible(doc, i):
        def closure(j, seen):
            if j not in seen:
                seen.add(j)
                for k in edges[j]:
                    if g['ns'][j] == g['ns'][k]:
                        closure(k, seen)
            return seen
        seen = closure(i, set())
        for j in edges[i]:
            closure(j, seen)
        out = declared(doc)
        for j in seen - {i}:
            out |= declared(documents[j] if j in documents else inline[j])
        return out

    for doc, i in [(d, i) for i, d in inline.items()] + [(d, i) for i, d in documents.items()]:
        known = visible(doc, i)
        for kind, q in references(doc):
            if not q.startswith(XSD) and (kind, q) not in known:
                raise Violation('schema %d refers to the unknown %s %s' % (i, kind, q))

    # --- the rest of the WSDL is as generated
    plain = copy.deepcopy(wsdl)
    for e in plain.iter(SOAP[case['version']] + 'address'):
        e.set('location', case['address'])
    for e, f in zip(plain.iter(XSD + 'import', XSD + 'include'), generated.iter(XSD + 'import', XSD + 'include')):
        if e.get('schemaLocation') is not None and f.get('schemaLocation') is not None:
            e.set('schemaLocation', f.get('schemaLocation'))

    def squeezed(e):
        for x in e.iter():
            x.text, x.tail = (x.text or '').strip() or None, (x.tail or '').strip() or None
        return etree.tostring(e, method='c14n')
    if squeezed(plain) != squeezed(generated):
        raise Violation('the WSDL served differs from the one generated:\n%s\n%s' % (squeezed(plain).decode(), squeezed(generated).decode()))

    # --- names
    served = {G.location(g, i): i for i in range(n) if any(j == i for k, j in g['edges'] if k in G.reachable(g))}
    for loc in list(served) + case['names']:
        if loc is None or not all(c.isprintable() for c in loc):
            continue
        try:
            query = 'xsd=' + (quote(loc, safe='') if case['style'] == 'quoted' else quote(loc))
        except UnicodeEncodeError:
            continue
        assert parse_qs(query, keep_blank_values=True)['xsd'][0] == loc
        status, content = fetch(dispatcher, case, query)
        known = (loc or 'xsd') in served
        if status != (200 if known else 404):
            raise Violation('status %r for the %s name %r' % (status, 'known' if known else 'unknown', loc))
        if known:
            check_schema(etree.fromstring(content), served[loc or 'xsd'])
    return len(want) > 2


# --- documents given by the user -----------------------------------------------------------------------
TEXTS = ['', 'a', '${host}', '$$', '$scheme', '%s', '{0}', 'é', '&amp;', ' location=x', '\\1']


@st.composite
def own_cases(draw):
    return {'xsds': draw(st.dictionaries(st.sampled_from(G.LOCATIONS), st.sampled_from(TEXTS), max_size=3)), 'text': draw(st.sampled_from(TEXTS)), 'address': draw(st.sampled_from(ADDRESSES)),
            'host': draw(st.sampled_from(HOSTS)), 'scheme': 'http', 'proto': draw(st.sampled_from([None, 'https'])), 'quote': draw(st.sampled_from(['"', "'"])), 'wsdl': draw(st.booleans())}


def check_own(case):
    from xml.sax.saxutils import escape, quoteattr

    from soapfish import soap, xsd
    from soapfish.soap_dispatch import SOAPDispatcher
    service = soap.Service(name='Svc', targetNamespace='urn:x', location='http://x', schemas=[xsd.Schema('urn:x', imports=[xsd.Schema('urn:y', location='y.xsd')])], methods=[])
    address = quoteattr(case['address']) if case['quote'] == '"' else "'%s'" % escape(case['address'], {"'": '&apos;'})
    text = case['text'].replace('location=x', '')
    wsdl = ('<definitions xmlns="http://schemas.xmlsoap.org/wsdl/"><documentation>%s</documentation><service name="S"><port name="P"><address xmlns="http://schemas.xmlsoap.org/wsdl/soap/" location=%s/>'
            '</port></service></definitions>' % (text, address)).encode()
    xsds = {k: ('<x>%s</x>' % v).encode() for k, v in case['xsds'].items()}
    d = SOAPDispatcher(service, xsds=xsds, **({'wsdl': wsdl} if case['wsdl'] else {}))
    for loc in list(xsds) + ['y.xsd', 'none']:
        status, content = fetch(d, case, 'xsd=' + quote(loc))
        if (status, content) != ((200, xsds[loc]) if loc in xsds else (404, content)):
            raise Violation('%r: %r %r' % (loc, status, content))
    if case['wsdl']:
        status, content = fetch(d, case, 'wsdl')
        doc = etree.fromstring(content)
        want = case['address']
        if case['host'] is not None:
            want = case['host'].join((case['proto'] or 'http').join(x.split('${scheme}')) for x in want.split('${host}'))
        got = next(doc.iter(SOAP['11'] + 'address'))
        if got.get('location') != want:
            raise Violation('address %r served, expected %r' % (got.get('location'), want))
        got.set('location', case['address'])
        if etree.tostring(doc, method='c14n') != etree.tostring(etree.fromstring(wsdl), method='c14n'):
            raise Violation('the WSDL given was changed: %r' % content)
    return bool(xsds)


SUBS = [
    Sub('crawl', cases, check, quick=1500, thorough=30000, shards=6,
        rule='random graph of up to six schemas x address x request; non-trivial when more than two schemas are reachable'),
    Sub('given', own_cases, check_own, quick=600, thorough=6000, shards=1,
        rule='a WSDL and schema documents given by the user; non-trivial when at least one schema document is given'),
]
