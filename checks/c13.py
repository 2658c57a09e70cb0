"""C13: the generated WSDL describes the service faithfully."""
import functools
import os

from hypothesis import strategies as st
from lxml import etree

from harness import graphs as G
from harness import models as M
from harness import refxsd
from harness import services as S
from harness.core import HarnessError, Sub, Violation

from checks.c20 import declared, references

TECHNIQUE = 'property-based testing: random services, the generated WSDL judged by the XML Schema of WSDL 1.1, by an own reader which resolves every reference, and by validating rendered messages with the inline schemas'
NOTE = 'SOAP headers are not described by generated WSDL documents; element names are distinct within a service.'

XSD = '{http://www.w3.org/2001/XMLSchema}'
WSDL = '{http://schemas.xmlsoap.org/wsdl/}'
BINDING = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
HTTP = 'http://schemas.xmlsoap.org/soap/http'
NAMES = ['Svc', 'My_Service', 'my-service', 'a.b', 'Größe', 'Port', '_', 'x1', 'find', 'Echo', 'echo', 'findInput', 'tns', 'PortType', 'sns', 'EchoOutput', 'class', 'body']
TNS = ['urn:svc', 'http://example.com/svc?a=1&b=2', "urn:it's"]
LOCATIONS = S.LOCATIONS + ['http://é.example/', "http://x/it's", 'http://x/a%20b', 'urn:x', '/relative', 'http://x/?a="b"', 'http://x/?a=<b>']
PARTS = ['body', 'body', 'parameters', 'Part-1', 'x']


@functools.lru_cache(None)
def wsdl_schema(version):
    """The schema of WSDL documents with the SOAP binding of the version."""
    def read(name):
        with open(os.path.join(os.path.dirname(G.__file__), name)) as f:
            return f.read()

    class Resolver(etree.Resolver):
        def resolve(self, url, id_, context):
            if url == 'verif:wsdl':
                return self.resolve_string(read('wsdl11.xsd'), context)
            if url == 'verif:soap':
                return self.resolve_string(read('wsdlsoap.xsd').replace('NAMESPACE', BINDING[version]), context)
            raise HarnessError('unexpected reference to ' + url)
    parser = etree.XMLParser()
    parser.resolvers.add(Resolver())
    top = ('<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:import namespace="http://schemas.xmlsoap.org/wsdl/" schemaLocation="verif:wsdl"/>'
           '<xs:import namespace="%s" schemaLocation="verif:soap"/></xs:schema>' % BINDING[version])
    return etree.XMLSchema(etree.fromstring(top, parser))


# --- the expected description, computed from the specification -------------------------------------------
def clark(e, value):
    prefix, _, local = value.rpartition(':')
    ns = e.nsmap.get(prefix or None)
    if ns is None:
        raise Violation('the prefix of %r is not declared' % value)
    return '{%s}%s' % (ns, local)


def describe(doc):
    """What the WSDL says, all references resolved. Raises Violation for dangling references."""
    version = [v for v, ns in BINDING.items() if doc.find('%sbinding/{%s}binding' % (WSDL, ns)) is not None]
    if len(version) != 1:
        raise Violation('the binding is of SOAP version %r' % version)
    soap = '{%s}' % BINDING[version[0]]
    tns = doc.get('targetNamespace')

    def named(tag, ref_el, ref):
        name = clark(ref_el, ref)
        found = [e for e in doc.findall(WSDL + tag) if '{%s}%s' % (tns, e.get('name')) == name]
        if len(found) != 1:
            raise Violation('%s %s is declared %d times' % (tag, name, len(found)))
        return found[0]
    out = {'version': version[0], 'tns': tns, 'services': []}
    components = set().union(*[declared(s) for s in doc.findall('%stypes/%sschema' % (WSDL, XSD))], set())
    used = set()
    for service in doc.findall(WSDL + 'service'):
        ports = []
        for port in service.findall(WSDL + 'port'):
            binding = named('binding', port, port.get('binding'))
            port_type = named('portType', binding, binding.get('type'))
            used |= {binding, port_type}
            sb = binding.find(soap + 'binding')
            if [o.get('name') for o in port_type.findall(WSDL + 'operation')] != [o.get('name') for o in binding.findall(WSDL + 'operation')]:
                raise Violation('operations of port type and binding differ: %r %r' % ([o.get('name') for o in port_type], [o.get('name') for o in binding]))
            ops = []
            for bo, po in zip(binding.findall(WSDL + 'operation'), port_type.findall(WSDL + 'operation')):
                so = bo.find(soap + 'operation')
                op = {'name': po.get('name'), 'action': so.get('soapAction'), 'style': so.get('style')}
                for way in ('input', 'output'):
                    io = po.find(WSDL + way)
                    message = named('message', io, io.get('message'))
                    used.add(message)
                    parts = []
                    for part in message.findall(WSDL + 'part'):
                        kind = [k for k in ('element', 'type') if part.get(k) is not None]
                        if len(kind) != 1:
                            raise Violation('part has %r' % kind)
                        name = clark(part, part.get(kind[0]))
                        if not name.startswith(XSD) and (kind[0], name) not in components and out is not None:
                            parts.append((part.get('name'), kind[0], name, 'dangling'))
                        else:
                            parts.append((part.get('name'), kind[0], name))
                    body = bo.find(WSDL + way).findall(soap + 'body')
                    op[way] = parts
                    op[way + '-body'] = [dict(b.attrib) for b in body]
                ops.append(op)
            ports.append({'name': port.get('name'), 'address': [a.get('location') for a in port.findall(soap + 'address')], 'transport': sb.get('transport'), 'style': sb.get('style'), 'ops': ops})
        out['services'].append({'name': service.get('name'), 'ports': ports})
    for tag in ('binding', 'portType', 'message'):
        for e in doc.findall(WSDL + tag):
            if e not in used:
                raise Violation('%s %s is not part of the service' % (tag, e.get('name')))
    return out


def canonical(e):
    """A schema document with its names resolved, for comparison."""
    attrs = dict(e.attrib)
    for name in ('type', 'ref', 'base', 'substitutionGroup'):
        if name in attrs:
            attrs[name] = clark(e, attrs[name])
    return (e.tag, sorted(attrs.items()), (e.text or '').strip(), [canonical(k) for k in e])


def generate(service):
    """The WSDL, written and read again."""
    from soapfish import py2wsdl
    return etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(service)))


def judge_wsdl(doc, service, expected):
    from soapfish import py2xsd
    version = expected['version']
    schema = wsdl_schema(version)
    if not schema.validate(doc):
        raise Violation('not valid WSDL 1.1: %s\n%s' % (schema.error_log.last_error, etree.tostring(doc, pretty_print=True).decode()))
    got = describe(doc)
    if got != expected:
        raise Violation('described: %r\nexpected: %r' % (got, expected))
    inline = doc.findall('%stypes/%sschema' % (WSDL, XSD))
    for e, s in zip(inline, service.schemas):
        want = etree.fromstring(etree.tostring(py2xsd.generate_xsd(s)))
        if canonical(e) != canonical(want):
            raise Violation('inline schema\n%s\nschema\n%s' % (etree.tostring(e).decode(), etree.tostring(want).decode()))
    if len(inline) != len(service.schemas):
        raise Violation('%d schemas instead of %d' % (len(inline), len(service.schemas)))
    again = generate(service)
    if etree.tostring(again) != etree.tostring(doc):
        raise Violation('generated twice: %s\n%s' % (etree.tostring(doc).decode(), etree.tostring(again).decode()))
    return inline


def expectation(version, name, tns, location, ops, components):
    """ops: [(name, action, style, (part, kind, name), (part, kind, name))]"""
    def part(p):
        return [p if p[1:] in components else (*p, 'dangling')]
    body = [{'use': 'literal'}]
    return {'version': version, 'tns': tns, 'services': [{'name': name, 'ports': [{
        'name': name + 'Port', 'address': [location], 'transport': HTTP, 'style': 'document',
        'ops': [{'name': n, 'action': a, 'style': s, 'input': part(i), 'input-body': body, 'output': part(o), 'output-body': body} for n, a, s, i, o in ops]}]}]}


# --- services -----------------------------------------------------------------------------------------------
@st.composite
def service_cases(draw):
    svc = draw(S.services(max_ops=6, headers=False))
    svc['name'] = draw(st.sampled_from(NAMES))
    svc['tns'] = draw(st.sampled_from(TNS + [svc['spec']['schemas'][0]]))
    svc['location'] = draw(st.sampled_from(LOCATIONS))
    svc['all'] = True if len(svc['spec']['schemas']) == 1 else draw(st.integers(0, 3)) > 0
    names = draw(st.permutations(NAMES))
    for i, op in enumerate(svc['ops']):
        op['name'] = names[i]
        op['style'] = draw(st.sampled_from(['document', 'document', 'rpc']))
        op['parts'] = draw(st.lists(st.sampled_from(PARTS), min_size=2, max_size=2))
        op['action'] = draw(st.sampled_from([op['action'], op['action'], 'urn:é', 'http://x/?a=1&b="2"', ' x', '<a>', '${host}']))
        if i and draw(st.integers(0, 3)) == 0:  # messages may be shared
            op[draw(st.sampled_from(['in', 'out']))] = svc['ops'][draw(st.integers(0, i - 1))][draw(st.sampled_from(['in', 'out']))]
    if draw(st.integers(0, 9)) == 0:
        svc['ops'] = []
    i = draw(st.integers(0, max(0, len(svc['ops']) - 1)))
    return {'svc': svc, 'i': i, 'v': draw(M.instances(svc['spec'], S.members(svc, svc['ops'][i])[0][1], S.O, full=True)) if svc['ops'] else None}


def type_tag(svc, i):
    t = svc['spec']['types'][i]
    return '{%s}%s' % (svc['spec']['schemas'][t['s']], S.class_tag(t['name']))


def check_services(case):
    svc = case['svc']
    spec = svc['spec']
    b = S.build(svc)
    try:
        for m, op in zip(b.methods, svc['ops']):
            m.style = op['style']
            m.inputPartName, m.outputPartName = op['parts']
        doc = generate(b.service)
        listed = range(len(spec['schemas'])) if svc['all'] else [0]

        def part(name, message):
            if 'cls' in message:
                return (name, 'type', type_tag(svc, message['cls']))
            return (name, 'element', '{%s}%s' % (spec['schemas'][S.element_schema(svc, message['tag'])], message['tag']))
        components = {('element', '{%s}%s' % (spec['schemas'][S.element_schema(svc, tag)], tag)) for tag in spec['elements'] if S.element_schema(svc, tag) in listed}
        components |= {('type', type_tag(svc, i)) for i, t in enumerate(spec['types']) if t['s'] in listed}
        expected = expectation(svc['version'], svc['name'], svc['tns'], svc['location'],
                               [(op['name'], op['action'], op['style'], part(op['parts'][0], op['in']), part(op['parts'][1], op['out'])) for op in svc['ops']], components)
        inline = judge_wsdl(doc, b.service, expected)
        if not svc['all']:
            return len(svc['ops']) > 1
        # every reference within the schemas is to a component of the schemas
        have = set().union(*[declared(s) for s in inline])
        for s in inline:
            for kind, name in references(s):
                if not name.startswith(XSD) and (kind, name) not in have:
                    raise Violation('%s %s is not declared' % (kind, name))
        if svc['ops']:
            check_message(svc, svc['ops'][case['i']], case['v'], inline)
        return len(svc['ops']) > 1
    finally:
        S.dispose(b)


def check_message(svc, op, value, inline):
    """The schemas of the WSDL accept what the reference schema accepts."""
    tag, ti = S.members(svc, op)[0]
    message = etree.fromstring(S.R.Writer(S.R.Choices([]), set()).document(S.body_node(svc, tag, ti, value)))
    reference = S.judge(svc)
    if not reference.validate(message):
        raise HarnessError('the reference schema rejects %s: %s' % (etree.tostring(message).decode(), reference.error_log.last_error))
    documents = {}
    for e in inline:
        documents.setdefault(e.get('targetNamespace'), e)
    if len(documents) != len(inline):
        return
    for e in inline:
        for i in e.findall(XSD + 'import'):
            i.set('schemaLocation', 'verif:%d' % list(documents).index(i.get('namespace')))

    class Resolver(etree.Resolver):
        def resolve(self, url, id_, context):
            return self.resolve_string(etree.tostring(list(documents.values())[int(url.split(':')[1])]), context)
    parser = etree.XMLParser()
    parser.resolvers.add(Resolver())
    top = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">%s</xs:schema>' % ''.join(
        '<xs:import namespace="%s" schemaLocation="verif:%d"/>' % (M.esc(ns, True), i) for i, ns in enumerate(documents))
    try:
        schema = etree.XMLSchema(etree.fromstring(top, parser))
    except etree.XMLSchemaParseError as e:
        raise Violation('the inline schemas are not valid: %s' % e)
    if 'cls' in op['in']:
        return  # there is no element for it
    if not schema.validate(message):
        raise Violation('the inline schemas reject %s: %s' % (etree.tostring(message).decode(), schema.error_log.last_error))


# --- graphs of schemas -----------------------------------------------------------------------------------
@st.composite
def graph_cases(draw):
    g = draw(G.graphs())
    found = G.reachable(g)
    ops = [{'in': draw(st.sampled_from(found)), 'out': draw(st.sampled_from(found)), 'cls': draw(st.booleans()), 'action': draw(st.sampled_from(S.ACTIONS))} for _ in range(draw(st.integers(0, 5)))]
    return {'g': g, 'ops': ops, 'version': draw(st.sampled_from(['11', '12']))}


def check_graphs(case):
    from soapfish import soap, xsd
    g = case['g']
    schemas, classes = G.build(g)
    methods, ops = [], []

    def part(i, cls):
        return ('body', 'type' if cls else 'element', '{%s}%s' % (G.namespace(g, i), ('t%d' if cls else 'e%d') % i))
    for k, op in enumerate(case['ops']):
        methods.append(xsd.Method(operationName='op%d' % k, soapAction=op['action'], input=classes[op['in']] if op['cls'] else 'e%d' % op['in'], output='e%d' % op['out']))
        ops.append(('op%d' % k, op['action'], 'document', part(op['in'], op['cls']), part(op['out'], False)))
    service = soap.Service(name='Svc', targetNamespace='urn:svc', location='http://svc.example/', schemas=[schemas[i] for i in g['listed']], methods=methods,
                           version={'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[case['version']])
    for namespace in (BINDING[case['version']], S.ENVELOPE[case['version']]):
        if soap.SOAPVersion.get_version(namespace) is not service.version or soap.SOAPVersion.get_version_name(namespace) != service.version.__name__:
            raise Violation('the version of %r is %r' % (namespace, soap.SOAPVersion.get_version(namespace)))
    for namespace in (BINDING[case['version']][:-1], 'urn:svc', '', None):
        try:
            soap.SOAPVersion.get_version(namespace)
        except ValueError:
            continue
        raise Violation('the namespace %r has a version' % namespace)
    components = {(kind, '{%s}%s' % (G.namespace(g, i), name)) for i in g['listed'] for kind, name in (('element', 'e%d' % i), ('type', 't%d' % i))}
    judge_wsdl(generate(service), service, expectation(case['version'], 'Svc', 'urn:svc', 'http://svc.example/', ops, components))
    return any(i not in g['listed'] for op in case['ops'] for i in (op['in'], op['out'])) or len(g['listed']) > 1


SUBS = [
    Sub('services', service_cases, check_services, quick=400, thorough=12000, shards=6,
        rule='the service has more than one operation'),
    Sub('graphs', graph_cases, check_graphs, quick=600, thorough=16000, shards=2,
        rule='several schemas are listed or a message is declared in an imported schema'),
]
