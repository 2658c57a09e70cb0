"""C14: client and server code generated from a WSDL document implement what it describes and understand each other."""
import inspect
import xml.etree.ElementTree as ET

from hypothesis import strategies as st
from lxml import etree

from checks import c10
from checks.c13 import describe
from harness import codegen as CG
from harness import models as M
from harness import noise
from harness import refwsdl
from harness import refxsd
from harness import services as S
from harness.codegen import Generated
from harness.core import HarnessError, Reject, Sub, Violation

TECHNIQUE = 'property-based testing: random hand-written WSDL documents compiled to a client and a server, facts compared with the document, calls exchanged between the two and judged by a reference serialiser'
NOTE = 'Document style, messages of one part, SOAP headers by element; message types complex; one SOAP version per document; distinct target namespaces of inline schemas.'

O = c10.O
OP_NAMES = ['FindPerson', 'find', 'Echo', 'submitOrder', 'op_1', 'echo', 'Cancel', 'get-it', 'a.b', 'class', 'import', 'call', 'service', 'location', 'request', 'self', 'header', 'soap', 'xsd', 'SERVICE',
            'username', 'Größe', 'print', 'None', '_handle_response', 'HOST', 'BaseHeader', '__init__', '_x']
NAMES = ['Svc', 'My_Service', 'my-service', 'a.b', 'Größe', 'x1', 'class', 'soap', 'xsd', '_', 'Find']
PARTS = ['body', 'parameters', 'Part-1', 'x', 'None', 'header', 'request']
HPARTS = ['head', 'Header-1', 'auth', 'class', 'SCHEMA', 'x.y', 'render', 'H', 'a', 'b']
LOCATIONS = ['http://svc.example/ws', 'https://svc.example:8443/a/b?c=d', 'http://svc.example/', 'http://svc.example', 'http://user@svc.example/x;y=z?a=1&b=2#f', 'http://[::1]:80/a', 'http://svc.example/a$b', 'http://svc.example/${host}/$$x',
             "http://svc.example/it's", 'http://svc.example/a%20b', 'http://svc.example/"x"\\n', 'http://svc.example/{x}']
TNS = ['urn:svc', 'http://example.com/svc?a=1&b=2', "urn:it's"]
MESSAGES = ['%sRequest', '%s.in', '%s-message', 'm_%s', 'SoapIn%s']
BLOCKS = ['types', 'message', 'portType', 'binding', 'service']


def clean_name(name):
    return ''.join(c if c.isalnum() or c in '_.-' else '_' for c in name)


@st.composite
def cases(draw):
    svc = draw(S.services(O, max_ops=4, subst=False, specs=c10.specs))
    spec = svc['spec']
    svc['svc_in'] = svc['svc_out'] = None
    svc['name'] = draw(st.sampled_from(NAMES))
    svc['location'] = draw(st.sampled_from(LOCATIONS))
    svc['tns'] = draw(st.sampled_from(TNS + [spec['schemas'][0]]))
    names = draw(st.permutations(OP_NAMES[:7])) if draw(st.booleans()) else draw(st.permutations(OP_NAMES))
    for h in svc['headers']:
        for f in h['fields']:
            f['min'] = 1
    shape = {'prefix': draw(st.booleans()), 'docs': draw(st.integers(0, 3)) == 0, 'name': draw(st.sampled_from([None, 'Defs', 'a-b'])), 'ops': [], 'split': draw(st.booleans()),
             'portType': draw(st.sampled_from(NAMES)), 'binding': draw(st.sampled_from(NAMES)), 'port': draw(st.sampled_from(NAMES)), 'style': draw(st.sampled_from([None, 'document'])),
             'other': draw(st.sampled_from([None, None, 'first', 'last'])), 'order': draw(st.permutations(BLOCKS)) if draw(st.integers(0, 3)) == 0 else BLOCKS,
             'reverse': draw(st.booleans()), 'header_first': draw(st.booleans()),
             'local': draw(st.sampled_from([None, None, 'own', 'swap', 'default']))}
    same = draw(st.integers(0, 5)) == 0
    if draw(st.integers(0, 3)) == 0:  # operations may be named like types (or rather their classes)
        k, t = draw(st.integers(0, len(svc['ops']) - 1)), draw(st.sampled_from(spec['types']))
        names[k] = c10.class_name(spec['prefix'][0] + t['name'])
    for k, op in enumerate(svc['ops']):
        op['name'] = names[k]
        op['style'] = draw(st.sampled_from(['document', None]))
        op['oneway'] = draw(st.integers(0, 11)) == 0
        if op['action'] and draw(st.integers(0, 9)) == 0:
            op['action'] = None
        pattern = draw(st.sampled_from(MESSAGES))
        n = clean_name(op['name'])
        shape['ops'].append({'in': pattern % n, 'out': n + draw(st.sampled_from(['Response', '.out', '-answer'])), 'parts': draw(st.lists(st.sampled_from(PARTS), min_size=2, max_size=2))})
    if same and len(svc['ops']) > 1:  # messages may be shared by operations
        a, b = svc['ops'][0], svc['ops'][1]
        b['in'], shape['ops'][1]['in'], shape['ops'][1]['parts'][0] = a['in'], shape['ops'][0]['in'], shape['ops'][0]['parts'][0]
        if draw(st.booleans()):
            b['oneway'] = False
            b['out'], shape['ops'][1]['out'], shape['ops'][1]['parts'][1] = b['in'], shape['ops'][1]['in'], shape['ops'][1]['parts'][0]
    shape['port_order'] = draw(st.permutations(range(len(svc['ops']))))
    shape['second'] = None
    if draw(st.integers(0, 3)) == 0:
        shape['second'] = {'port': draw(st.sampled_from([n for n in NAMES if n != shape['port']])), 'location': draw(st.sampled_from(LOCATIONS)), 'own': draw(st.booleans()), 'service': draw(st.booleans()),
                           'ops': draw(st.lists(st.integers(0, len(svc['ops']) - 1), min_size=1, max_size=4, unique=True))}
    parts = draw(st.permutations(HPARTS))
    shape['parts'] = [[f['tag'] if draw(st.booleans()) else parts[h * 3 + i] for i, f in enumerate(header['fields'])] for h, header in enumerate(svc['headers'])]
    if shape['split'] and draw(st.integers(0, 2)) == 0:  # parts of different messages may have the same name
        shape['parts'] = [[parts[0]] * len(ps) for ps in shape['parts']]
    # types of messages may be defined in place
    spec['inline'] = []
    if draw(st.booleans()):
        uses = {}
        for t in spec['types']:
            if t['base'] is not None:
                uses[t['base']] = 2
            for f in t['fields']:
                if f['kind'] != 'ref' and f['type']['k'] in 'cl':
                    uses[f['type']['i']] = 2
        for top in spec['tops']:
            if top['type']['k'] == 'c':
                uses[top['type']['i']] = 2
        for op in svc['ops']:
            for m in (op['in'], op['out']):
                if 'cls' in m:
                    uses[m['cls']] = 2
        for ti in spec['elements'].values():
            uses[ti] = uses.get(ti, 0) + 1
        spec['inline'] = [ti for tag, ti in spec['elements'].items() if uses[ti] == 1 and M.declared_in(spec, tag, ti) == spec['types'][ti]['s']]
    # elements of messages by type are not declared
    for op in svc['ops']:
        for m in (op['in'], op['out']):
            if 'cls' in m:
                spec['elements'].pop(S.class_tag(spec['types'][m['cls']]['name']), None)
    if draw(st.integers(0, 7)) == 0:  # types may be named like the classes of headers
        spec['prefix'][0], n = '', draw(st.sampled_from(shape['ops']))
        draw(st.sampled_from(spec['types']))['name'] = n[draw(st.sampled_from(['in', 'out']))] + draw(st.sampled_from(['Headers', 'OutputHeaders']))
    n = len(spec['schemas'])
    calls = []
    usable = [i for i, op in enumerate(svc['ops']) if not any(o['oneway'] for o in svc['ops']) and 'tag' in op['in'] and 'tag' in op['out']]
    for _ in range(draw(st.integers(1, 3)) if usable else 0):
        i = draw(st.sampled_from(usable))
        op = svc['ops'][i]
        c = {'op': i, 'v': draw(M.instances(spec, op['in']['ti'], O, full=True)), 'out': draw(M.instances(spec, op['out']['ti'], O, full=True)), 'h': None, 'oh': None}
        if op.get('inh') is not None and draw(st.integers(0, 3)):
            c['h'] = draw(S.header_values(svc, op['inh'], O))
        if op.get('outh') is not None and draw(st.integers(0, 3)):
            c['oh'] = draw(S.header_values(svc, op['outh'], O))
        calls.append(c)
    return {'svc': svc, 'wsa': draw(st.sampled_from([None, None, ['urn:do:', 'uuid:1']])), 'shape': shape, 'xs': draw(st.lists(st.sampled_from(['xs', 'xsd', 'default', 'target', 'local']), min_size=n, max_size=n)), 'schemas': draw(st.permutations(range(n))), 'calls': calls,
            'element': draw(st.booleans()), 'noise': draw(noise.noises), 'codec': draw(st.sampled_from(noise.CODECS))}


def type_name(svc):
    w = c10.writer(svc['spec'])
    return w.type_name


def document(case, external=False):
    """The WSDL document; external: the second schema is in a file of its own."""
    svc, spec = case['svc'], case['svc']['spec']
    w = c10.writer(spec)
    texts = []
    for s in range(len(spec['schemas'])):
        text = w.schema(s)
        if not external:
            text = text.replace(' schemaLocation="s%d.xsd"' % (s + 1), '')
        texts.append(c10.restyle(text, case['xs'][s], s))
    return refwsdl.Writer(svc, case['shape'], [texts[s] for s in case['schemas'] if s == 0 or not external], w.type_name).document()


def collide(svc, shape):
    """Names which coincide once they are Python names are outside the domain."""
    spec = svc['spec']
    w = c10.writer(spec)
    names = [c10.class_name(w.tprefix + t['name']) for i, t in enumerate(spec['types']) if i not in spec['inline']] + [c10.class_name(w.sprefix + t['name']) for t in spec['simple']]
    names += [c10.class_name(tag) for tag, ti in spec['elements'].items() if ti in spec['inline']]
    ops = [c10.class_name(op['name']).lower().strip('_') for op in svc['ops']]
    # (the name of an operation is changed if there is a class of that name)
    parts = [[c10.class_name(p).lower().strip('_') for p in ps] for ps in shape['parts']]
    messages = {n[k] for n in shape['ops'] for k in ('in', 'out')}
    by_name = {}
    for n, op in zip(shape['ops'], svc['ops']):
        for k in ('in', 'out'):
            if by_name.setdefault(n[k], op[k]) != op[k]:
                return True
    return len(set(names)) != len(names) or len(set(ops)) != len(ops) or any(len(set(p)) != len(p) for p in parts if not shape['split']) or len({c10.class_name(m) for m in messages}) != len(messages)


def views(case):
    """The case as seen through each port of the protocol."""
    yield case
    second = case['shape']['second']
    if second:
        shape, svc = dict(case['shape'], port=second['port'], second=None), dict(case['svc'], location=second['location'])
        if second['own']:
            svc['ops'] = [svc['ops'][k] for k in second['ops']]
            shape['ops'] = [shape['ops'][k] for k in second['ops']]
        yield dict(case, svc=svc, shape=shape, calls=[])


def judge_facts(case, g, n, number):
    """Everything the document says about the service is in the generated code."""
    from soapfish import py2wsdl, soap, xsd
    svc, shape, spec = case['svc'], case['shape'], case['svc']['spec']
    services = list({id(v): v for v in vars(g.module).values() if isinstance(v, soap.Service)}.values())
    if len(services) != number:
        raise Violation('%d services generated' % len(services))
    service = services[n]
    if CG.plain(shape['port']) and getattr(g.module, shape['port'] + '_SERVICE', None) is not service:
        raise Violation('the service is not named %s_SERVICE' % shape['port'])
    version = {'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[svc['version']]
    if (service.name, service.targetNamespace, service.version) != (shape['port'], svc['tns'], version):
        raise Violation('service %r %r %r' % (service.name, service.targetNamespace, service.version))
    if [m.operationName for m in service.methods] != [op['name'] for op in svc['ops']]:
        raise Violation('methods %r' % [m.operationName for m in service.methods])
    for s in service.schemas:
        if not isinstance(s, xsd.Schema):
            raise Violation('schemas %r' % service.schemas)
    if 'files' in case:
        known = list(service.schemas)
        for s in known:
            known += [x for x in (*s.imports, *s.includes) if not any(x is y for y in known)]
        if not set(spec['schemas']) <= {s.targetNamespace for s in known}:
            raise Violation('schemas of %r' % [s.targetNamespace for s in known])
    elif sorted(s.targetNamespace for s in service.schemas) != sorted(spec['schemas']):
        raise Violation('schemas of %r' % [s.targetNamespace for s in service.schemas])
    for m, op, names in zip(service.methods, svc['ops'], shape['ops']):
        if (m.soapAction or '') != (op['action'] or ''):
            raise Violation('action %r of %s' % (m.soapAction, op['name']))
        if m.style != 'document':
            raise Violation('style %r' % m.style)
        for way, got, part in (('in', m.input, m.inputPartName), ('out', m.output, m.outputPartName)):
            if way == 'out' and op['oneway']:
                if got is not None:
                    raise Violation('one-way operation returns %r' % got)
                continue
            want = op[way]
            if part != names['parts'][way == 'out']:
                raise Violation('part %r of %s' % (part, op['name']))
            if 'cls' in want:
                if not isinstance(got, type) or got.__name__ != c10.class_name(spec['prefix'][0] + spec['types'][want['cls']]['name']):
                    raise Violation('%s message of %s is %r' % (way, op['name'], got))
            else:
                if got != want['tag']:
                    raise Violation('%s message of %s is %r' % (way, op['name'], got))
                element = service.find_element_by_name(got)
                ns = spec['schemas'][S.element_schema(svc, got)]
                if element is None or element.namespace != ns:
                    raise Violation('element %s is %r of %r' % (got, element, element and element.namespace))
        for got, want in ((m.input_header, op.get('inh')), (m.output_header, None if op['oneway'] else op.get('outh'))):
            if (got is None) != (want is None):
                raise Violation('header of %s is %r' % (op['name'], got))
            if got is not None:
                if not issubclass(got, xsd.ComplexType):
                    raise Violation('header is %r' % got)
                for part in shape['parts'][want]:
                    if CG.plain(part) and not hasattr(got, part):
                        raise Violation('header class %s has no %s' % (got.__name__, part))
    return service


def judge_server(case, g, service, number):
    spec = case['svc']['spec']
    classes = [c10.class_name(spec['prefix'][0] + t['name']) for t in spec['types']] + [c10.class_name(spec['prefix'][1] + t['name']) for t in spec['simple']]
    for m, op in zip(service.methods, case['svc']['ops']):
        if not inspect.isfunction(m.function):
            raise Violation('function of %s is %r' % (op['name'], m.function))
        if len(inspect.signature(m.function).parameters) != 2:
            raise Violation('function of %s is called with %s' % (op['name'], inspect.signature(m.function)))
        if number == 1 and usual(op['name']) and op['name'] not in classes and getattr(g.module, op['name'], None) is not m.function:
            raise Violation('function %s is another one' % op['name'])


RESERVED = {'soap', 'xsd', 'wsa', 'BaseHeader', 'request', 'self', 'header', 'None'}


def usual(name):
    from soapfish import soap
    return CG.plain(name) and name not in RESERVED and not hasattr(soap.Stub, name) and name not in ('username', 'password', 'service', 'location')


def judge_client(case, g, service, n, number):
    from soapfish import soap
    svc, shape = case['svc'], case['shape']
    stubs = [v for v in vars(g.module).values() if isinstance(v, type) and issubclass(v, soap.Stub)]
    if len(stubs) != number:
        raise Violation('%d stubs' % len(stubs))
    stubs = stubs[n:]
    if CG.plain(shape['port']) and getattr(g.module, shape['port'] + 'ServiceStub', None) is not stubs[0]:
        raise Violation('the stub is not named %sServiceStub' % shape['port'])
    stub = stubs[0]()
    if stub.service is not service or stub.location != svc['location']:
        raise Violation('stub for %r at %r' % (stub.service, stub.location))
    other = stubs[0](username='u', password='p', location='http://other.example/')
    if (other.username, other.password, other.location) != ('u', 'p', 'http://other.example/'):
        raise Violation('the stub cannot be configured')
    for op in svc['ops']:
        if usual(op['name']) and not inspect.isfunction(getattr(stubs[0], op['name'], None)):
            raise Violation('the stub has no method %s' % op['name'])
    return stub


def judge_wsdl(case, service):
    """A WSDL document generated from the service says the same."""
    from soapfish import py2wsdl
    svc, spec = case['svc'], case['svc']['spec']
    if any(op['oneway'] or 'cls' in op['in'] or 'cls' in op['out'] or op['action'] is None for op in svc['ops']):
        return
    again = describe(etree.fromstring(etree.tostring(py2wsdl.generate_wsdl(service))))
    port = again['services'][0]['ports'][0]

    def element(tag):
        return ('element', '{%s}%s' % (spec['schemas'][S.element_schema(svc, tag)], tag))
    keep = 3 if 'files' in case else 4  # elements may be declared in other files
    got = [(o['name'], o['action'], o['style'], *(p[:keep] for p in o['input'] + o['output'])) for o in port['ops']]
    want = [(op['name'], op['action'], 'document', (names['parts'][0], *element(op['in']['tag'])), (names['parts'][1], *element(op['out']['tag']))) for op, names in zip(svc['ops'], case['shape']['ops'])]
    if (again['version'], again['tns'], len(again['services']), len(again['services'][0]['ports'])) != (svc['version'], svc['tns'], 1, 1) or got != want:
        raise Violation('generated WSDL says %r\nexpected %r' % (again, want))


def class_of(service, message):
    return service.find_element_by_name(message)._type.__class__ if isinstance(message, str) else message


def header_object(svc, cls, h, v):
    holder = M.Node('x')
    holder.kids = S.header_nodes(svc, h, v)
    return cls.parse_xmlelement(etree.fromstring(M.write_node(holder)))


def compare(nodes, elements, what, content):
    by = lambda tag: tag  # noqa: E731
    nodes, elements = sorted(nodes, key=lambda n: by(n.tag)), sorted(elements, key=lambda e: by(e.tag))
    if [n.tag for n in nodes] != [e.tag for e in elements]:
        raise Violation('%s holds %r, expected %r\n%s' % (what, [e.tag for e in elements], [n.tag for n in nodes], content))
    for n, e in zip(nodes, elements):
        d = M.node_diff(n, e)
        if d:
            raise Violation('%s: %s\n%s' % (what, d, content))


def addressing(obj, case, what):
    """Generated headers are those of WS-Addressing too, if asked for."""
    if obj is not None and case.get('wsa'):
        obj.Action, obj.MessageID = case['wsa'][0] + what, case['wsa'][1]
    return obj


def judge_addressing(case, obj, v, what):
    if v is not None and case.get('wsa') and (obj.Action, obj.MessageID) != (case['wsa'][0] + what, case['wsa'][1]):
        raise Violation('addressing header of the %s: %r' % (what, (obj.Action, obj.MessageID)))


def without_addressing(blocks):
    return [b for b in blocks if not b.tag.startswith('{%s}' % S.WSA)]


def judge_envelope(svc, content, tag, ti, v, h, hv, what):
    header, body = S.read_envelope(svc['version'], content)
    header = without_addressing(header or [])
    text = content.decode()
    compare([S.body_node(svc, tag, ti, M.reread(v))], body, what, text)
    compare(S.header_nodes(svc, h, M.reread(hv)) if hv is not None else [], header, what + ' header', text)


def judge_object(svc, obj, tag, ti, v, what):
    spec = svc['spec']
    ns = spec['schemas'][S.element_schema(svc, tag)]
    xml = obj.xml(tag, namespace=ns, elementFormDefault=spec['efd'])
    compare([S.body_node(svc, tag, ti, M.reread(v))], [ET.fromstring(xml)], what, xml)


def judge_header(case, obj, h, v, what):
    svc = case['svc']
    if v is None:
        if obj is not None and any(getattr(obj, f._name) is not None for f in obj._meta.fields):
            raise Violation('%s was not sent: %r' % (what, obj))
        return
    if obj is None:
        raise Violation('%s is missing' % what)
    xml = obj.xml('head', namespace=svc['spec']['schemas'][0], elementFormDefault=svc['spec']['efd'])
    blocks = [b for b in ET.fromstring(xml) if not case.get('wsa') or b.tag.split('}')[-1] not in ('Action', 'MessageID')]
    for block in blocks:  # whether the blocks are qualified depends on the envelope
        block.tag = M.q(svc['spec']['schemas'][0], block.tag.split('}')[-1])
    compare(S.header_nodes(svc, h, M.reread(v)), blocks, what, xml)


def check_calls(case, client, stub, server):
    from soapfish.core import SOAPResponse
    from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
    svc = case['svc']
    log, current = [], [None]

    def handler(i):
        op = svc['ops'][i]
        method = server.get_method(op['name'])

        def handle(request, body):
            log.append((i, request.soap_header, body))
            c = current[0]
            out = class_of(server, method.output).parsexml(M.write_node(S.body_node(svc, op['out']['tag'], op['out']['ti'], c['out'])))
            if c['oh'] is None:
                return out
            return SOAPResponse(out, soap_header=addressing(header_object(svc, method.output_header, op['outh'], c['oh']), case, 'response'))
        return handle
    for i, op in enumerate(svc['ops']):
        server.route(op['name'])(handler(i))
    app = WsgiSoapApplication(SOAPDispatcher(server))

    def answer(sent):
        exchange.append(sent)
        status, headers, content = S.run_wsgi(app, S.wsgi_environ(sent), sent.body)
        exchange.append((status, content))
        return int(status.split()[0]), headers, content
    done = 0
    for c in case['calls']:
        op = svc['ops'][c['op']]
        if sum(o['in'] == op['in'] and (o['action'] or '') == (op['action'] or '') for o in svc['ops']) > 1:
            continue  # operations which look alike on the wire
        if not op['action'] and sum(o['in'] == op['in'] for o in svc['ops']) > 1:
            continue
        current[0] = c
        exchange = []
        del log[:]
        method = client.get_method(op['name'])
        obj = class_of(client, method.input).parsexml(M.write_node(S.body_node(svc, op['in']['tag'], op['in']['ti'], c['v'])))
        kw = {} if c['h'] is None else {'header': addressing(header_object(svc, method.input_header, op['inh'], c['h']), case, 'request')}
        with S.network(answer):
            got = getattr(stub, op['name'])(obj, **kw) if usual(op['name']) else stub.call(op['name'], obj, **kw)
        sent, (status, content) = exchange
        judge_envelope(svc, sent.body, op['in']['tag'], op['in']['ti'], c['v'], op.get('inh'), c['h'], 'request')
        if status.split()[0] != '200' or [x[0] for x in log] != [c['op']]:
            raise Violation('call of %s: %s, handled by %r' % (op['name'], status, [svc['ops'][x[0]]['name'] for x in log]))
        judge_object(svc, log[0][2], op['in']['tag'], op['in']['ti'], c['v'], 'what the handler got')
        judge_header(case, log[0][1], op.get('inh'), c['h'], 'the header the handler got')
        judge_addressing(case, log[0][1], c['h'], 'request')
        judge_addressing(case, got.soap_header, c['oh'], 'response')
        judge_envelope(svc, content, op['out']['tag'], op['out']['ti'], c['out'], op.get('outh'), c['oh'], 'response')
        judge_object(svc, got.soap_body, op['out']['tag'], op['out']['ti'], c['out'], 'what the caller got')
        judge_header(case, got.soap_header, op.get('outh'), c['oh'], 'the header the caller got')
        done += 1
    return done


def prepare(case):
    """Rejects cases outside the domain."""
    svc, spec = case['svc'], case['svc']['spec']
    if collide(svc, case['shape']):
        raise Reject
    try:
        ref = refxsd.xml_schema(spec, c10.writer(spec))
    except etree.XMLSchemaParseError as e:
        raise HarnessError('reference schema: %s' % e)
    for c in case['calls']:
        op = svc['ops'][c['op']]
        for tag, ti, v in ((op['in']['tag'], op['in']['ti'], c['v']), (op['out']['tag'], op['out']['ti'], c['out'])):
            if not ref.validate(etree.fromstring(M.write_node(S.body_node(svc, tag, ti, v)))):
                raise HarnessError('reference document: %s' % ref.error_log)


def check(case):
    from soapfish import wsdl2py
    prepare(case)
    xml = noise.add(document(case), case['noise'])
    code = {}
    for target in ('client', 'server'):
        code[target] = wsdl2py.generate_code_from_wsdl(etree.fromstring(xml) if case['element'] else noise.encode(xml, case['codec']), target, use_wsa=bool(case.get('wsa')), cwd='/nonexistent')
    return judge(case, code, xml)


def judge(case, code, xml):
    """Do client and server do what the document says?"""
    try:
        with Generated(code['client']) as g, Generated(code['server']) as h:
            todo = list(views(case))
            made = 0
            for n, view in enumerate(todo):
                client = judge_facts(view, g, n, len(todo))
                stub = judge_client(view, g, client, n, len(todo))
                server = judge_facts(view, h, n, len(todo))
                judge_server(view, h, server, len(todo))
                judge_wsdl(view, client)
                judge_wsdl(view, server)
                made += check_calls(view, client, stub, server) if view['calls'] else 0
            return made > 0
    except Violation as e:
        raise Violation('%s\n%s\n%s' % (e, xml, code['client'].decode()))
    except Exception as e:
        raise Violation('%r\n%s\n%s' % (e, xml, code['server'].decode())) from e


# --- WSDL documents of this library ---------------------------------------------------------------------------
@st.composite
def own_cases(draw):
    svc = draw(S.services(O, max_ops=4, subst=False, headers=False, classes=False, specs=c10.specs))
    svc['all'] = True
    svc['spec']['inline'] = []
    svc['spec']['prefix'] = ['', '']
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(svc['ops']) - 1))
        op = svc['ops'][i]
        calls.append({'op': i, 'v': draw(M.instances(svc['spec'], op['in']['ti'], O, full=True)), 'out': draw(M.instances(svc['spec'], op['out']['ti'], O, full=True)), 'h': None, 'oh': None})
    for op in svc['ops']:
        op['oneway'] = False
    return {'svc': svc, 'calls': calls}


def check_own(case):
    from soapfish import py2wsdl, soap, wsdl2py
    svc, spec = case['svc'], case['svc']['spec']
    names = [c10.class_name(t['name']) for t in spec['types']] + [c10.class_name(t['name']) for t in spec['simple']]
    if len(set(names)) != len(names):
        raise Reject
    b = S.build(svc)
    try:
        xml = etree.tostring(py2wsdl.generate_wsdl(b.service))
        code = wsdl2py.generate_code_from_wsdl(xml, 'client')
        try:
            with Generated(code) as g:
                stubs = [v for v in vars(g.module).values() if isinstance(v, type) and issubclass(v, soap.Stub)]
                if len(stubs) != 1:
                    raise Violation('%d stubs' % len(stubs))
                stub = stubs[0](location='http://svc.example/ws')
                client = stub.service
                got = [(m.operationName, m.soapAction, m.input, m.output, m.inputPartName, m.outputPartName) for m in client.methods]
                want = [(m.operationName, m.soapAction, m.input, m.output, m.inputPartName, m.outputPartName) for m in b.methods]
                if got != want or (client.targetNamespace, client.version) != (b.service.targetNamespace, b.service.version):
                    raise Violation('methods %r, expected %r' % (got, want))
                again = etree.tostring(py2wsdl.generate_wsdl(client))
                one, two = describe(etree.fromstring(xml)), describe(etree.fromstring(again))
                one, two = [[(p['style'], p['ops']) for s in x['services'] for p in s['ports']] for x in (one, two)]
                if one != two:
                    raise Violation('WSDL of the generated service %r, of the original %r' % (two, one))
                return check_calls(case, client, stub, b.service) > 0
        except Violation as e:
            raise Violation('%s\n%s\n%s' % (e, xml.decode(), code.decode()))
        except Exception as e:
            raise Violation('%r\n%s\n%s' % (e, xml.decode(), code.decode())) from e
    finally:
        S.dispose(b)


SUBS = [
    Sub('implements', cases, check, quick=900, thorough=20000, shards=8,
        rule='random WSDL document x calls between the generated client and server; non-trivial when a call was made'),
    Sub('own', own_cases, check_own, quick=600, thorough=15000, shards=8,
        rule='random service, its generated WSDL, the client generated from that x calls to the service; non-trivial when a call was made'),
]
