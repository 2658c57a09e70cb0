"""C26: XML which is received is never a means to read anything else."""
import contextlib
import os
import pickle
import shutil
import socket
import tempfile
import threading

from hypothesis import strategies as st

from harness import services as S
from harness.core import Sub, Violation

TECHNIQUE = 'property-based testing: random documents which refer to other resources by every means of XML, metamorphic: the outcome is the same whatever those resources hold, none is asked for over HTTP'
NOTE = 'Files lie in a scratch directory, HTTP goes to a listener on the loopback interface. Requests, responses, instance documents, schemas and WSDL documents; references by include and import of schemas are what they are for (C12).'

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
SURFACES = ['parse', 'parse-bytes', 'parse-schema', 'request', 'request', 'header', 'wsgi', 'response', 'fault', 'xsd', 'wsdl', 'schema-model', 'document']
MEANS = ['entity', 'entity', 'nested', 'parameter', 'dtd', 'dtd-attribute', 'xinclude', 'xinclude-xml', 'xsi', 'xsi-none', 'stylesheet', 'catalog', 'public']
FORMS = ['path', 'file', 'relative', 'http', 'base', 'localhost']


# --- resources -----------------------------------------------------------------------------------------
class Listener:
    """Answers every HTTP request with the content and counts them."""

    def __init__(self):
        self.socket = socket.socket()
        self.socket.bind(('127.0.0.1', 0))
        self.socket.listen(16)
        self.port = self.socket.getsockname()[1]
        self.hits, self.content = [], b''
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            try:
                connection, _ = self.socket.accept()
            except OSError:
                return
            with connection:
                connection.settimeout(2)
                with contextlib.suppress(OSError):
                    self.hits.append(connection.recv(4096)[:80])
                    connection.sendall(b'HTTP/1.0 200 OK\r\nContent-Type: application/xml\r\nContent-Length: %d\r\n\r\n' % len(self.content) + self.content)


_listener = {}


def listener():
    if os.getpid() not in _listener:  # one per process
        _listener.clear()
        _listener[os.getpid()] = Listener()
    return _listener[os.getpid()]


def contents(means, word):
    """What the other resource holds."""
    if means in ('parameter', 'dtd', 'catalog', 'public'):
        return '<!ENTITY ext "%s">' % word
    if means == 'dtd-attribute':
        return '<!ATTLIST item note CDATA "%s"><!ATTLIST Item note CDATA "%s"><!ENTITY ext "%s">' % (word, word, word)
    if means == 'xinclude-xml':
        return '<text xmlns="urn:c26">%s</text>' % word
    if means in ('xsi', 'xsi-none'):
        kind = 'int' if word == 'alpha' else 'string'
        ns = '' if means == 'xsi-none' else ' targetNamespace="urn:other"'
        return '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"%s><xs:element name="other" type="xs:%s"/></xs:schema>' % (ns, kind)
    return word


def address(form, directory):
    name = 'secret.txt'
    return {'path': '%s/%s' % (directory, name), 'file': 'file://%s/%s' % (directory, name), 'localhost': 'file://localhost%s/%s' % (directory, name), 'relative': name, 'base': name,
            'http': 'http://127.0.0.1:%d/%s' % (listener().port, name)}[form]


def doctype(means, root, url, inner):
    """The document type declaration: inner are declarations of entities within the document."""
    decl = ''.join('<!ENTITY %s "%s">' % i for i in inner)
    if means == 'entity':
        return '<!DOCTYPE %s [%s<!ENTITY ext SYSTEM "%s">]>' % (root, decl, url)
    if means == 'public':
        return '<!DOCTYPE %s PUBLIC "-//X//Y" "%s" [%s]>' % (root, url, decl)
    if means == 'nested':
        return '<!DOCTYPE %s [%s<!ENTITY real SYSTEM "%s"><!ENTITY ext "a&real;b">]>' % (root, decl, url)
    if means == 'parameter':
        return '<!DOCTYPE %s [%s<!ENTITY %% p SYSTEM "%s">%%p;]>' % (root, decl, url)
    if means in ('dtd', 'dtd-attribute'):
        return '<!DOCTYPE %s SYSTEM "%s" [%s]>' % (root, url, decl)
    if means == 'catalog':
        return '<?oasis-xml-catalog catalog="%s"?><!DOCTYPE %s PUBLIC "urn:x" "%s" [%s]>' % (url, root, url, decl)
    if means == 'stylesheet':
        return '<?xml-stylesheet type="text/xsl" href="%s"?>' % url + ('<!DOCTYPE %s [%s]>' % (root, decl) if decl else '')
    return '<!DOCTYPE %s [%s]>' % (root, decl) if decl else ''


def item(case, url, tag='item'):
    """The element with the values."""
    means, extra = case['means'], ''
    text = case['text']
    if case['inner']:
        text += '&in0;'
    if means in ('xsi', 'xsi-none'):
        extra = ' xmlns:xsi="%s" xsi:%s="%s%s"' % (XSI, 'noNamespaceSchemaLocation' if means == 'xsi-none' else 'schemaLocation', '' if means == 'xsi-none' else 'urn:other ', url)
        if case['other']:
            extra += ' xmlns:o="urn:other"'
    elif means.startswith('xinclude'):
        inc = '<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="%s"%s/>' % (url, '' if means == 'xinclude-xml' else ' parse="text"')
        if means == 'xinclude-xml':
            return '<%s xmlns="urn:c26">%s</%s>' % (tag, inc, tag) if case['other'] else '<%s xmlns="urn:c26"><text>%s</text>%s</%s>' % (tag, text, inc, tag)
        text += inc
    elif case['use'] and means != 'stylesheet':
        text += '&ext;'
    return '<%s xmlns="urn:c26"%s><text>%s</text>%s</%s>' % (tag, extra, text, '<o:other>x</o:other>' if means == 'xsi' and case['other'] else '', tag)


# --- the library under test ----------------------------------------------------------------------------
class World:
    def __init__(self, version):
        from soapfish import soap, xsd
        from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication

        class Item(xsd.ComplexType):
            INDICATOR = xsd.Sequence
            text = xsd.Element(xsd.String, minOccurs=0)
            note = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

        class Head(xsd.ComplexType):
            item = xsd.Element(Item, minOccurs=0)
        self.Item = Item

        class Doc(xsd.Document):
            NAMESPACE = 'urn:c26'
            item = xsd.Element(Item)
        self.Doc = Doc
        self.schema = xsd.Schema('urn:c26', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[Item], elements={'item': xsd.Element(Item)})
        Head.SCHEMA = self.schema
        self.seen = []
        head = lambda h: None if h is None else (h.item and (h.item.text, h.item.note))  # noqa: E731

        def echo(request, body):
            self.seen.append((body.text, body.note, head(request.soap_header)))
            return Item(text=body.text)
        self.head = head
        self.version = version
        self.service = soap.Service(name='S', targetNamespace='urn:s', location='http://svc.example/', schemas=[self.schema], input_header=Head, output_header=Head,
                                    version={'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[version],
                                    methods=[xsd.Method(function=echo, soapAction='urn:echo', input='item', output='item', operationName='echo')])
        self.dispatcher = SOAPDispatcher(self.service)
        self.app = WsgiSoapApplication(self.dispatcher)


_worlds = {}


def world(version):
    if version not in _worlds:
        _worlds[version] = World(version)
    return _worlds[version]


def envelope(version, body, header=''):
    ns = S.ENVELOPE[version]
    return '<e:Envelope xmlns:e="%s">%s<e:Body>%s</e:Body></e:Envelope>' % (ns, '<e:Header>%s</e:Header>' % header if header else '', body)


def fault(version, text):
    if version == '11':
        return '<e:Fault><faultcode>Server</faultcode><faultstring>%s</faultstring></e:Fault>' % text
    return '<e:Fault><e:Code><e:Value>e:Receiver</e:Value></e:Code><e:Reason><e:Text xml:lang="en">%s</e:Text></e:Reason></e:Fault>' % text


def document(case, url):
    surface, version = case['surface'], case['version']
    el = item(case, url)
    reference = ('&ext;' if case['use'] and 'xinclude' not in case['means'] and case['means'] not in ('xsi', 'xsi-none', 'stylesheet') else '') + ('&in0;' if case['inner'] else '')
    if surface in ('parse', 'parse-bytes', 'parse-schema', 'document'):
        root, text = 'item', el
    elif surface in ('request', 'wsgi', 'response'):
        root, text = 'e:Envelope', envelope(version, el)
    elif surface == 'header':
        root, text = 'e:Envelope', envelope(version, '<item xmlns="urn:c26"/>', el)
    elif surface == 'fault':
        root, text = 'e:Envelope', envelope(version, fault(version, case['text'] + reference))
    else:
        xsd = '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:x"><xs:simpleType name="T"><xs:annotation><xs:documentation>%s</xs:documentation></xs:annotation><xs:restriction base="xs:string"><xs:pattern value="a"/></xs:restriction></xs:simpleType></xs:schema>' % (case['text'] + reference)
        root, text = 'xs:schema', xsd
        if surface == 'wsdl':
            root, text = 'd:definitions', '<d:definitions xmlns:d="http://schemas.xmlsoap.org/wsdl/" targetNamespace="urn:w"><d:types>%s</d:types><d:message name="m"><d:documentation>%s</d:documentation></d:message></d:definitions>' % (xsd, reference)
    if case['form'] == 'base':
        text = text.replace(' xmlns', ' xml:base="file://%s/" xmlns' % case['directory'], 1)
    return doctype(case['means'], root, url, [('in%d' % i, t) for i, t in enumerate(case['inner'])]) + text


def outcome(case, w, xml):
    """Everything which can be observed: values, messages of errors, answers."""
    from soapfish import wsdl2py, xsd2py, xsdspec
    from soapfish.core import SOAPRequest
    surface = case['surface']
    del w.seen[:]
    try:
        if surface in ('parse', 'parse-bytes', 'parse-schema'):
            kw = {'schema': w.schema} if surface == 'parse-schema' else {}
            x = w.Item.parsexml(xml if surface == 'parse' else xml.encode(), **kw)
            return 'value', x.text, x.note
        if surface == 'document':
            x = w.Doc.parsexml(xml).item
            return 'value', x.text, x.note
        if surface in ('request', 'header'):
            r = w.dispatcher.dispatch(SOAPRequest(S.request_environ(w.version, 'urn:echo'), xml.encode()))
            return 'response', r.http_status_code, r.http_content, list(w.seen)
        if surface == 'wsgi':
            env = dict(S.request_environ(w.version, 'urn:echo'), PATH_INFO='/', SCRIPT_NAME='', CONTENT_LENGTH=str(len(xml.encode())))
            return 'response', S.run_wsgi(w.app, env, xml.encode()), list(w.seen)
        if surface in ('response', 'fault'):
            from soapfish import soap

            class Stub(soap.Stub):
                SERVICE = w.service
            with S.network(lambda sent: (500 if surface == 'fault' else 200, {'Content-Type': S.CONTENT_TYPE[w.version]}, xml.encode())):
                r = Stub().call('echo', w.Item(text='x'))
            return 'value', r.soap_body.text, r.soap_body.note, w.head(r.soap_header)
        if surface == 'schema-model':
            return 'value', xsdspec.Schema.parsexml(xml).xml('schema', namespace='http://www.w3.org/2001/XMLSchema')
        lines = (xsd2py.generate_code_from_xsd(xml.encode(), cwd=case['directory']) if surface == 'xsd' else wsdl2py.generate_code_from_wsdl(xml.encode(), 'client', cwd=case['directory'])).decode()
        return 'code', [line for line in lines.splitlines() if 'Generated by' not in line]
    except Exception as e:  # refused
        return 'error', type(e).__name__, str(e)


def apart(case, w, xml):
    """The outcome found by another process: validation while parsing could end it."""
    r, out = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(out, 'wb') as f:
                pickle.dump(outcome(case, w, xml), f)
        finally:
            os._exit(0)
    os.close(out)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation('the process ended with status %d\n%s' % (status, xml))
    return pickle.loads(data)


def observe(case, w, xml):
    return (apart if case['surface'] == 'parse-schema' else outcome)(case, w, xml)


@st.composite
def cases(draw):
    return {'surface': draw(st.sampled_from(SURFACES)), 'version': draw(st.sampled_from(['11', '12'])), 'means': draw(st.sampled_from(MEANS)), 'form': draw(st.sampled_from(FORMS)),
            'use': draw(st.integers(0, 3)) > 0, 'other': draw(st.booleans()), 'text': draw(st.sampled_from(['', 'plain', 'x y'])), 'inner': draw(st.lists(st.sampled_from(['one', 'two words']), max_size=2))}


def check(case):
    w = world(case['version'])
    directory = tempfile.mkdtemp(prefix='c26-')
    before = os.getcwd()
    try:
        os.chdir(directory)
        case = dict(case, directory=directory)
        url = address(case['form'], directory)
        xml = document(case, url)
        ear = listener()
        del ear.hits[:]
        results = []
        for word in ('alpha', 'omega', None):
            path = os.path.join(directory, 'secret.txt')
            if word is None:
                os.unlink(path)
                ear.content = b''
            else:
                with open(path, 'w') as f:
                    f.write(contents(case['means'], word))
                ear.content = contents(case['means'], word).encode()
            results.append(observe(case, w, xml))
            if word and word in repr(results[-1]):
                raise Violation('the content of %s came out: %r\n%s' % (url, results[-1], xml))
        if results[0] != results[1]:
            raise Violation('the outcome depends on %s: %r, %r\n%s' % (url, results[0], results[1], xml))
        if results[0] != results[2]:
            raise Violation('the outcome depends on whether there is %s: %r, %r\n%s' % (url, results[0], results[2], xml))
        if ear.hits:
            raise Violation('%s was asked for: %r\n%s' % (url, ear.hits, xml))
        return case['use'] or case['means'].startswith('x')
    finally:
        os.chdir(before)
        shutil.rmtree(directory)


# --- entities of the document itself -------------------------------------------------------------------
@st.composite
def entity_cases(draw):
    """Entities which are made of the text and of the entities before."""
    n = draw(st.integers(1, 4))
    texts = []
    for i in range(n):
        texts.append(draw(st.lists(st.one_of(st.sampled_from(['a', ' b ', 'é', '&#38;amp;', '&#65;']), st.integers(0, i - 1) if i else st.just('c')), max_size=3)))
    return {'surface': draw(st.sampled_from(['parse', 'parse-bytes', 'parse-schema', 'request', 'response', 'document'])), 'version': draw(st.sampled_from(['11', '12'])), 'texts': texts,
            'content': draw(st.lists(st.one_of(st.sampled_from(['x', ' ', 'é']), st.integers(0, n - 1)), min_size=1, max_size=4)), 'attribute': draw(st.booleans())}


PLAIN = {'&#38;amp;': '&', '&#65;': 'A'}


def check_entities(case):
    """They are read as the text they stand for, or refused."""
    w = world(case['version'])
    values = []
    for parts in case['texts']:
        values.append(''.join(values[p] if isinstance(p, int) else PLAIN.get(p, p) for p in parts))
    write = lambda parts: ''.join('&n%d;' % p if isinstance(p, int) else p for p in parts)  # noqa: E731
    want = ''.join(values[p] if isinstance(p, int) else p for p in case['content'])
    el = '<item xmlns="urn:c26"%s><text>%s</text></item>' % (' note="%s"' % write(case['content']) if case['attribute'] else '', write(case['content']))
    root, text = ('item', el) if case['surface'].startswith('parse') or case['surface'] == 'document' else ('e:Envelope', envelope(case['version'], el))
    xml = '<!DOCTYPE %s [%s]>' % (root, ''.join('<!ENTITY n%d "%s">' % (i, write(parts)) for i, parts in enumerate(case['texts']))) + text
    got = observe(case, w, xml)
    read = got[1:3] if got[0] == 'value' else got[3][0][:2] if got[0] == 'response' and got[3] else None
    if read is None:
        if got[0] == 'response' and got[1] != 500:
            raise Violation('neither read nor refused: %r\n%s' % (got, xml))
        return False
    if (read[0] or '') != want or read[1] != (want if case['attribute'] else None):
        raise Violation('read %r instead of %r\n%s' % (read, want, xml))
    return any(isinstance(p, int) for p in case['content'])


# --- bombs ---------------------------------------------------------------------------------------------
@st.composite
def bomb_cases(draw):
    return {'surface': draw(st.sampled_from(['parse', 'parse-bytes', 'parse-schema', 'request', 'wsgi', 'response', 'xsd', 'wsdl'])), 'version': draw(st.sampled_from(['11', '12'])),
            'wide': draw(st.integers(8, 40)), 'seed': draw(st.integers(1, 60)), 'attribute': draw(st.booleans())}


LIMIT = 24 << 20


def check_bomb(case):
    """A short document does not grow to tens of megabytes."""
    w = world(case['version'])
    size, entities = case['seed'], ['z' * case['seed']]
    while size < LIMIT:
        entities.append('&n%d;' % (len(entities) - 1) * case['wide'])
        size *= case['wide']
    last = '&n%d;' % (len(entities) - 1)
    if case['surface'] in ('xsd', 'wsdl'):
        xml = document(dict(case, means='none', text=last, use=False, other=False, inner=[], form='path', directory='/nonexistent'), '')
    else:
        el = '<item xmlns="urn:c26"%s><text>%s</text></item>' % (' note="%s"' % last if case['attribute'] else '', '' if case['attribute'] else last)
        xml = el if case['surface'].startswith('parse') else envelope(case['version'], el)
    root = xml[1:].split()[0]
    xml = '<!DOCTYPE %s [%s]>' % (root, ''.join('<!ENTITY n%d "%s">' % e for e in enumerate(entities))) + xml
    got = observe(dict(case, directory='/nonexistent'), w, xml)
    if len(repr(got)) > 1 << 20 or got[0] == 'value' or w.seen:
        raise Violation('%d bytes became %d\n%s' % (len(xml), len(repr(got)), xml[:600]))
    return True


SUBS = [
    Sub('outside', cases, check, quick=2000, thorough=50000, shards=4,
        rule='documents referring to files or HTTP resources by entities, DTDs, XInclude, schema locations and processing instructions; non-trivial when the reference is used'),
    Sub('entities', entity_cases, check_entities, quick=1200, thorough=20000, shards=2, rule='entities declared in the document itself; non-trivial when one is used and read'),
    Sub('bombs', bomb_cases, check_bomb, quick=120, thorough=1500, shards=1, rule='nested entities which expand to more than 24 MB'),
]
