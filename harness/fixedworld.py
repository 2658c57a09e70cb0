"""A few fixed services, and an alphabet of requests to their dispatchers, for long histories (C21)."""
from lxml import etree

from . import services as S

ONE, TWO = 'urn:fw:one', 'urn:fw:two'
VARIANTS = [{'version': v, 'twin': t, 'svc': h, 'mw': m, 'strict': s} for v in ('11', '12') for t in ('same', 'copy', 'other') for h in (False, True) for m in (0, 1, 2, 3) for s in (True, False)]


class Boom(Exception):
    pass


def seen(x):
    from soapfish import xsd
    if x is xsd.NIL:
        return 'NIL'
    meta = getattr(type(x), '_meta', None)
    if meta is not None and hasattr(meta, 'all'):
        return [type(x).__name__, [[f._name, seen(getattr(x, f._name))] for f in meta.all]]
    if isinstance(x, (list, tuple)):
        return [seen(i) for i in x]
    return [type(x).__name__, repr(x)]


def service(variant, second, log):
    """The second service may be another one in which the same names mean something else."""
    from soapfish import soap, xsd
    from soapfish.core import SOAPError, SOAPResponse
    other = second and variant['twin'] == 'other'

    class Text(xsd.ComplexType):
        lang = xsd.Attribute(xsd.String(maxLength=1 if other else 3), use=xsd.Use.OPTIONAL)
        text = xsd.Element(xsd.String, minOccurs=0, nillable=not other)
        n = xsd.Element(xsd.Int if not other else xsd.String(pattern='[0-4]'), minOccurs=0)

    class Pair(xsd.ComplexType):
        item = xsd.ListElement(xsd.Int, 'item', minOccurs=0, maxOccurs=3, nillable=True)
        inner = xsd.Element(Text, minOccurs=0)

    class Far(xsd.ComplexType):
        x = xsd.Element(xsd.String, minOccurs=0)
        y = xsd.Element(xsd.String, minOccurs=0)

    far = xsd.Schema(TWO, location='far.xsd', elementFormDefault=xsd.ElementFormDefault.UNQUALIFIED, complexTypes=[Far], elements={'far': xsd.Element(Far), 'distant': xsd.Element(Far)})
    elements = {n: xsd.Element(Text) for n in ('a', 'c', 'd', 'ra', 'token', 'note')}
    elements.update({n: xsd.Element(Pair) for n in ('b', 'rb', 'pair', 'trace')})
    elements['d2'] = xsd.Element(Text, substitutionGroup='d')
    schema = xsd.Schema(ONE, location='one.xsd', imports=[far], elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[Text, Pair], elements=elements)
    for t in (Text, Pair):
        t.SCHEMA = schema
    Far.SCHEMA = far

    class HeadA(xsd.ComplexType):
        SCHEMA = schema
        token = xsd.Element(Text, minOccurs=0, namespace=ONE)

    class HeadB(xsd.ComplexType):
        SCHEMA = schema
        trace = xsd.Element(Pair, minOccurs=0, namespace=ONE)
        token = xsd.Element(Text, minOccurs=0, namespace=ONE)

    class HeadS(xsd.ComplexType):
        SCHEMA = schema
        note = xsd.Element(Text, minOccurs=0, namespace=ONE)
        trace = xsd.Element(Pair, minOccurs=0, namespace=ONE)

    shared_error = SOAPError('Server', 'always the same')
    shared_texts = Text(text='always'), Pair(inner=Text(text='always'), item=[1])

    def answer(i, request, body):
        log.append(['handler', i, request.method.operationName, seen(body), seen(request.soap_body), seen(request.soap_header)])
        text = getattr(body, 'text', None) or getattr(getattr(body, 'inner', None), 'text', None) or getattr(body, 'x', None)
        if text == 'fault':
            raise SOAPError('Server', 'fault of %d' % i)
        if text == 'shared-fault':
            raise shared_error
        if text == 'shared-answer':
            return SOAPResponse(shared_error)
        if text == 'answer':
            return SOAPResponse(SOAPError('Server', 'answered by %d' % i), soap_header=HeadB(token=Text(text='f%d' % i)), http_headers={'X-Fault': str(i)})
        if text == 'boom':
            raise Boom(str(i))
        if text == 'mutate':
            for f in type(body)._meta.all:
                value = getattr(body, f._name)
                if isinstance(value, list):
                    value.append(7) if len(value) < 3 else value.pop()
                elif f._name != 'inner':
                    setattr(body, f._name, None)
            request.soap_header = None
            request.http_content = b'gone'
            request.environ.clear()
        if text == 'shared':
            return shared_texts[i not in (0, 3)]
        if i in (0, 3):
            out = Text(text='%s from %d' % (text, i), n=None if other else i)
        elif i == 2:
            out = Pair(inner=Text(text=text))
            out.item.append(i)
        else:
            out = Pair(item=[i, 2])
            out.item.append(i)
        if text in (None, 'plain'):
            return out
        header = {0: HeadB(token=Text(text=text, lang='x')), 1: HeadA(token=Text(text=text)), 2: None, 3: HeadS(note=Text(text=text)) if variant['svc'] else None, 4: None}[i]
        return SOAPResponse(out, soap_header=header, http_headers={'X-Text': str(i)} if text == 'head' else None, http_status_code=202 if text == 'status' else 200)

    names = ['opA', 'opB', 'opC', 'opD', 'opE']
    actions = ['urn:A', 'a', None, 'urn:D', 'urn:E'] if not other else ['a', 'urn:A', None, 'urn:E', 'urn:D']
    inputs = ['a', 'b', 'c', 'd', 'far']
    outputs = ['ra', 'rb', Pair, 'ra', 'rb']
    heads = [(HeadA, HeadB), (HeadB, HeadA), (None, None), (None, None), (HeadB, None)]
    methods = [xsd.Method(function=lambda request, body, i=i: answer(i, request, body), operationName=names[i], soapAction=actions[i], input=inputs[i], output=outputs[i],
                          input_header=heads[i][0], output_header=heads[i][1]) for i in range(5)]
    service = soap.Service('urn:fw:svc', '${scheme}://${host}/svc', [schema, far], methods, version=soap.SOAPVersion.SOAP11 if variant['version'] == '11' else soap.SOAPVersion.SOAP12,
                           name='Other' if other else 'Svc', input_header=HeadS if variant['svc'] else None, output_header=HeadS if variant['svc'] else None)
    return service, {'Text': Text, 'Pair': Pair, 'Far': Far, 'heads': heads, 'HeadS': HeadS}


BODIES = ['', 'plain', 'hello', 'fault', 'answer', 'shared-fault', 'shared-answer', 'shared', 'boom', 'mutate', 'head', 'status', 'é', 'nil', 'bad-n', 'bad-lang', 'bad-child']
KINDS = ['call'] * 8 + ['stub', 'stub', 'wsdl', 'xsd', 'put', 'truncated', 'empty']
HEADERS = ['none', 'none', 'token', 'trace', 'note', 'both', 'unknown', 'invalid', 'empty']


def content(op, text):
    inner = {'': '', 'nil': '<o:text xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/>', 'bad-n': '<o:n>9x</o:n>', 'bad-child': '<o:nothing/>'}.get(text)
    if inner is None:
        inner = '<o:text>%s</o:text><o:n>3</o:n>' % text if text not in ('bad-lang',) else '<o:text>x</o:text>'
    attrs = {'bad-lang': ' lang="long"', 'hello': ' lang="en"'}.get(text, '')
    if op == 'pair':
        return '<o:item>5</o:item><o:inner%s>%s</o:inner>' % (attrs, inner), ''
    if op == 'far':
        return ('<x>%s</x>' % text if text else '') if text != 'bad-child' else '<o:x/>', ''
    return inner, attrs


def block(kind):
    t = {'token': '<o:token lang="h"><o:text>tok</o:text></o:token>', 'trace': '<o:trace><o:item>1</o:item><o:item>2</o:item></o:trace>', 'note': '<o:note><o:text>nb</o:text></o:note>',
         'unknown': '<u:thing xmlns:u="urn:unknown"/>', 'invalid': '<o:trace><o:item>x</o:item></o:trace>', 'empty': ''}
    t['both'] = t['trace'] + t['token']
    return t[kind]


def request(variant, letter):
    """(environ, content) of a letter [dispatcher, kind, operation, by, text, header, host]."""
    _, kind, op, by, text, header, host = letter
    if variant['twin'] == 'other' and letter[0]:
        action = ['a', 'urn:A', None, 'urn:E', 'urn:D'][op]
    else:
        action = ['urn:A', 'a', None, 'urn:D', 'urn:E'][op]
    ns = S.ENVELOPE[variant['version']]
    tag = ['o:a', 'o:b', 'o:c', 'o:d2' if by == 'member' else 'o:d', 'f:far'][op]
    inner, attrs = content({1: 'pair', 4: 'far'}.get(op, 'text'), text)
    if kind == 'empty':
        body = ''
    else:
        body = '<%s%s>%s</%s>' % (tag, attrs, inner, tag)
    xml = '<e:Envelope xmlns:e="%s" xmlns:o="%s" xmlns:f="%s">%s<e:Body>%s</e:Body></e:Envelope>' % (ns, ONE, TWO, '<e:Header>%s</e:Header>' % block(header) if header != 'none' else '', body)
    xml = xml.encode()
    if kind == 'truncated':
        xml = xml[:len(xml) * 3 // 4]
    env = S.request_environ(variant['version'], {'action': action, 'unknown': 'urn:X', 'wrong': 'a'}.get(by), 'plain')
    env['HTTP_HOST'] = host
    if kind in ('wsdl', 'xsd'):
        env.update(REQUEST_METHOD='GET', QUERY_STRING='wsdl' if kind == 'wsdl' else 'xsd=' + ['far.xsd', 'one.xsd', '', 'none.xsd', 'far.xsd'][op])
    elif kind == 'put':
        env['REQUEST_METHOD'] = 'PUT'
    return env, xml


class World:
    """Two dispatchers; the log of a request and its answer are its result."""

    def __init__(self, variant, post):
        from soapfish.core import SOAPError, SOAPResponse
        from soapfish.soap_dispatch import SOAPDispatcher
        self.variant, self.log, self.post = variant, [], post

        def mark(request, next_call):
            host = request.environ.get('HTTP_HOST')
            response = next_call(request)
            response.http_headers['X-Host'] = host
            return response

        def look(request, next_call):
            self.log.append(['look', request.method, seen(request.soap_body), seen(request.soap_header), request.soap_header is None])
            response = next_call(request)
            self.log.append(['looked', sorted(response.http_headers.items()), response.http_status_code])
            return response

        def catch(request, next_call):
            try:
                return next_call(request)
            except SOAPError as e:
                return SOAPResponse(SOAPError(e.code, 'caught ' + e.message), http_headers={'X-Caught': 'yes'})

        def hook(dispatcher, request, response):
            host = request.environ.get('HTTP_HOST')
            self.log.append(['hook', sorted(response.http_headers.items()), response.http_status_code, seen(response.soap_header)])
            if host == 'two.example:81':
                response.http_headers['X-Hook'] = host
                response.http_status_code = 299
                response.soap_header = None
            return response
        stack = [[], [mark], [catch, look, mark], [mark]][variant['mw']]
        hooks = {'soap-response': hook, 'wsdl-response': hook, 'xsd-response': hook} if variant['mw'] == 3 else None
        self.services = [service(variant, False, self.log)]
        self.services.append(self.services[0] if variant['twin'] == 'same' else service(variant, True, self.log))
        self.dispatchers = [SOAPDispatcher(s[0], middlewares=list(stack), hooks=hooks, strict_soap_header=variant['strict']) for s in self.services]

    def serve(self, letter, infoset):
        from soapfish.core import SOAPRequest
        del self.log[:]
        try:
            if letter[1] == 'stub':
                out = self.stub(letter, infoset)
            else:
                env, data = request(self.variant, letter)
                r = self.dispatchers[letter[0]].dispatch(SOAPRequest(env, data))
                out = [r.http_status_code, sorted(r.http_headers.items()), infoset(r.http_content)]
        except Exception as e:
            text = str(e)
            out = ['exception', type(e).__name__, text if ' at 0x' not in text else '']
        return [out, list(self.log)]

    def stub(self, letter, infoset):
        from soapfish import soap
        from soapfish.core import SOAPRequest
        d, _, op, by, text, header, host = letter
        svc, types = self.services[d]
        dispatcher, version, sent = self.dispatchers[d], self.variant['version'], []

        class Client(soap.Stub):
            SERVICE = svc
            HOST = host

        def post(url, auth=None, headers=None, data=None):
            sent.append([url, auth, sorted(headers.items()), infoset(data)])
            h = {k.lower(): v for k, v in headers.items()}
            env = {'REQUEST_METHOD': 'POST', 'QUERY_STRING': '', 'HTTP_HOST': host, 'CONTENT_TYPE': h['content-type']}
            if 'soapaction' in h:
                env['HTTP_SOAPACTION'] = h['soapaction']
            r = dispatcher.dispatch(SOAPRequest(env, data))

            class Response:
                headers = dict(r.http_headers)
                content = r.http_content
            return Response
        self.post(post)
        Text, Pair = types['Text'], types['Pair']
        value = {1: lambda: Pair(item=[1, 2], inner=Text(text=text or None)), 4: lambda: types['Far'](x=text or None)}.get(op, lambda: Text(text=text or None))()
        kind = types['heads'][op][0] or (types['HeadS'] if self.variant['svc'] else None)
        head = None
        if kind is not None and header != 'none':
            head = kind()
            for name, v in (('token', Text(text='t', lang='l')), ('trace', Pair(item=[3]))):
                if hasattr(kind, name) and header in (name, 'both'):
                    setattr(head, name, v)
        try:
            got = Client('user', 'secret').call(svc.methods[op].operationName, value, header=head)
            answer = ['answer', seen(got.soap_body), seen(got.soap_header)]
        except Exception as e:
            text = str(e)
            answer = ['exception', type(e).__name__, text if ' at 0x' not in text else '']
        return ['stub', sent, answer]
