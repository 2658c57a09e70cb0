"""C18: middlewares nest in order and hooks run exactly where named."""
from hypothesis import strategies as st

from harness import models as M
from harness import services as S
from harness.core import Sub, Violation

TECHNIQUE = 'model-based property-based testing: random middleware stacks, hook sets and request histories against a simulation of the onion'
NOTE = 'Middlewares change the request in place (as documented) and may change, replace or withhold the response.'

HOOKS = ['soap-request', 'soap-response', 'wsdl-request', 'wsdl-response', 'xsd-request', 'xsd-response']
BEFORE = ['none', 'none', 'none', 'env', 'text', 'bad', 'raise', 'fault', 'answer', 'plain', 'error', 'status']
AFTER = ['none', 'none', 'none', 'text', 'replace', 'header', 'raise', 'fault', 'soap-header', 'plain']
KINDS = ['soap', 'soap', 'soap', 'soap', 'soap', 'malformed', 'invalid', 'handler-raise', 'handler-fault', 'handler-plain', 'wsdl', 'singleWsdl', 'xsd', 'xsd-unknown', 'get', 'put', 'head', 'post-wsdl']


@st.composite
def middlewares(draw):
    return {'before': draw(st.sampled_from(BEFORE)), 'calls': draw(st.sampled_from([1, 1, 1, 1, 1, 0, 2])), 'catch': draw(st.sampled_from([None, None, None, 'all', 'soap'])), 'after': draw(st.sampled_from(AFTER)),
            'cls': draw(st.booleans())}


@st.composite
def cases(draw):
    hooks = {}
    for h in HOOKS:
        if draw(st.integers(0, 2)) == 0:
            kind = h.split('-')[1]
            hooks[h] = draw(st.sampled_from(['same', 'same', 'change', 'change', 'replace', 'replace', 'none', 'other', 'raise']))
            assert kind
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 5)) == 0:
            steps.append(['insert', draw(st.integers(0, 5)), draw(middlewares())])
        elif draw(st.integers(0, 8)) == 0:
            steps.append(['remove', draw(st.integers(0, 5))])
        steps.append(['request', draw(st.sampled_from(KINDS))])
    return {'version': draw(st.sampled_from(['11', '12'])), 'stack': draw(st.lists(middlewares(), max_size=4)), 'hooks': hooks, 'steps': steps, 'none': draw(st.booleans())}


class Boom(Exception):
    pass


# --- the simulation -----------------------------------------------------------------------------------------------
# request: {'text', 'mark', 'prepared', 'kind'}; response: ('obj', text) | ('err', code) | {'body': obj/err, 'head', 'xh', 'status'}
class ModelBoom(Exception):
    pass


class ModelFault(Exception):
    pass


def wrap(r):
    return r if isinstance(r, dict) else {'body': r, 'head': False, 'xh': [], 'status': 200}


def sim_handler(req, trace):
    trace.append(['prepare', req['mark']])
    if req['kind'] in ('malformed', 'invalid'):
        trace.pop()
        raise ModelFault('client')
    trace.pop()
    req['prepared'] = True
    trace.append(['handler', req['text'], req['mark']])
    if req['kind'] == 'handler-raise':
        raise ModelBoom('handler')
    if req['kind'] == 'handler-fault':
        raise ModelFault('handler')
    return wrap(['obj', req['text'] + '!'])


def sim_layer(stack, i, req, trace):
    if i == len(stack):
        return sim_handler(req, trace)
    m = stack[i]
    name = m['name']
    trace.append(['in', name, 't' if req['kind'] == 'malformed' else req['text'], req['mark']])
    b = m['before']
    if b == 'env':
        req['mark'] += name
    elif b == 'text':
        req['text'] += name if req['kind'] != 'malformed' else ''
    elif b == 'bad':
        req['kind'] = 'malformed'
    elif b == 'raise':
        raise ModelBoom('before ' + name)
    elif b == 'fault':
        raise ModelFault('before ' + name)
    elif b == 'answer':
        return wrap(['obj', 'answer ' + name])
    elif b == 'status':
        return dict(wrap(['obj', 'answer ' + name]), status=202)
    elif b == 'plain':
        return ['obj', 'plain ' + name]
    elif b == 'error':
        return ['err', 'error ' + name]
    out = None
    try:
        for _ in range(m['calls']):
            out = sim_layer(stack, i + 1, req, trace)
    except (ModelBoom, ModelFault) as e:
        if m['catch'] is None or m['catch'] == 'soap' and isinstance(e, ModelBoom):
            raise
        trace.append(['caught', name, str(e)])
        out = wrap(['obj', 'caught ' + name])
    if out is None:
        out = wrap(['obj', 'nothing ' + name])
    trace.append(['out', name, wrap(out)['body'][1]])
    a = m['after']
    if a == 'text' and wrap(out)['body'][0] == 'obj':
        wrap(out)['body'][1] += name
    elif a == 'replace':
        out = wrap(['obj', 'replaced ' + name])
    elif a == 'header' and isinstance(out, dict):
        out['xh'].append(name)
    elif a == 'soap-header' and isinstance(out, dict):
        out['head'] = True
    elif a == 'raise':
        raise ModelBoom('after ' + name)
    elif a == 'fault':
        raise ModelFault('after ' + name)
    elif a == 'plain':
        return ['obj', 'plain after ' + name]
    return out


def simulate(stack, hooks, kind, trace):
    """('http', status, what) | ('boom', text) | ('type', None): the outcome of one request."""
    family = 'soap' if kind in ('soap', 'malformed', 'invalid', 'handler-raise', 'handler-fault', 'handler-plain', 'post-wsdl') else 'wsdl' if kind in ('wsdl', 'singleWsdl') else 'xsd' if kind.startswith('xsd') else None
    if family is None:
        return ('bad',)
    req = {'text': 't', 'mark': '', 'prepared': False, 'kind': 'soap' if kind == 'post-wsdl' else kind}
    h = hooks.get(family + '-request')
    if h:
        trace.append(['hook', family + '-request'])
        if h == 'raise':
            return ('boom', family + '-request')
        if h in ('none', 'other'):
            return ('type',)
        if h == 'change':
            req['mark'] += '#'
        if h == 'replace':
            req['mark'] = '@'
            req['text'] = 'r'
            if family == 'soap':
                req['kind'] = 'soap'
    out = {'family': family, 'mark': req['mark']}
    if family == 'soap':
        try:
            r = wrap(sim_layer(stack, 0, req, trace))
        except ModelFault as e:
            r = wrap(['err', str(e)])
        except ModelBoom as e:
            return ('boom', str(e))
        out.update(r, prepared=req['prepared'])
        if r['body'][0] == 'err':
            out['status'] = 500
    else:
        out['status'] = 404 if kind == 'xsd-unknown' and h != 'replace' else 200
        out['xh'] = []
    h = hooks.get(family + '-response')
    if h:
        trace.append(['hook', family + '-response', out['status']])
        if h == 'raise':
            return ('boom', family + '-response')
        if h in ('none', 'other'):
            return ('type',)
        if h == 'change':
            out['xh'].append('hook')
        if h == 'replace':
            return ('replaced',)
    return ('ok', out)


# --- the real thing ---------------------------------------------------------------------------------------------------
def ping_service(version):
    from soapfish import soap, xsd

    class Ping(xsd.ComplexType):
        text = xsd.Element(xsd.String, minOccurs=0)

    class Head(xsd.ComplexType):
        Token = xsd.Element(xsd.String, minOccurs=0, namespace='urn:ping')
    inner = xsd.Schema(targetNamespace='urn:inner', location='inner.xsd', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, elements={'thing': xsd.Element(xsd.String)})
    schema = xsd.Schema(targetNamespace='urn:ping', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, complexTypes=[Ping, Head], imports=[inner],
                        elements={'ping': xsd.Element(Ping), 'pong': xsd.Element(Ping), 'Token': xsd.Element(xsd.String)})
    method = xsd.Method(operationName='Ping', soapAction='urn:ping', function=None, input='ping', output='pong', output_header=Head)
    return Ping, Head, soap.Service(name='P', targetNamespace='urn:ping', location='${scheme}://${host}/ws', schemas=[schema], methods=[method],
                                    version={'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}[version])


def content_of(version, text, kind):
    if kind == 'malformed':
        return b'<Envelope'
    ping = M.Node('{urn:ping}%s' % ('unknown' if kind == 'invalid' else 'ping'))
    t = M.Node('{urn:ping}text')
    t.text = ('String', ['s', text])
    ping.kids = [t]
    return M.write_node(S.envelope_node(version, ping)).encode()


def environ_of(version, kind):
    env = S.request_environ(version, 'urn:ping')
    if kind in ('wsdl', 'singleWsdl', 'xsd', 'xsd-unknown', 'get', 'put', 'head'):
        env['REQUEST_METHOD'] = {'put': 'PUT', 'head': 'HEAD'}.get(kind, 'GET')
        env['QUERY_STRING'] = {'wsdl': 'wsdl', 'singleWsdl': 'singleWsdl', 'xsd': 'xsd=inner.xsd', 'xsd-unknown': 'xsd=other.xsd', 'head': 'wsdl'}.get(kind, '')
    if kind == 'post-wsdl':
        env['QUERY_STRING'] = 'wsdl'
    env['MARK'] = ''
    return env


def xml_text(content):
    import re
    return re.search(rb'<(?:\w+:)?text[^>]*>([^<]*)<', content).group(1).decode()


def check(case):
    from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
    from soapfish.soap_dispatch import SOAPDispatcher
    version = case['version']
    Ping, Head, service = ping_service(version)
    trace = []
    current = [None]

    def text_of(r):
        body = r.soap_body if isinstance(r, SOAPResponse) else r
        return body.message if isinstance(body, SOAPError) else body.text

    def req_text(request):
        try:
            return xml_text(request.http_content)
        except AttributeError:
            return 't'

    def handler(request, body):
        trace.append(['handler', body.text, request.environ['MARK']])
        if request.soap_body is not body:
            raise Violation('request.soap_body is another object')
        if current[0] == 'handler-raise':
            raise Boom('handler')
        if current[0] == 'handler-fault':
            raise SOAPError(service.version.Code.SERVER, 'handler')
        out = Ping(text=body.text + '!')
        return out if current[0] == 'handler-plain' else SOAPResponse(out)
    service.methods[0].function = handler

    def layer(m):
        name = m['name']

        def call(request, next_call):
            if request.dispatcher is not dispatcher:
                raise Violation('request.dispatcher is %r' % request.dispatcher)
            trace.append(['in', name, req_text(request), request.environ['MARK']])
            b = m['before']
            if b == 'env':
                request.environ['MARK'] += name
            elif b == 'text':
                if req_text(request) and b'<text' in request.http_content:
                    request.http_content = content_of(version, req_text(request) + name, current[0])
            elif b == 'bad':
                request.http_content = b'<Envelope'
            elif b == 'raise':
                raise Boom('before ' + name)
            elif b == 'fault':
                raise SOAPError(service.version.Code.CLIENT, 'before ' + name)
            elif b == 'answer':
                return SOAPResponse(Ping(text='answer ' + name))
            elif b == 'status':
                return SOAPResponse(Ping(text='answer ' + name), http_status_code=202)
            elif b == 'plain':
                return Ping(text='plain ' + name)
            elif b == 'error':
                return SOAPError(service.version.Code.SERVER, 'error ' + name)
            out = None
            try:
                for _ in range(m['calls']):
                    out = next_call(request)
            except (Boom, SOAPError) as e:
                if m['catch'] is None or m['catch'] == 'soap' and isinstance(e, Boom):
                    raise
                what = e.message if isinstance(e, SOAPError) else str(e)
                trace.append(['caught', name, what if what.split()[0] in ('before', 'after', 'handler') else 'client'])
                out = SOAPResponse(Ping(text='caught ' + name))
            if out is None:
                out = SOAPResponse(Ping(text='nothing ' + name))
            trace.append(['out', name, text_of(out)])
            a = m['after']
            body = out.soap_body if isinstance(out, SOAPResponse) else out
            if a == 'text' and isinstance(body, Ping):
                body.text += name
            elif a == 'replace':
                out = SOAPResponse(Ping(text='replaced ' + name))
            elif a == 'header' and isinstance(out, SOAPResponse):
                out.http_headers['X-' + name] = '1'
            elif a == 'soap-header' and isinstance(out, SOAPResponse):
                out.soap_header = Head(Token='tok')
            elif a == 'raise':
                raise Boom('after ' + name)
            elif a == 'fault':
                raise SOAPError(service.version.Code.CLIENT, 'after ' + name)
            elif a == 'plain':
                return Ping(text='plain after ' + name)
            return out
        if not m['cls']:
            return lambda request, next_call: call(request, next_call)

        class Layer:
            def __call__(self, request, next_call):
                return call(request, next_call=next_call)
        return Layer()

    def hook_for(name, behaviour):
        def hook(dispatcher, request, response=None):
            if dispatcher is not the_dispatcher[0]:
                raise Violation('hook got dispatcher %r' % dispatcher)
            if (response is None) != name.endswith('-request'):
                raise Violation('hook %s got response %r' % (name, response))
            trace.append(['hook', name] + ([] if response is None else [response.http_status_code]))
            if behaviour == 'raise':
                raise Boom(name)
            if behaviour == 'none':
                return None
            if behaviour == 'other':
                return request if response is not None else SOAPResponse(None)
            if behaviour == 'change':
                if response is None:
                    request.environ['MARK'] += '#'
                else:
                    response.http_headers['X-hook'] = '1'
            if behaviour == 'replace':
                if response is not None:
                    return SOAPResponse(None, http_content=b'replaced', http_status_code=203, http_headers={'X-R': '1'})
                return SOAPRequest(dict(environ_of(version, name.split('-')[0]), MARK='@'), content_of(version, 'r', 'soap'))
            return response if response is not None else request
        return hook
    counter = [0]

    def named(m):
        counter[0] += 1
        return dict(m, name='m%d' % counter[0])
    stack = [named(m) for m in case['stack']]
    hooks = {k: hook_for(k, v) for k, v in case['hooks'].items()}
    the_dispatcher = [None]
    kw = {}
    if hooks or case['none']:
        kw['hooks'] = hooks
    if stack or case['none']:
        kw['middlewares'] = [layer(m) for m in stack]
    dispatcher = SOAPDispatcher(service, **kw)
    the_dispatcher[0] = dispatcher
    plain = SOAPDispatcher(service)
    requests = 0
    for step in case['steps']:
        if step[0] == 'insert':
            i = step[1] % (len(stack) + 1)
            stack.insert(i, named(step[2]))
            dispatcher.middlewares.insert(i, layer(stack[i]))
            continue
        if step[0] == 'remove':
            if stack:
                i = step[1] % len(stack)
                del stack[i], dispatcher.middlewares[i]
            continue
        requests += 1
        kind = step[1]
        current[0] = kind
        del trace[:]
        expected = []
        want = simulate([dict(m) for m in stack], case['hooks'], kind, expected)
        if case['hooks'].get('soap-request') == 'replace' and kind in ('malformed', 'invalid', 'handler-raise', 'handler-fault', 'handler-plain'):
            current[0] = 'soap'
        caught = response = None
        try:
            response = dispatcher.dispatch(SOAPRequest(environ_of(version, kind), content_of(version, 't', kind)))
        except Exception as e:
            caught = e
        if isinstance(caught, Violation):
            raise caught
        judge(version, kind, want, response, caught, plain, case)
        if trace != expected:
            raise Violation('%s: trace differs\ngot      %r\nexpected %r\nstack %r' % (kind, trace, expected, stack))
    return len(case['stack']) > 1 or len(hooks) > 1


def judge(version, kind, want, response, caught, plain, case):
    from soapfish.core import SOAPRequest, SOAPResponse
    if want[0] == 'boom':
        if not isinstance(caught, Boom) or str(caught) != want[1]:
            raise Violation('%s: got %r instead of the exception %r' % (kind, caught or response, want[1]))
        return
    if want[0] == 'type':
        if not isinstance(caught, TypeError):
            raise Violation('%s: a hook result of the wrong type gave %r' % (kind, caught or response))
        return
    if caught is not None:
        raise Violation('%s: unexpected %r, expected %r' % (kind, caught, want)) from caught
    if not isinstance(response, SOAPResponse):
        raise Violation('%s: got %r' % (kind, response))
    if want[0] == 'bad':
        if response.http_status_code != 400:
            raise Violation('%s: status %r' % (kind, response.http_status_code))
        return
    if want[0] == 'replaced':
        if response.http_content != b'replaced' or response.http_status_code != 203 or dict(response.http_headers) != {'X-R': '1'}:
            raise Violation('%s: the response of the hook was not used: %r' % (kind, response.http_content))
        return
    out = want[1]
    if response.http_status_code != out['status']:
        raise Violation('%s: status %r, expected %r\n%r' % (kind, response.http_status_code, out['status'], response.http_content))
    for name in [k for k in response.http_headers if k.startswith('X-')]:
        if name[2:] not in out['xh']:
            raise Violation('%s: header %s from nowhere' % (kind, name))
    if any('X-' + n not in response.http_headers for n in out['xh']):
        raise Violation('%s: headers %r, expected %r' % (kind, response.http_headers, out['xh']))
    if out['family'] != 'soap':
        replaced = case['hooks'].get(out['family'] + '-request') == 'replace'
        same = plain.dispatch(SOAPRequest(environ_of(version, out['family'] if replaced else kind), b''))
        if response.http_content != same.http_content:
            raise Violation('%s: content %r, expected %r' % (kind, response.http_content, same.http_content))
        return
    header, body = S.read_envelope(version, response.http_content)
    if out['body'][0] == 'err':
        f = S.read_fault(version, response.http_content)
        if out['body'][1] != 'client' and f.message != out['body'][1]:
            raise Violation('%s: fault %r, expected %r' % (kind, f.message, out['body'][1]))
    else:
        tag = '{urn:ping}' + ('pong' if out['prepared'] else 'ping')
        if [e.tag for e in body] != [tag] or [e.text for e in body[0]] != [out['body'][1]]:
            raise Violation('%s: body %r, expected %s with %r' % (kind, response.http_content, tag, out['body'][1]))
    if [e.tag for e in header or ()] != (['{urn:ping}Token'] if out['head'] else []):
        raise Violation('%s: header %r, expected %r' % (kind, response.http_content, out['head']))


# --- hook names --------------------------------------------------------------------------------------------------------
PARTS = ['soap', 'wsdl', 'xsd', 'request', 'response', '-', '_', '', ' ', 'Soap', 'REQUEST', '\n', 's', 'x', 'html']


def name_cases():
    return st.one_of(st.sampled_from(HOOKS), st.lists(st.sampled_from(PARTS), max_size=4).map(''.join), st.tuples(st.sampled_from(HOOKS), st.sampled_from(PARTS)).map(''.join), st.tuples(st.sampled_from(PARTS), st.sampled_from(HOOKS)).map(''.join),
                     st.text(max_size=5)).flatmap(lambda n: st.fixed_dictionaries({'name': st.just(n), 'version': st.sampled_from(['11', '12']), 'others': st.lists(st.sampled_from(HOOKS), max_size=2, unique=True)}))


def check_name(case):
    from soapfish.soap_dispatch import SOAPDispatcher
    service = ping_service(case['version'])[2]
    hooks = {n: lambda **kw: None for n in case['others'] + [case['name']]}
    try:
        SOAPDispatcher(service, hooks=hooks)
    except Exception as e:
        if case['name'] in HOOKS:
            raise Violation('hook name %r refused: %r' % (case['name'], e))
        return True
    if case['name'] not in HOOKS:
        raise Violation('hook name %r accepted' % case['name'])
    return bool(case['others'])


SUBS = [
    Sub('stacks', cases, check, quick=4000, thorough=100000, shards=7,
        rule='random middleware stack x hook set x history of up to four requests with stack changes in between; non-trivial with two middlewares or two hooks'),
    Sub('names', name_cases, check_name, quick=400, thorough=5000, shards=1,
        rule='random hook names near the valid ones; non-trivial when invalid or together with others'),
]
