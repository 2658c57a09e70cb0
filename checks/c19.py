"""C19: WSGI, Flask and Django expose the same service over HTTP."""
import collections
from urllib.parse import quote

from hypothesis import strategies as st

from checks import c18
from harness import services as S
from harness.core import Sub, Violation

TECHNIQUE = 'differential property-based testing: random HTTP requests through direct dispatch, the WSGI application (checked by wsgiref.validate), Flask and Django'
NOTE = 'Status codes of handlers allow a body; header names and values are ASCII.'

METHODS = ['GET', 'GET', 'GET', 'POST', 'POST', 'POST', 'PUT', 'DELETE', 'PATCH']
KEYS = ['wsdl', 'wsdl', 'singleWsdl', 'xsd', 'xsd', 'WSDL', 'singlewsdl', 'Xsd', 'wsdl ', 'x', '', 'wsdl2', 'é', 'a=b', 'a&b', 'disco']
VALUES = [None, None, '', '1', 'inner.xsd', 'inner.xsd', 'a b&c.xsd', 'a b&c.xsd', 'other.xsd', 'inner', '/inner.xsd', 'xsd', 'é', 'wsdl', '${host}']
BODIES = ['valid', 'valid', 'valid', 'valid', 'invalid', 'malformed', 'empty', 'text', 'form', 'binary', 'big', 'short']
HEADERS = ['X-Thing', 'Cache-Control', 'ETag', 'Content-Language', 'X-Lower-case', 'Content-Type', 'Set-Cookie', 'Server', 'X-a_b']
HEADER_VALUES = ['1', 'no-store', '"abc"', 'a; b="c"', 'x' * 200, 'text/plain', 'a=b; Path=/']
STATUS = [200, 200, 200, 201, 202, 203, 206, 299, 302, 400, 401, 404, 418, 500, 503, 599]
CONTENT_TYPES = ['right', 'right', 'right', 'text/xml', 'application/x-www-form-urlencoded', 'multipart/form-data; boundary=x', '', 'application/soap+xml; charset=utf-8; action="urn:ping"', 'application/json', None]


@st.composite
def requests(draw):
    r = {'method': draw(st.sampled_from(METHODS)), 'q': draw(st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(VALUES)).map(list), max_size=3)), 'body': draw(st.sampled_from(BODIES)),
         'ct': draw(st.sampled_from(CONTENT_TYPES)), 'action': draw(st.sampled_from(['urn:ping', 'urn:ping', None, '', 'urn:other'])), 'host': draw(st.sampled_from(['svc.example', 'other.example:8080', '127.0.0.1', '[::1]:80'])),
         'proto': draw(st.sampled_from([None, None, 'https', 'http'])), 'scheme': draw(st.sampled_from(['http', 'https'])), 'text': draw(st.sampled_from(['a', 'é<&', '漢', '']))}
    return r


@st.composite
def cases(draw):
    return {'version': draw(st.sampled_from(['11', '12'])), 'status': draw(st.sampled_from(STATUS)), 'headers': draw(st.lists(st.tuples(st.sampled_from(HEADERS), st.sampled_from(HEADER_VALUES)).map(list), max_size=3)),
            'kind': draw(st.sampled_from(['response', 'response', 'plain', 'fault', 'boom', 'read'])), 'requests': draw(st.lists(requests(), min_size=1, max_size=4)), 'hook': draw(st.sampled_from([None, None, None, 'text', 'bytes', 'status']))}


def service_of(case):
    from soapfish import soap, xsd
    from soapfish.core import SOAPError, SOAPResponse
    Ping, Head, service = c18.ping_service(case['version'])
    odd = xsd.Schema(targetNamespace='urn:odd', location='a b&c.xsd', elements={'odd': xsd.Element(xsd.String)})
    service.schemas[0].imports.append(odd)
    assert soap
    headers = {}
    for k, v in case['headers']:
        if k.lower() not in [x.lower() for x in headers]:
            headers[k] = v

    def handler(request, body):
        if case['kind'] == 'fault':
            raise SOAPError('x:Code', 'message ' + (body.text or ''))
        if case['kind'] == 'boom':
            raise ValueError('boom')
        out = Ping(text='got ' + (body.text or ''))
        if case['kind'] == 'plain':
            return out
        if case['kind'] == 'read':  # what handlers and middlewares see of the request
            env = request.environ
            if type(getattr(request, '_original_request', None)).__module__.startswith('django'):  # Django: headers may be named as in HTTP
                for name, key in (('X-Trace', 'HTTP_X_TRACE'), ('x-trace', 'HTTP_X_TRACE'), ('Host', 'HTTP_HOST'), ('Content-Type', 'CONTENT_TYPE'), ('Content-Length', 'CONTENT_LENGTH'), ('No-Such', 'NO_SUCH')):
                    if env.get(name, 'none') != env.get(key, 'none'):
                        return SOAPResponse(Ping(text='no ' + name), http_status_code=599, http_headers={'X-Problem': name})
            out = Ping(text=repr([env.get(k) for k in ('REQUEST_METHOD', 'QUERY_STRING', 'HTTP_HOST', 'CONTENT_TYPE', 'HTTP_X_FORWARDED_PROTO', 'wsgi.url_scheme')] + [env['SERVER_NAME'], 'NO_SUCH' in env, len(request.http_content)]))
        return SOAPResponse(out, http_status_code=case['status'], http_headers=dict(headers))
    service.methods[0].function = handler
    return service


def kwargs_of(case):
    from soapfish.core import SOAPResponse
    from soapfish.middlewares import ExceptionToSoapFault
    kw = {'middlewares': [ExceptionToSoapFault()]}
    if case['hook']:
        def hook(dispatcher, request, response):
            if case['hook'] == 'text':
                response.http_content = 'text é'
            elif case['hook'] == 'bytes':
                response.http_content = b'\x00\xff'
            else:
                return SOAPResponse(None, http_status_code=503, http_content='unavailable', http_headers={'Retry-After': '3', 'Content-Type': 'text/plain'})
            return response
        kw['hooks'] = {'soap-response': hook, 'wsdl-response': hook}
    return kw


def body_of(case, r):
    v = case['version']
    return {'valid': lambda: c18.content_of(v, r['text'], 'soap'), 'invalid': lambda: c18.content_of(v, r['text'], 'invalid'), 'malformed': lambda: b'<Envelope', 'empty': lambda: b'', 'text': lambda: b'hello', 'form': lambda: b'a=b&wsdl=1',
            'binary': lambda: bytes(range(256)), 'big': lambda: c18.content_of(v, 'x' * 70000, 'soap'), 'short': lambda: b'<'}[r['body']]()


def environ_of(case, r):
    env = S.request_environ(case['version'], r['action'])
    env['REQUEST_METHOD'] = r['method']
    env['QUERY_STRING'] = '&'.join(quote(k, safe='') + ('' if v is None else '=' + quote(v, safe='')) for k, v in r['q'])
    env['HTTP_HOST'] = r['host']
    env['HTTP_X_TRACE'] = 'trace'
    env['wsgi.url_scheme'] = r['scheme']
    env['PATH_INFO'], env['SCRIPT_NAME'], env['SERVER_PROTOCOL'], env['REMOTE_ADDR'] = '/ws/', '', 'HTTP/1.1', '127.0.0.1'
    if r['proto']:
        env['HTTP_X_FORWARDED_PROTO'] = r['proto']
    if r['ct'] is None:
        env.pop('CONTENT_TYPE', None)
    elif r['ct'] != 'right':
        env['CONTENT_TYPE'] = r['ct']
    return env


_django = {}


def django_app():
    if not _django:
        import django
        from django.conf import settings
        settings.configure(ALLOWED_HOSTS=['*'], ROOT_URLCONF=None, DEBUG=True, DEBUG_PROPAGATE_EXCEPTIONS=True, LOGGING_CONFIG=None, USE_I18N=False, USE_TZ=True, SECRET_KEY='x', APPEND_SLASH=False, MIDDLEWARE=['django.middleware.csrf.CsrfViewMiddleware'],
                           DATA_UPLOAD_MAX_MEMORY_SIZE=None)
        django.setup()
        from django.core.handlers.wsgi import WSGIHandler
        _django['app'], _django['settings'] = WSGIHandler(), settings
    return _django['app'], _django['settings']


def apps(service, kw):
    """The service as a WSGI callable, by framework."""
    import flask
    from django.urls import clear_url_caches, re_path
    from soapfish.django_ import django_dispatcher
    from soapfish.flask_ import flask_dispatcher
    from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication
    fl = flask.Flask('service')
    fl.testing = True
    fl.add_url_rule('/ws/', 'ws', flask_dispatcher(service, **kw), methods=['GET', 'POST', 'PUT', 'DELETE', 'PATCH'], provide_automatic_options=False)
    app, settings = django_app()
    settings.ROOT_URLCONF = collections.namedtuple('urlconf', 'urlpatterns')(urlpatterns=(re_path(r'^ws/$', django_dispatcher(service, **kw)),))
    clear_url_caches()
    return {'wsgi': WsgiSoapApplication(SOAPDispatcher(service, **kw)), 'flask': fl, 'django': app}


def check(case):
    from soapfish.core import SOAPRequest
    from soapfish.soap_dispatch import SOAPDispatcher
    service = service_of(case)
    kw = kwargs_of(case)
    django_app()
    dispatcher = SOAPDispatcher(service, **kw)
    by_name = apps(service, kw)
    kinds = set()
    for r in case['requests']:
        content, env = body_of(case, r), environ_of(case, r)
        env['CONTENT_LENGTH'] = str(len(content))
        direct = dispatcher.dispatch(SOAPRequest(dict(env), content))
        want = direct.http_content.encode() if isinstance(direct.http_content, str) else direct.http_content
        kinds.add(classify(case, r, direct, want))
        for name, app in by_name.items():
            status, headers, got = S.run_wsgi(app, env, content, validate=name == 'wsgi')
            if int(status.split()[0]) != direct.http_status_code:
                raise Violation('%s: status %r, dispatching gives %r\n%r %r' % (name, status, direct.http_status_code, env, content[:300]))
            for k, v in direct.http_headers.items():
                values = [x for h, x in headers if h.lower() == k.lower()]
                if values != [v]:
                    raise Violation('%s: header %s is %r, expected %r' % (name, k, values, v))
            if name == 'wsgi' and len(headers) != len(direct.http_headers):
                raise Violation('wsgi: headers %r, expected %r' % (headers, direct.http_headers))
            if got != want:
                raise Violation('%s: content %r, expected %r' % (name, got, want))
    return len(kinds) > 1 or case['status'] != 200 and 'soap' in kinds


def classify(case, r, direct, content):
    """The kind of answer depends on method and query string only."""
    keys = [k for k, v in r['q']]
    status = direct.http_status_code
    ct = direct.http_headers.get('Content-Type', '')
    if r['method'] == 'GET' and ('wsdl' in keys or 'singleWsdl' in keys):
        if case['hook'] is None and (status != 200 or b'definitions' not in content or ct.split(';')[0] != 'text/xml'):
            raise Violation('a WSDL request was answered by %r %r %r' % (status, ct, content[:200]))
        if case['hook'] is None:
            host = ('%s://%s/ws' % (r['proto'] or r['scheme'], r['host'])).encode()
            if b'location="' + host + b'"' not in content:
                raise Violation('no address %r in %r' % (host, content))
        return 'wsdl'
    if r['method'] == 'GET' and 'xsd' in keys:
        first = [v or '' for k, v in r['q'] if k == 'xsd'][0]
        if first in ('inner.xsd', 'a b&c.xsd'):
            ns = b'urn:inner' if first == 'inner.xsd' else b'urn:odd'
            if status != 200 or b'targetNamespace="%s"' % ns not in content or ct.split(';')[0] != 'text/xml':
                raise Violation('a request for schema %r was answered by %r %r %r' % (first, status, ct, content[:200]))
            return 'xsd'
        if status != 404:
            raise Violation('a request for the unknown schema %r was answered by %r %r' % (first, status, content[:200]))
        return 'unknown xsd'
    if r['method'] == 'POST':
        if case['hook']:
            return 'soap'
        S.read_envelope(case['version'], content)
        if ct.split(';')[0] != S.CONTENT_TYPE[case['version']]:
            raise Violation('content type %r' % ct)
        sent = {k.lower() for k, v in case['headers']} - {'content-type'}
        if case['kind'] in ('response', 'read') and b'Fault' not in content:
            if status != case['status']:
                raise Violation('status %r, the handler chose %r' % (status, case['status']))
            if not sent <= {k.lower() for k in direct.http_headers}:
                raise Violation('headers %r, the handler chose %r' % (direct.http_headers, case['headers']))
        elif b'Fault' in content and status != 500:
            raise Violation('a fault with status %r' % status)
        return 'soap'
    if status != 400:
        raise Violation('%s %r was answered by %r %r' % (r['method'], r['q'], status, content[:200]))
    return 'bad'


SUBS = [
    Sub('parity', cases, check, quick=900, thorough=20000, shards=8,
        rule='random service answers x up to four random HTTP requests; non-trivial with several kinds of request or a status chosen by the handler'),
]
