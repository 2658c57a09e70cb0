"""Reference WSDL writer: the document a careful author would write by hand for a service specification (independent of soapfish)."""
from . import models as M
from . import services as S

BINDING = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
HTTP = 'http://schemas.xmlsoap.org/soap/http'
BLOCKS = ['types', 'message', 'portType', 'binding', 'service']
XS = 'http://www.w3.org/2001/XMLSchema'


def attr(name, value):
    return '' if value is None else ' %s="%s"' % (name, M.esc(value, True))


class Writer:
    """shape: how to write the document (see checks/c14.py); schemas: the texts of the inline schemas in order."""

    def __init__(self, svc, shape, schemas, type_name, spaces=None):
        """spaces: the target namespaces of the documents with the groups, if these are not in one document."""
        self.svc, self.shape, self.schemas, self.type_name, self.spaces = svc, shape, schemas, type_name, spaces
        self.w = 'wsdl:' if shape['prefix'] else ''

    def tag(self, name, attrs='', content=None):
        doc = '' if not self.shape['docs'] or name in ('part', 'import', 'definitions') else '<%sdocumentation>about &lt;%s&gt;</%sdocumentation>' % (self.w, name, self.w)
        if content is None and not doc:
            return '<%s%s%s/>' % (self.w, name, attrs)
        return '<%s%s%s>%s%s</%s%s>' % (self.w, name, attrs, doc, content or '', self.w, name)

    def ref(self, group, name):
        return (group[0] + 'ns:' if self.spaces else 'tns:') + name

    def local(self, name, ref, namespace):
        """An attribute with a qualified name, whose prefix may be declared (again) at the element itself."""
        mode = self.shape.get('local')
        prefix, _, local = ref.partition(':')
        if mode is None or not namespace:
            return attr(name, ref)
        if mode == 'default' and self.w:
            return attr('xmlns', namespace) + attr(name, local)
        prefix = {'own': 'q', 'default': 'q', 'swap': {'t0': 't1', 't1': 't0', 'tns': 't0'}.get(prefix, 'tns')}[mode]
        return attr('xmlns:' + prefix, namespace) + attr(name, prefix + ':' + local)

    def group(self, name, group, local):
        """A reference to a message, port type or binding."""
        return self.local(name, self.ref(group, local), self.spaces[group] if self.spaces else self.svc['tns'])

    def message_ref(self, message):
        """element= or type= of a part."""
        spec = self.svc['spec']
        if 'cls' in message:
            ref = self.type_name(message['cls'])
            return self.local('type', ref, spec['schemas'][int(ref[1:ref.index(':')])])
        s = S.element_schema(self.svc, message['tag'])
        return self.local('element', 't%d:%s' % (s, message['tag']), spec['schemas'][s])

    def messages(self):
        out = []
        written = set()

        def new(name):
            if name in written:
                return False
            written.add(name)
            return True
        for k, op in enumerate(self.svc['ops']):
            names = self.shape['ops'][k]
            if new(names['in']):
                out.append(self.tag('message', attr('name', names['in']), self.tag('part', attr('name', names['parts'][0]) + self.message_ref(op['in']))))
            if not op.get('oneway') and new(names['out']):
                out.append(self.tag('message', attr('name', names['out']), self.tag('part', attr('name', names['parts'][1]) + self.message_ref(op['out']))))
        for h, header in enumerate(self.svc['headers']):
            parts = [self.tag('part', attr('name', self.shape['parts'][h][i]) + self.local('element', 't0:' + f['tag'], self.svc['spec']['schemas'][0])) for i, f in enumerate(header['fields'])]
            if self.shape['split']:  # one message per header block
                out += [self.tag('message', attr('name', 'head.%d.%d' % (h, i)), p) for i, p in enumerate(parts)]
            else:
                out.append(self.tag('message', attr('name', 'head.%d' % h), ''.join(parts)))
        return out

    def headers(self, h):
        out = ''
        for i, f in enumerate(self.svc['headers'][h]['fields'] if h is not None else ()):
            out += '<soap:header%s part="%s" use="literal"/>' % (self.group('message', 'message', ('head.%d.%d' % (h, i)) if self.shape['split'] else 'head.%d' % h), self.shape['parts'][h][i])
        return out

    def port_type(self):
        ops = ''
        order = self.shape.get('port_order') or range(len(self.svc['ops']))
        for k in order:
            op = self.svc['ops'][k]
            names = self.shape['ops'][k]
            io = self.tag('input', self.group('message', 'message', names['in']))
            if not op.get('oneway'):
                io += self.tag('output', self.group('message', 'message', names['out']))
            ops += self.tag('operation', attr('name', op['name']), io)
        return self.tag('portType', attr('name', self.shape['portType']), ops)

    def bindings(self):
        second = self.shape.get('second')
        n = len(self.svc['ops'])
        return [self.binding(self.shape['binding'], range(n))] + ([self.binding(self.shape['binding'] + '2', second['ops'])] if second and second['own'] else [])

    def binding(self, name, chosen):
        ops = ''
        for k, op in [(k, self.svc['ops'][k]) for k in chosen]:
            body = '<soap:body use="literal"/>'
            io = ''
            if op['action'] is not None or op['style']:
                io += '<soap:operation%s%s/>' % (attr('soapAction', op['action']), attr('style', op['style']))
            io += self.tag('input', '', body + self.headers(op.get('inh')))
            if not op.get('oneway'):
                io += self.tag('output', '', (self.headers(op.get('outh')) + body) if self.shape['header_first'] else body + self.headers(op.get('outh')))
            ops += self.tag('operation', attr('name', op['name']), io)
        return self.tag('binding', attr('name', name) + self.group('type', 'portType', self.shape['portType']),
                        '<soap:binding%s transport="%s"/>' % (attr('style', self.shape['style']), HTTP) + ops)

    def service(self):
        ports = self.tag('port', attr('name', self.shape['port']) + self.group('binding', 'binding', self.shape['binding']), '<soap:address%s/>' % attr('location', self.svc['location']))
        second = self.shape.get('second')
        if second:
            port = self.tag('port', attr('name', second['port']) + self.group('binding', 'binding', self.shape['binding'] + ('2' if second['own'] else '')), '<soap:address%s/>' % attr('location', second['location']))
            if second['service']:
                return self.tag('service', attr('name', self.svc['name']), ports) + self.tag('service', attr('name', self.svc['name'] + '2'), port)
            ports += port
        if self.shape['other']:
            other = self.tag('port', attr('name', 'OtherPort') + attr('binding', self.ref('binding', 'OtherBinding')), '<http:address location="http://other.example/"/>')
            ports = other + ports if self.shape['other'] == 'first' else ports + other
        return self.tag('service', attr('name', self.svc['name']), ports)

    def other_binding(self):
        """A binding of another protocol: not for this library."""
        if not self.shape['other']:
            return []
        return [self.tag('portType', attr('name', 'OtherPortType')),
                self.tag('binding', attr('name', 'OtherBinding') + attr('type', self.ref('portType', 'OtherPortType')), '<http:binding verb="GET"/>')]

    def decoys(self):
        """What has the same names in another namespace."""
        names = sorted({n for op in self.shape['ops'] for n in (op['in'], op['out'])})
        out = [self.tag('message', attr('name', n), self.tag('part', attr('name', 'decoy') + ' type="tns:Decoy"')) for n in names]
        operation = self.tag('operation', attr('name', 'decoy'), self.tag('input', attr('message', 'tns:' + names[0])) + self.tag('output', attr('message', 'tns:' + names[0]))) if names else ''
        out.append(self.tag('portType', attr('name', self.shape['portType']), operation))
        out.append(self.tag('binding', attr('name', self.shape['binding']) + attr('type', 'tns:' + self.shape['portType']), '<soap:binding style="rpc" transport="%s"/>' % HTTP))
        return out

    def document(self, chosen=None, tns=None, imports=(), decoys=False):
        """The document with the chosen groups; imports: [(namespace, location)]."""
        spec = self.svc['spec']
        chosen = BLOCKS if chosen is None else chosen
        tns = self.svc['tns'] if tns is None else tns
        groups = {'types': [self.tag('types', '', ''.join(self.schemas))] if self.schemas else [], 'message': self.messages(), 'portType': [self.port_type()], 'binding': self.bindings(),
                  'service': [self.service()]}
        other = self.other_binding()
        if other:
            groups['portType'].append(other[0])
            groups['binding'].append(other[1])
        content = ''.join(self.tag('import', attr('namespace', n) + attr('location', x)) for n, x in imports)
        content += ''.join(''.join(reversed(groups[g]) if self.shape['reverse'] and g == 'message' else groups[g]) for g in self.shape['order'] if g in chosen)
        content += ''.join(self.decoys()) if decoys else ''
        ns = 'xmlns:wsdl="http://schemas.xmlsoap.org/wsdl/"' if self.shape['prefix'] else 'xmlns="http://schemas.xmlsoap.org/wsdl/"'
        ns += ' xmlns:soap="%s" xmlns:http="http://schemas.xmlsoap.org/wsdl/http/"' % BINDING[self.svc['version']]
        if tns:
            ns += ' targetNamespace="%s"' % M.esc(tns, True)
        if not self.spaces or decoys:
            ns += ' xmlns:tns="%s"' % M.esc(tns, True)
        for g in ('message', 'portType', 'binding') if self.spaces else ():
            ns += ' xmlns:%sns="%s"' % (g[0], M.esc(self.spaces[g], True))
        for j, n in enumerate(spec['schemas']):
            ns += ' xmlns:t%d="%s"' % (j, M.esc(n, True))
        return '<%sdefinitions %s%s>%s</%sdefinitions>' % (self.w, ns, attr('name', self.shape['name']), content, self.w)
