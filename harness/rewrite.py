"""Serialise a reference Node tree in one of many equivalent ways, steered by a list of drawn integers."""
from . import models as M


class Choices:
    """Consumes drawn integers, cyclically; an empty list always answers 0 (the plainest choice)."""

    def __init__(self, ints):
        self.ints, self.i = ints, 0

    def __call__(self, n):
        if not self.ints:
            return 0
        v = self.ints[self.i % len(self.ints)]
        self.i += 1
        return v % n


WS = ['', '\n', '  ', '\t\n ', '\r\n']
COMMENTS = ['<!-- c -->', '<?pi some data?>', '<!--<alpha>x</alpha>-->', '<?xml-like?>', '<!---->', '<?php echo "<beta/>" ?>']
PREFIXES = ['p', 'ns0', 'soap', 'xs', 'a-b', '_']


class Writer:
    """features: set of names out of 'prefix', 'space', 'comment', 'text', 'unknown', 'order', 'nil', 'quote'."""

    def __init__(self, choices, features, avoid=()):
        self.c, self.f, self.avoid = choices, features, set(avoid)
        self.used = set()

    def noise(self):
        s = ''
        if 'space' in self.f:
            s += WS[self.c(len(WS))]
        if 'comment' in self.f and self.c(4) == 3:
            s += COMMENTS[self.c(len(COMMENTS))]
            self.used.add('comment')
        if 'space' in self.f:
            s += WS[self.c(len(WS))]
            self.used.add('space')
        return s

    def text(self, s):
        """Character data with random escaping, CDATA sections and interspersed comments."""
        if 'text' not in self.f:
            return M.esc(s)
        out = []
        i = 0
        while i < len(s):
            n = 1 + self.c(4)
            part = s[i:i + n]
            i += n
            k = self.c(4)
            if k == 1 and part.isascii() and ']]>' not in part and '\r' not in part and part[-1] != ']' and part[0] not in ']>':
                out.append('<![CDATA[%s]]>' % part)
            elif k == 2:
                out.append(''.join('&#%d;' % ord(ch) if self.c(2) else '&#x%X;' % ord(ch) for ch in part))
            else:
                out.append(M.esc(part))
            if 'comment' in self.f and self.c(5) == 4:
                out.append(COMMENTS[self.c(len(COMMENTS))])
            self.used.add('text')
        return ''.join(out)

    def attr(self, s):
        if 'quote' in self.f and self.c(2):
            body = M.esc(s).replace("'", '&#39;').replace('\n', '&#10;').replace('\t', '&#x9;')
            self.used.add('quote')
            return "'%s'" % body
        return '"%s"' % M.esc(s, True)

    def name(self, tag, scope):
        """(qname, declarations, new scope); scope: {prefix: uri}, '' for the default namespace."""
        ns, local = tag[1:].split('}') if tag[0] == '{' else ('', tag)
        decl = []
        scope = dict(scope)
        if ns == '':
            if scope.get('', ''):
                decl.append(('', ''))
                scope[''] = ''
            return local, decl, scope
        options = [p for p, u in scope.items() if u == ns]
        if 'prefix' in self.f:
            k = self.c(3)
            if k == 0 and options:
                p = options[self.c(len(options))]
            elif k == 1:
                p = ''
            else:
                p = PREFIXES[self.c(len(PREFIXES))]
            self.used.add('prefix')
        else:
            p = ''
        if scope.get(p) != ns:
            decl.append((p, ns))
            scope[p] = ns
        return (p + ':' if p else '') + local, decl, scope

    def order(self, kids):
        """Permute differently named siblings; equally named ones keep their order."""
        if 'order' not in self.f or len(kids) < 2:
            return kids
        queues = {}
        for k in kids:
            queues.setdefault(k.tag, []).append(k)
        out = []
        while queues:
            keys = list(queues)
            key = keys[self.c(len(keys))]
            out.append(queues[key].pop(0))
            if not queues[key]:
                del queues[key]
        if [k.tag for k in out] != [k.tag for k in kids]:
            self.used.add('order')
        return out

    def unknown(self):
        cands = [n for n in ['zzUnknown', 'extra', 'x-y.z', 'Alpha'] + V_NAMES if n not in self.avoid]
        n = cands[self.c(len(cands))]
        self.used.add('unknown')
        some = sorted(self.avoid or {'q'})
        known = some[self.c(len(some))]
        inner = ['', 'text', '<inner/>', '<%s>1</%s>' % (known, known)][self.c(4)]
        return '<%s a="1">%s</%s>' % (n, inner, n)

    def write(self, node, scope):
        q, decl, scope = self.name(node.tag, scope)
        parts = []
        for p, u in decl:
            parts.append(' xmlns%s=%s' % (':' + p if p else '', self.attr(u)))
        attrs = [(a, self.attr(M.to_lex(pair))) for a, pair in node.attrs.items()]
        if node.nil:
            p = [x for x, u in scope.items() if u == M.XSI and x]
            if not p:
                p = ['xsi', 'i'][self.c(2) if 'prefix' in self.f else 0]
                parts.append(' xmlns:%s="%s"' % (p, M.XSI))
            else:
                p = p[0]
            attrs.append((p + ':nil', ['"true"', '"1"'][self.c(2) if 'nil' in self.f else 0]))
            if 'nil' in self.f:
                self.used.add('nil')
        if 'unknown' in self.f and self.c(4) == 3:
            cands = [n for n in ['zz', 'xml:lang', 'Alpha'] + V_NAMES if n not in self.avoid]
            attrs.append((cands[self.c(len(cands))], '"u"'))
            if node.attrs and self.c(2):
                parts.append(' xmlns:uu="urn:unknown"')
                attrs.append(('uu:' + next(iter(node.attrs)), '"other"'))
            self.used.add('unknown')
        if 'order' in self.f and len(attrs) > 1 and self.c(2):
            attrs.reverse()
        for a, v in attrs:
            parts.append(' %s=%s' % (a, v))
        head = '<' + q + ''.join(parts)
        if node.nil:
            return head + ['/>', '></%s>' % q][self.c(2)]
        if node.text is not None:
            t = M.to_lex(node.text)
            return head + '>' + self.text(t) + '</' + q + '>'
        if not node.kids:
            return head + ['/>', '></%s>' % q][self.c(2)]
        body = self.noise()
        for k in self.order(node.kids):
            if 'unknown' in self.f and self.c(5) == 4:
                body += self.unknown() + self.noise()
            body += self.write(k, scope) + self.noise()
        if 'unknown' in self.f and self.c(4) == 3:
            body += self.unknown() + self.noise()
        return head + '>' + body + '</' + q + '>'

    def document(self, node):
        return self.noise().lstrip() + self.write(node, {'xml': 'http://www.w3.org/XML/1998/namespace'}) + self.noise()


V_NAMES = ['alpha', 'beta', 'name', 'code', 'value', 'class', 'import', 'item', 'nil', 'type', 'text', 'tag']


def encode(body, encoding):
    """Bytes of the document in an encoding; characters outside it become references (CDATA and comments are ASCII only)."""
    text = '<?xml version="1.0" encoding="%s"?>%s' % (encoding, body)
    return text.encode(encoding, 'xmlcharrefreplace')


def declared_names(spec):
    out = set()
    for t in spec['types'] + spec['groups']:
        for f in t['fields']:
            if f['kind'] not in ('ref', 'content'):
                out.add(f.get('tag') or f['name'])
    return out
