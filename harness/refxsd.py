"""Reference XSD writer: the schema a careful author would write by hand for a model specification (independent of soapfish)."""
import decimal
import re

from lxml import etree

from . import models as M
from . import values as V

XS = 'http://www.w3.org/2001/XMLSchema'
FACET_ORDER = ['pattern', 'enumeration', 'minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'totalDigits', 'fractionDigits',
               'length', 'minLength', 'maxLength', 'whiteSpace']


def _num(v):
    return format(decimal.Decimal(repr(v) if isinstance(v, float) else v), 'f')


def facets(f):
    out = []
    for name in FACET_ORDER:
        if name not in f:
            continue
        v = f[name]
        for item in (v if name == 'enumeration' else [v]):
            if name == 'pattern':
                item = V.pat_regex(item)
            elif not isinstance(item, str):
                item = _num(item)
            out.append('<xs:%s value="%s"/>' % (name, M.esc(item, True)))
    return ''.join(out)


class Writer:
    def __init__(self, spec, inline=(), tprefix='T.', sprefix='S.', gprefix='G.', location='ref:%d', order=None):
        """inline: types to be written in place; order: a function which reorders the declarations of a schema."""
        self.spec = spec
        self.inline, self.tprefix, self.sprefix, self.gprefix, self.location, self.order = inline, tprefix, sprefix, gprefix, location, order

    def prefix(self, s):
        return 't%d' % s

    def type_name(self, i):
        n = self.spec['types'][i]['name']
        return '%s:%s%s' % (self.prefix(self.spec['types'][i]['s']), self.tprefix, n)

    def simple_schema(self):
        return len(self.spec['schemas']) - 1

    def simple_name(self, i):
        return '%s:%s%s' % (self.prefix(self.simple_schema()), self.sprefix, self.spec['simple'][i]['name'])

    def typed(self, head, tr):
        """(attributes, body) for an element or attribute of the type."""
        k = tr['k']
        if k == 'c' and tr['i'] in self.inline:
            return head, self.complex(tr['i'], False)
        if k in 'cl':
            return head + ' type="%s"' % self.type_name(tr['i']), ''
        if k == 'n':
            return head + ' type="%s"' % self.simple_name(tr['i']), ''
        if not tr['f']:
            return head + ' type="xs:%s"' % V.XSD_NAME[tr['b']], ''
        return head, '<xs:simpleType><xs:restriction base="xs:%s">%s</xs:restriction></xs:simpleType>' % (V.XSD_NAME[tr['b']], facets(tr['f']))

    def is_attrs(self, f):
        return f['kind'] == 'ref' and self.spec['groups'][f['g']]['attrs']

    def group(self, i):
        g = self.spec['groups'][i]
        if g['attrs']:
            return '<xs:attributeGroup name="%s%s">%s</xs:attributeGroup>' % (self.gprefix, g['name'], ''.join(self.attribute(f) for f in g['fields']))
        return '<xs:group name="%s%s"><xs:sequence>%s</xs:sequence></xs:group>' % (self.gprefix, g['name'], ''.join(self.element(f) for f in g['fields']))

    def element(self, f):
        if f['kind'] == 'ref':
            return '<xs:group ref="t0:%s%s"/>' % (self.gprefix, self.spec['groups'][f['g']]['name'])
        head = '<xs:element name="%s"' % (f['tag'] or f['name'])
        head, body = self.typed(head, f['type'])
        if f['nil']:
            head += ' nillable="true"'
        if f['kind'] == 'list':
            mx = f['max']
            head += ' minOccurs="%d" maxOccurs="%s"' % (f['min'] or 0, 'unbounded' if mx in (None, 'unbounded') else mx)
        else:
            head += ' minOccurs="%d"' % f['min']
        return head + ('/>' if not body else '>' + body + '</xs:element>')

    def attribute(self, f):
        if f['kind'] == 'ref':
            return '<xs:attributeGroup ref="t0:%s%s"/>' % (self.gprefix, self.spec['groups'][f['g']]['name'])
        head, body = self.typed('<xs:attribute name="%s"' % (f['tag'] or f['name']), f['type'])
        head += ' use="%s"' % f['use']
        return head + ('/>' if not body else '>' + body + '</xs:attribute>')

    def complex(self, i, named=True):
        t = self.spec['types'][i]
        particle = {'Sequence': 'sequence', 'Choice': 'choice', 'All': 'all'}[t['ind']]
        inner = '<xs:%s>%s</xs:%s>' % (particle, ''.join(self.element(f) for f in t['fields'] if f['kind'] != 'attr' and not self.is_attrs(f)), particle)
        inner += ''.join(self.attribute(f) for f in t['fields'] if f['kind'] == 'attr' or self.is_attrs(f))
        if t['base'] is not None:
            inner = '<xs:complexContent><xs:extension base="%s">%s</xs:extension></xs:complexContent>' % (self.type_name(t['base']), inner)
        return '<xs:complexType%s>%s</xs:complexType>' % (' name="%s%s"' % (self.tprefix, t['name']) if named else '', inner)

    def head(self, s, target=True):
        """The start tag of a document of the schema."""
        spec = self.spec
        out = '<xs:schema xmlns:xs="%s"%s elementFormDefault="%s"' % (XS, ' targetNamespace="%s"' % M.esc(spec['schemas'][s], True) if target else '', spec['efd'])
        for j in range(len(spec['schemas'])):
            if target or j != s:
                out += ' xmlns:t%d="%s"' % (j, M.esc(spec['schemas'][j], True))
        return out + '>'

    def items(self, s, tops=True):
        """The declarations of a schema: [((kind, name), text)] where kind is type, group, attributeGroup or element."""
        spec = self.spec
        items = []
        if s == self.simple_schema():
            for i, t in enumerate(spec['simple']):
                base = self.simple_name(t['of']) if t.get('of') is not None else 'xs:' + V.XSD_NAME[t['b']]
                items.append((('type', self.sprefix + t['name']),
                              '<xs:simpleType name="%s%s"><xs:restriction base="%s">%s</xs:restriction></xs:simpleType>' % (self.sprefix, t['name'], base, facets(t['f']))))
        for i in range(len(spec['groups'])) if s == 0 else ():
            g = spec['groups'][i]
            items.append((('attributeGroup' if g['attrs'] else 'group', self.gprefix + g['name']), self.group(i)))
        for i, t in enumerate(spec['types']):
            if t['s'] == s and i not in self.inline:
                items.append((('type', self.tprefix + t['name']), self.complex(i)))
        for tag, ti in (spec.get('elements') or {spec['tag']: spec['root']}).items() if tops else ():
            if M.declared_in(spec, tag, ti) == s:
                head, body = self.typed('<xs:element name="%s"' % tag, {'k': 'c', 'i': ti})
                items.append((('element', tag), head + '>' + body + '</xs:element>'))
        if tops and s == 0:
            for t in spec.get('tops', ()):
                head, body = self.typed('<xs:element name="%s"' % t['tag'], t['type'])
                if t['nil']:
                    head += ' nillable="true"'
                if t.get('subst'):
                    head += ' substitutionGroup="t0:%s"' % t['subst'].split(':')[-1]
                items.append((('element', t['tag']), head + '>' + body + '</xs:element>'))
        return items

    def schema(self, s, tops=True):
        spec = self.spec
        out = self.head(s)
        if s + 1 < len(spec['schemas']):
            out += '<xs:import namespace="%s" schemaLocation="%s"/>' % (M.esc(spec['schemas'][s + 1], True), self.location % (s + 1))
        items = [text for _, text in self.items(s, tops)]
        if self.order:
            items = self.order(items)
        out += ''.join(items)
        return out + '</xs:schema>'


def xml_schema(spec, w=None):
    """lxml XMLSchema for the reference schemas of a spec."""
    w = w or Writer(spec)

    class R(etree.Resolver):
        def resolve(self, url, id_, context):
            return self.resolve_string(w.schema(int(re.search('[0-9]+', url.split('/')[-1]).group())).encode(), context)
    p = etree.XMLParser()
    p.resolvers.add(R())
    # every schema is reachable from the first one through its imports
    return etree.XMLSchema(etree.fromstring(w.schema(0).encode(), p))
