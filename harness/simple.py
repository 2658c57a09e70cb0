"""One-field models for simple types: every place a simple value can live."""
import xml.etree.ElementTree as ET

PLACES = ['elem', 'attr', 'list', 'content', 'group', 'agroup']


def holder(xsd, type_, place, **kw):
    """A model class with one field 'v' of the simple type, living at the given place."""
    if place == 'elem':
        return type('H', (xsd.ComplexType,), {'v': xsd.Element(type_, **kw)})
    if place == 'attr':
        return type('H', (xsd.ComplexType,), {'v': xsd.Attribute(type_, **kw)})
    if place == 'list':
        return type('H', (xsd.ComplexType,), {'v': xsd.ListElement(type_, 'v', **kw)})
    if place == 'content':
        return type('H', (xsd.ComplexType,), {'v': xsd.Content(type_, **kw)})
    if place == 'group':
        g = type('G', (xsd.Group,), {'v': xsd.Element(type_, **kw)})
        return type('H', (xsd.ComplexType,), {'g': xsd.Ref(g)})
    g = type('G', (xsd.AttributeGroup,), {'v': xsd.Attribute(type_, **kw)})
    return type('H', (xsd.ComplexType,), {'g': xsd.Ref(g)})


def put(obj, place, value):
    if place == 'list':
        obj.v.append(value)
    elif place in ('group', 'agroup'):
        obj.g.v = value
    else:
        obj.v = value


def get(obj, place):
    if place == 'list':
        return obj.v[0] if len(obj.v) == 1 else list(obj.v)
    if place in ('group', 'agroup'):
        return obj.g.v
    return obj.v


def text_of(xml, place):
    el = ET.fromstring(xml)
    if place in ('attr', 'agroup'):
        return el.get('v')
    if place == 'content':
        return el.text
    kid = el.find('v')
    return None if kid is None else kid.text


def doc(text, place):
    """A document holding the text at the place (written without the library)."""
    el = ET.Element('h')
    if place in ('attr', 'agroup'):
        el.set('v', text)
    elif place == 'content':
        el.text = text
    else:
        ET.SubElement(el, 'v').text = text
    return ET.tostring(el)


_validators = {}


def libxml2_accepts(xsd_type, text):
    """Is `text` a valid lexical form of the built-in type, by libxml2?"""
    from lxml import etree
    if xsd_type not in _validators:
        _validators[xsd_type] = etree.XMLSchema(etree.fromstring(
            '<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="v" type="xs:%s"/></xs:schema>' % xsd_type))
    el = etree.Element('v')
    el.text = text
    return _validators[xsd_type].validate(el)
