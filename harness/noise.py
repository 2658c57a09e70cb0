"""What documents written by other tools carry along and what must not make a difference: documentation, comments, foreign attributes and elements."""
from hypothesis import strategies as st
from lxml import etree

XS = '{http://www.w3.org/2001/XMLSchema}'
WSDL = '{http://schemas.xmlsoap.org/wsdl/}'
FOREIGN = 'urn:foreign:tool'
TEXTS = ['about this', '"quoted" \'text\'', "'''", '"""', '\\', 'x\n# y', '{{ 1 // 0 }}', '{% raise %}', '\u2028', '${host}', '']

noises = st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 47), min_size=3, max_size=12))


def add(xml, picks):
    """The document with additions; the same one without picks."""
    if not picks:
        return xml
    root = etree.fromstring(xml.encode())
    counter = iter(range(10 ** 9))

    def pick():
        k = next(counter)
        return picks[k % len(picks)] + k // len(picks) * 5
    ids = 0
    for e in list(root.iter(etree.Element)):
        n = pick()
        text = TEXTS[(n // 7) % len(TEXTS)]
        if any(a.tag == XS + 'annotation' for a in [e, *e.iterancestors()]):
            continue
        if e.tag.startswith(XS):
            if n % 3 == 0 and (e.tag == XS + 'schema' or e.find(XS + 'annotation') is None):
                e.insert(0, annotation(text, n))
            if n % 4 == 1 and e.tag != XS + 'schema':
                ids += 1
                e.set('id', 'n%d' % ids)
            if n % 5 == 1:
                e.set('{%s}hint' % FOREIGN, text)
            if n % 7 == 1 and e.tag in (XS + 'complexType', XS + 'element') and (e.tag == XS + 'complexType' and e.get('name') or e.getparent().tag == XS + 'schema'):
                e.set('abstract', 'false')
                e.set('final', '')
            if n % 7 == 2 and e.tag == XS + 'schema':
                e.set('version', text)
                e.set('attributeFormDefault', 'unqualified')
                e.set('{http://www.w3.org/XML/1998/namespace}lang', 'en')
            if n % 7 == 3 and e.tag in (XS + 'sequence', XS + 'choice', XS + 'all'):
                e.set('minOccurs', '1')
                e.set('maxOccurs', '1')
        elif e.tag.startswith(WSDL):
            if n % 3 == 0 and e.find(WSDL + 'documentation') is None and e.getparent() is not None:
                documentation = etree.Element(WSDL + 'documentation')
                documentation.text = text
                if n % 2:
                    etree.SubElement(documentation, '{http://www.w3.org/1999/xhtml}p').text = text
                e.insert(0, documentation)
            if n % 4 == 1 and e.tag in [WSDL + x for x in ('binding', 'service', 'port', 'definitions', 'operation')]:
                at = 1 if len(e) and e[0].tag == WSDL + 'documentation' else 0
                policy = etree.Element('{http://www.w3.org/ns/ws-policy}' + ('Policy' if n % 2 else 'PolicyReference'))
                policy.set('URI', '#x')
                etree.SubElement(policy, '{http://www.w3.org/ns/ws-policy}All')
                e.insert(at, policy)
            if n % 4 == 2 and e.tag == WSDL + 'binding':
                etree.SubElement(e, '{http://www.w3.org/2006/05/addressing/wsdl}UsingAddressing').set(WSDL + 'required', 'false')
            if n % 4 == 3 and e.tag in (WSDL + 'input', WSDL + 'output'):
                e.set('{http://www.w3.org/2006/05/addressing/wsdl}Action', text or 'urn:x')
            if picks[0] % 2 and e.tag in (WSDL + 'input', WSDL + 'output'):
                e.set('name', 'n' + e.tag[-3:])
            if n % 5 == 1 and e.tag == WSDL + 'definitions':
                e.append(etree.Element('{urn:foreign:tool}partnerLinkType'))
        if n % 5 == 2 and len(e):
            e.insert(n % (len(e) + 1) if e.tag not in (WSDL + 'types',) else 0, etree.Comment(' %s ' % text.replace('--', '')))
        if n % 11 == 3 and len(e):
            e.append(etree.ProcessingInstruction('tool', text))
        if n % 6 == 5 and len(e):  # pretty printed
            e.text = '\n  '
            for k in e:
                k.tail = '\n  '
    out = etree.tostring(root, encoding='unicode')
    n = pick()
    if n % 3 == 0:
        out = '<!-- %s -->' % TEXTS[n % len(TEXTS)] + out
    return out


CODECS = ['utf-8', 'utf-8', 'utf-8', 'utf-8-sig', 'utf-16', 'iso-8859-1', 'us-ascii']


def encode(xml, codec):
    """The document as bytes in an encoding it declares."""
    if codec in ('iso-8859-1', 'us-ascii'):
        return etree.tostring(etree.fromstring(xml.encode()), encoding=codec, xml_declaration=True)
    return xml.encode(codec)


def annotation(text, n):
    a = etree.Element(XS + 'annotation')
    if n % 2:
        d = etree.SubElement(a, XS + 'documentation')
        d.text = text
        d.set('{http://www.w3.org/XML/1998/namespace}lang', 'en')
        etree.SubElement(d, '{http://www.w3.org/1999/xhtml}p').text = text
    else:
        i = etree.SubElement(a, XS + 'appinfo', source='urn:x')
        i.text = text
        etree.SubElement(i, XS + 'element', name='decoy', type='decoy')
        etree.SubElement(i, '{urn:foreign:tool}schema').text = text
    return a
