#!/usr/bin/env python3
"""Rewrites the "fixed" entries of known_findings.jsonl from the fix commits in /repo (development tool; checks never write that file)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
    'do not crash when a document with entities is parsed with a schema': ('C26', 'parsing a document which uses an entity with a schema ended the process (segmentation fault in the validating parser)'),
    'do not share an instance given as default between instances': ('C07', 'an instance given as the default of an element was shared by all instances: a change through one of them changed the others and all instances created later'),
    'do not replace generated types by functions or header classes of the same name': ('C14', 'the function generated for an operation (or the class for its headers) replaced the class of a type of the same name'),
    'copies of an instance have its nil values': ('C07', 'a deep copy of an instance with nil values held something else in their place, or could not be made'),
    'a list repeated beyond its maximum length is left unchanged': ('C07', 'items *= n beyond the maximum length was refused after the list had been changed'),
    'refer to the schemas of inherited fields and those of groups when generating XSD': ('C08', 'a type derived from one of another schema referred to types which only that schema imports: the generated schema was invalid'),
    'render xsd.Content as the text of its element': ('C01', 'a type with xsd.Content lost its text when it was rendered'),
    'give every instance its own group for xsd.Ref fields': ('C07', 'all instances of a type shared the group of an xsd.Ref field: a value set on one appeared in the others'),
    'parse references to complex types from their own sub-element': ('C01', 'a reference to a complex type was read from the parent element'),
    'treat xsi:nil the same way for single and repeated elements': ('C03', 'xsi:nil="1" was read as nil for single but not for repeated elements'),
    'parse the member of a choice from its enclosing element': ('C01', 'members of a choice were not read back'),
    'ignore processing instructions when parsing': ('C03', 'a processing instruction between elements made parsing crash'),
    'read the whole text of elements interrupted by comments': ('C03', 'text after a comment within an element was lost'),
    'match sub-elements by their declared tag name only': ('C03', 'an element named like the Python attribute of another field was taken for that field'),
    'use the tag name and the default of attributes consistently': ('C02', 'attributes with a tag name or default were rendered under the Python name or not at all'),
    'match the whole value against pattern facets': ('C06', 'a value of which only the beginning matched a pattern was accepted'),
    'enforce length facets of zero': ('C06', 'length facets with the value zero were not enforced'),
    'normalise white space as XML Schema defines it': ('C06', 'white space other than the one of XML was normalised'),
    'honour the facets given for numeric types and their subclasses': ('C06', 'bounds given for some numeric types were replaced by those of the type or ignored'),
    'check and render numbers by their exact decimal value': ('C05', 'large and small numbers were rendered in exponent notation or counted wrongly by the digits facets'),
    'render four digit years and reject invalid dates and offsets': ('C04', 'years before 1000 were rendered with fewer than four digits; impossible dates and offsets were accepted'),
    'accept all lexical forms of xsd:boolean': ('C05', 'booleans in one of their lexical forms or with white space around were not read'),
    'validate the items of a list however they are added': ('C07', 'items added to a list by other means than append were not validated'),
    'allow elements of their own (recursive) type': ('C01', 'types containing themselves could not be used'),
    'return the parsed document instead of changing its class': ('C07', 'Document.parsexml changed the class instead of returning an instance'),
    'refer to all built-in types in the XSD namespace': ('C08', 'some built-in types were referred to in the target namespace of the schema'),
    'write all facets of simple types into the generated schema': ('C09', 'facets were missing from generated schemas'),
    'write the occurrence bounds of lists without explicit bounds': ('C08', 'lists without bounds were declared to occur once'),
    'generate inline types and nillable for top-level elements': ('C08', 'top-level elements lost inline types and nillable'),
    'refer to the types and elements of other schemas in their own namespace': ('C08', 'references to types of imported schemas used the namespace of the importing one'),
    'validate against any number of schemas wherever they are located': ('C08', 'validation failed for several schemas of one namespace or without locations'),
    'generate schemas for types with attributes': ('C08', 'types with attributes of constrained types made the generation crash'),
    'validate with included schemas which have no location': ('C08', 'included schemas without a location could not be used for validation'),
    'write texts of schemas and WSDL documents as string literals in generated code': ('C11', 'quotes, backslashes and line breaks in a document ended up as code'),
    'generate code for every facet of named and inline simple types': ('C10', 'facets were missing from generated code'),
    'generate valid, unambiguous Python names for all names of a schema': ('C10', 'names of a schema which are no Python identifiers made generated code invalid or ambiguous'),
    'generate code for types defined in place anywhere': ('C10', 'generated code lacked anonymous types'),
    'generate code for base types before the types derived from them': ('C11', 'generated code used base types before their definition, depending on the order of the schema'),
    'refer to schemas by location and only to those which are defined in generated code': ('C12', 'generated code referred to schemas which it does not define'),
    'resolve references of remote documents relative to these': ('C12', 'references in documents read from URLs were resolved against the working directory'),
    'resolve imports of WSDL documents relative to the importing document': ('C12', 'nested imports of WSDL documents were resolved against the first document'),
    'generate XSD for the content of groups': ('C08', 'elements of groups were missing from generated schemas'),
    'generate XSD in place for undeclared types derived from declared ones': ('C08', 'types not declared in a schema were referred to by name'),
    'honour the HTTP status code given to a SOAP response': ('C19', 'the status code of a response was ignored'),
    'name responses which are not declared by a method after their body': ('C18', 'responses for undeclared methods could not be rendered'),
    'call the hook for XSD responses': ('C18', 'the hook for XSD responses was never called'),
    'use the existing header class for services with addressing': ('C23', 'services using addressing failed to find their header class'),
    'find the handlers and types of elements in substitution groups': ('C15', 'substitutable elements of later members of a group found no handler'),
    'refuse SOAP envelopes without usable content': ('C16', 'envelopes without body element made the dispatcher crash'),
    'escape characters in fault messages which XML does not allow': ('C17', 'an exception whose message holds control characters made the dispatcher crash'),
    'read the SOAP action from the headers WSGI provides': ('C15', 'HTTP_SOAPACTION was ignored'),
    'return bytes from the WSGI application': ('C19', 'the WSGI application returned text instead of bytes'),
    'serve all schemas of a service which have a location': ('C20', 'schemas imported by imported schemas were not served'),
    'substitute the scheme and host of a WSDL document literally': ('C20', 'hosts with backslashes or markup damaged the WSDL document'),
    'give dispatchers the same environment and content for all frameworks': ('C19', 'Django and Flask gave the dispatcher other header names or no content'),
    'substitute the scheme and host in locations only': ('C20', 'placeholders in other places than locations were substituted'),
    'read response headers declared for the whole service': ('C15', 'clients ignored response headers declared for the service'),
    'render the content of header blocks in the form of its schema': ('C15', 'the content of header blocks was always qualified'),
    'do not take a body element named message for the field of the body': ('C15', 'a body element named "message" was not found'),
    'let middlewares use the environment as a mapping with Django': ('C19', 'request.environ was no mapping with Django'),
    'substitute hosts in single-quoted locations as well': ('C20', 'placeholders in single-quoted locations were not substituted'),
    'look up elements in schemas which refer to each other': ('C15', 'schemas importing each other made the lookup of elements recurse without end'),
    'make the mixed attribute of complexContent optional': ('C25', 'complexContent without mixed could not be written'),
    'allow schemas without a target namespace': ('C25', 'a schema without target namespace could not be written'),
    'do not take elements of another namespace for those declared with a namespace': ('C25', 'constructs of the other SOAP version or of the HTTP binding were read as those of this SOAP version'),
    'write WSDL documentation and extensibility elements where WSDL 1.1 wants them': ('C13', 'generated WSDL documents were not valid: soap:binding and soap:operation came last'),
    'name the parts of WSDL messages as declared by the method': ('C13', 'inputPartName and outputPartName were ignored'),
    'qualify body elements with the namespace they are declared in': ('C15', 'a body element declared in another schema than its type was written in the namespace of the type'),
    'send an empty SOAP action for methods without one': ('C22', 'a method without SOAP action was called with the action "None" (SOAP 1.2) or no SOAPAction header at all'),
    'resolve the prefixes of each schema of a WSDL on their own': ('C14', 'types without a prefix were taken for those of XML Schema when another inline schema used the default namespace for XML Schema'),
    'keep dollar signs in service locations of generated code': ('C14', 'a $ in the address of a port was substituted'),
    'generate valid Python for any names, message types and one-way operations of a WSDL': ('C14', 'operations, ports, elements and messages whose names are no Python identifiers, hide what the code needs or are those of attributes of the stub broke the generated code; so did messages by type'),
    'generate header classes for blocks of any name, schema or message': ('C14', 'header blocks whose part is not named like the element, which are declared in several schemas, or whose message is input and output at once'),
    'let modules given to py2xsd and py2wsdl refer to themselves by name': ('C24', 'py2xsd and py2wsdl failed for a module whose classes refer to each other as __name__ + ".X"'),
    'define everything a type or schema needs before it in code for schemas which refer to each other': ('C12', 'code for schemas which import or include each other (or use types declared further down) failed with a NameError or lacked what only the other one declares'),
    'do not generate code twice for a schema which is included or imported by those it refers to': ('C12', 'xsd2py defined the classes of the main document twice when another one refers back to it'),
    'determine the SOAP version from imported WSDL documents too and do not import the main document again': ('C12', 'the SOAP 1.2 binding of an imported WSDL document was taken for SOAP 1.1; a main document imported by others was processed twice'),
    'generate code for references whose prefix is declared by an element within the schema': ('C10', 'a type of XML Schema whose prefix is declared by the element which refers to it was taken for a type of the schema itself'),
    'give a service the target namespace of the WSDL document which defines it': ('C12', 'a service from an imported WSDL document got the target namespace of the main one'),
    'do not assign the target namespace of a WSDL document to schemas without one which only import others': ('C12', 'a schema without target namespace which only imports the one of the WSDL document was made part of it and became invalid'),
    'tell messages, port types and bindings of the same name in different WSDL documents apart': ('C12', 'references to messages, port types and bindings were resolved by local name only'),
    'do not rename fields which are used under several names': ('C07', 'an element used as a field of two classes under different names was read and set by the name of the last one'),
}


def main():
    path = os.path.join(V, 'known_findings.jsonl')
    with open(path) as f:
        entries = [json.loads(line) for line in f if line.strip()]
    entries = [e for e in entries if e['status'] != 'fixed']
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
    left = dict(FIXED)
    for line in log.splitlines():
        commit, _, subject = line.partition(' ')
        if subject.startswith('fix: ') and subject[5:] in left:
            prop, what = left.pop(subject[5:])
            entries.append({'property': prop, 'status': 'fixed', 'commit': commit, 'what': 'fixed: property=%s %s %s' % (prop, commit, what)})
        elif subject.startswith('fix: ') and not any(c in subject for c in ('#',)):
            print('not recorded:', line)
    for subject in left:
        print('no commit for:', subject)
    with open(path, 'w') as f:
        for e in entries:
            f.write(json.dumps(e, sort_keys=True) + '\n')


if __name__ == '__main__':
    main()
