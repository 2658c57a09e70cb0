"""Single source for properties.jsonl (run: python3 tools/mkprops.py)."""
X = 'soapfish/xsd.py'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in (state or [])],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe or [],
            'hook_needed': None,
        },
    })


p('C01', 'Model instances survive an XML round trip',
  'For every declared model and every instance of it, rendering the instance to XML and parsing that XML back with the same model '
  '(from text, bytes or an already parsed element, with or without schema validation) yields equal values in every field: elements, attributes, '
  'lists (length and order), nested and inherited content, choices, group references and explicit nils, and instances read from the same document compare equal. Absent fields stay absent, and '
  'rendering the parsed instance again gives the same document. (A naive dateTime or time reads back as the same instant in UTC, see C04, and an empty element of a number, boolean or date type as absent, see C05.)',
  ['inputs', 'configurations'],
  'all models over elements, list elements, attributes, nesting, inheritance, sequence/all/choice, tag names, form defaults; all accepted values',
  'The tests round-trip a handful of fixed classes with fixed values; the guarantee is over the product of model shapes and values.',
  [X], [('render/parse pairs of every field kind', X), ('ComplexType.parse_xmlelement', X), ('SimpleType.xmlvalue/pythonvalue', X)],
  ['instance.xml()', 'Model.parsexml()', 'Model.parse_xmlelement()', 'Document.render()'])

p('C02', 'Rendered XML is exactly what the model declares',
  'Rendering produces a well-formed document holding exactly the set fields of the instance: elements in declaration order (inherited ones first), under their '
  'declared tag names, in the namespace that the schema, the element form default and per-element namespaces dictate, with attributes as attributes, list items repeated '
  'in list order, nil fields as empty elements marked xsi:nil="true", unset optional content omitted, and every text value escaped so that it reads back unchanged. '
  'Rendering is a pure function of the instance, and it refuses a missing required attribute or a list whose length is outside its declared bounds.',
  ['inputs', 'configurations'],
  'all models and instances, qualified and unqualified, with and without schema, root namespace given or not, multi-schema nesting',
  'Tests compare a few literal documents; order, namespaces, escaping and omission interact over all models and values.',
  [X], [('Element/ListElement/Attribute/Ref.render', X), ('ComplexType.render and xml', X), ('ComplexTypeMetaInfo ordering', X)],
  ['instance.xml()', 'Document.render()'])

p('C03', 'Parsing depends only on the content of the XML document',
  'The instance obtained by parsing depends only on the named elements, attributes and text of the document: insignificant white space, comments, processing instructions, '
  'namespace prefixes, CDATA versus escapes, the document encoding, unknown extra elements or attributes and the relative order of differently named siblings never change it, '
  'and the items of one list keep document order. Every declared field that is present is read with its declared type, nil elements (xsi:nil "true" or "1") read as nil, '
  'and every absent one takes its default or stays unset.',
  ['inputs', 'configurations'],
  'all models, all instance documents, all content-preserving rewritings of those documents',
  'Tests parse canonical documents; a parser must be invariant over the unbounded set of equivalent serialisations real peers produce.',
  [X], [('ComplexType._find_subelement/_is_matching_element', X), ('Element.parse nil handling', X), ('SimpleType.parse_xmlelement', X)],
  ['Model.parsexml()', 'Model.parse_xmlelement()'])

p('C04', 'Dates, times and UTC offsets map faithfully to XSD text',
  'Every date, time and dateTime value the library accepts (whole seconds; with any UTC offset in whole minutes or none) is rendered as a valid XSD lexical form that denotes the same '
  'value, and parsing that form gives back the same fields and the same UTC offset; in particular the sign, hours and minutes of every offset are kept. A naive dateTime or time denotes UTC, is written without an offset or as UTC, and reads back as the same clock time in UTC. '
  'Every valid XSD lexical form in the supported range parses to the value it denotes, and text that is not a calendar date or clock time is rejected with a ValueError rather than read as another value.',
  ['inputs'],
  'all representable calendar values (years 1 to 9999), all offsets between -14:00 and +14:00, all lexical variants, near-miss texts',
  'Tests use a few dates and offsets; sign, padding, leap-day, day-borrow and offset arithmetic errors hide at values nobody sampled.',
  [X, 'soapfish/xsd_types.py', 'soapfish/utils.py'],
  [('Date/DateTime/Time pythonvalue and xmlvalue', X), ('timezone_offset_to_string', 'soapfish/utils.py'), ('XSDDate', 'soapfish/xsd_types.py')],
  ['Element(xsd.Date/DateTime/Time) assign, render, parse', 'XSDDate equality'])

p('C05', 'Numbers and booleans map faithfully to XSD text',
  'Every value accepted by the numeric types (decimal, float, double and the whole integer family) and by boolean is rendered as a valid lexical form of that XSD type denoting the same value, '
  'and parses back to an equal value; every valid lexical form of the type parses to the value it denotes (for decimal, float and double the nearest double). Each integer type accepts exactly the integers of its XSD value space, '
  'and values or texts outside a type\'s space are rejected with a ValueError rather than stored. An empty text, and the text nil, reads as absent.',
  ['inputs'],
  'all Python ints, floats, Decimals, bools and strings near and far from each type boundary; all lexical variants (signs, leading zeros, exponents, INF/NaN where legal)',
  'Boundaries of twelve integer types, float formatting and Decimal handling are sampled by a few constants only.',
  [X], [('Decimal/Integer.accept', X), ('derived integer bounds', X), ('Boolean.pythonvalue/xmlvalue', X), ('Decimal.xmlvalue', X)],
  ['Element(...) assign, render, parse'])

p('C06', 'Declared facets are enforced exactly, wherever a value enters',
  'For every simple type with any combination of facets (enumeration, pattern, length, minLength, maxLength, whiteSpace, minInclusive, maxInclusive, minExclusive, maxExclusive, totalDigits, fractionDigits), '
  'given as arguments or as class attributes of a derived type, a value is accepted if and only if it satisfies all of them, with the boundaries exactly where XSD puts them; the one exception is fractionDigits n > 0, which asks for exactly n fraction digits. Patterns match the whole value. '
  'The verdict is the same whether the value comes by assignment, constructor argument, list append or parsing, and a rejected value raises ValueError.',
  ['inputs', 'configurations'],
  'all facet combinations including zero-valued ones, all base types, values around every boundary, every entry path',
  'Facet interactions, anchoring of patterns and zero bounds are a product space; tests check single facets at one or two points and mostly on one path.',
  [X], [('String.accept', X), ('Decimal._check_restrictions', X), ('Integer facet overrides', X), ('TypedList.append', X)],
  ['setattr on a model', 'Model(**kw)', 'list append', 'Model.parsexml()'])

p('C07', 'Instances are isolated and a rejected change alters nothing',
  'No operation on one instance (assignment, list append, group or nested access, parsing, rendering, construction of further instances) changes the content of any other instance, of its class, or of instances created later. '
  'A value that is refused raises an error and leaves the instance exactly as it was; unknown attribute names, wrong model types and items beyond a list\'s declared maximum are always refused.',
  ['histories', 'inputs'],
  'all interleaved histories of operations over several instances of the same and of related models',
  'Needs histories over several live instances; the tests use one fresh object each, so shared defaults, lists or class-level state would not show.',
  [X], [('ComplexType.__new__ and empty_value', X), ('ComplexType.__setattr__', X), ('TypedList', X), ('Ref.empty_value', X)],
  ['field values of every live instance after every step'],
  [('instance fields', 'values held per instance', X), ('class prototypes', 'type objects shared by all instances of a field', X)])

p('C08', 'Generated XSD is valid and accepts what the model renders',
  'For every schema assembled from models, named simple types, elements and imported or included schemas, the generated XSD is a valid W3C schema that declares every listed type and element under the '
  'target namespace and form default, and any document the model renders for a declared element, given values the model accepts, validates against it. '
  'The same holds for the validator the library builds itself from one schema or from several. (Inherited fields are written into the inheriting type. Models with xsd.Content or with a namespace of their own given to a single element are outside.)',
  ['inputs', 'configurations'],
  'all schemas over the supported constructs, all accepted instances',
  'The schema is produced by one code path and documents by another; the tests compare them on a few fixed models.',
  ['soapfish/py2xsd.py', 'soapfish/xsdspec.py', X],
  [('generate_xsdspec/create_xsd_element/xsd_complexType', 'soapfish/py2xsd.py'), ('schema_validator', 'soapfish/py2xsd.py')],
  ['py2xsd.generate_xsd()', 'py2xsd.schema_validator()'])

p('C09', 'Generated XSD states every constraint of the model',
  'The generated XSD rejects every document that the model forbids: a value outside its simple type or facets, a missing required element or attribute, too few or too many list items, '
  'nil where it is not allowed, misplaced, misnamed or unknown content. For any document it gives the same verdict as a schema written by hand from the model declaration. (The same models are outside as in C08.)',
  ['inputs', 'configurations'],
  'all models, all valid documents and all single or multiple mutations of them',
  'A facet or occurrence bound silently missing from the schema never fails a test that validates good documents only.',
  ['soapfish/py2xsd.py', 'soapfish/xsdspec.py'],
  [('create_xsd_element facets, occurrence and nillable', 'soapfish/py2xsd.py'), ('xsd_simpleType', 'soapfish/py2xsd.py'), ('get_xsd_type', 'soapfish/py2xsd.py')],
  ['lxml.etree.XMLSchema(py2xsd.generate_xsd(schema))'])

p('C10', 'Code generated from an XSD implements that XSD',
  'For every XSD in the supported subset, the generated Python module compiles and imports, and its models read every document valid under the original XSD without losing or altering a value, '
  'write documents that are valid under it and equal to what was read, and regenerate an XSD that accepts and rejects the same documents. '
  'Restrictions, enumerations, occurrence, optionality, nillability, nesting, extension, sequence, choice and all, and keyword-named items all keep their meaning. (Outside the subset: default and fixed values, list and union types, simple content, nested particles, references to groups or elements, wildcards.)',
  ['programs', 'inputs'],
  'all XSD documents over the supported constructs, all documents valid and invalid under them',
  'The input is a program (a schema); tests check that a few fixed schemas generate code that runs, not that the code means the schema.',
  ['soapfish/xsd2py.py', 'soapfish/templates/lib.jinja2', 'soapfish/templates/xsd.jinja2', 'soapfish/utils.py', 'soapfish/xsdspec.py'],
  [('schema_to_py', 'soapfish/xsd2py.py'), ('xsd.jinja2 and lib.jinja2 macros', 'soapfish/templates/lib.jinja2'), ('get_type/known types', 'soapfish/utils.py')],
  ['xsd2py.generate_code_from_xsd()', 'the imported generated module'])

p('C11', 'Code generation treats schema text as data and ignores order',
  'Whatever text a schema or WSDL carries in its enumerations, patterns, namespaces, SOAP actions and addresses, the generated Python is syntactically valid, holds those texts as exactly equal string values (addresses: any URL without an empty query or fragment; patterns: as far as XSD and Python agree on their syntax), and importing it '
  'executes nothing that came from the document. The generated models do not depend on the order in which types, including extension chains, elements and schemas are declared, and generating twice gives the same code.',
  ['inputs', 'programs'],
  'all texts XML allows in those places (quotes, backslashes, newlines, braces, non-ASCII), all permutations of the declarations',
  'Quoting and ordering faults need hostile or unusual input; tests use plain words in one order.',
  ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/templates/lib.jinja2', 'soapfish/templates/wsdl.jinja2', 'soapfish/utils.py'],
  [('string literals in templates', 'soapfish/templates/lib.jinja2'), ('ordering of definitions', 'soapfish/xsd2py.py'), ('ordering of schemas', 'soapfish/wsdl2py.py')],
  ['generated source and the module it defines'])

p('C12', 'Imports and includes resolve once, from the right place, always',
  'For every graph of schema files connected by include and import in any directory layout, including diamonds and cycles, and for WSDL files importing other WSDL files, code generation terminates, reads each reference relative to the document that makes it, '
  'defines every type of every reachable file exactly once before it is needed, and the result does not depend on the current working directory. (The library functions are given the text and directory of the top document; references back to the top document are recognised where its path is known, as in the command line tools.)',
  ['inputs', 'programs'],
  'all file graphs up to a bound, all directory layouts and reference styles',
  'Tests cover three fixed layouts; path rewriting errors depend on the shape of the graph and on traversal order.',
  ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py'],
  [('reading of includes and imports', 'soapfish/xsd2py.py'), ('reading of WSDL imports', 'soapfish/wsdl2py.py'), ('resolve_location', 'soapfish/utils.py')],
  ['the generated module', 'files opened'])

p('C13', 'The generated WSDL describes the service faithfully',
  'For every service, the generated WSDL is valid WSDL 1.1 whose port type, binding and messages list exactly the service\'s operations in order, with each operation\'s SOAP action, style, input and output element or type, '
  'the binding namespace of the service\'s SOAP version, the service address and target namespace, and an inline schema equal to the one generated from the service\'s schemas; every reference in it resolves to a declared name. The version of a binding or envelope namespace is found, and another namespace refused. (SOAP headers are not described in it.)',
  ['configurations', 'inputs'],
  'all services: any number of operations, SOAP 1.1 and 1.2, several schemas, element and type messages',
  'Tests check fragments of a few services; completeness and reference closure are over all services.',
  ['soapfish/py2wsdl.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/wsdl.py'],
  [('build_bindings/build_portTypes/build_messages/build_types', 'soapfish/py2wsdl.py')],
  ['py2wsdl.generate_wsdl()'])

p('C14', 'Code generated from a WSDL implements the service described',
  'For every supported WSDL, SOAP 1.1 or 1.2 (document style, messages of one part with complex content, header parts given by element), the generated client and server modules import and define a service with the same operations, SOAP actions, input and output messages, headers, address, version and schemas as the WSDL; '
  'generated client and generated server interoperate, and a WSDL generated from the generated service describes the same service again.',
  ['programs', 'inputs'],
  'all WSDL documents over the supported constructs, client and server targets, with and without headers',
  'The tests compile code from fixed WSDL files and check few of its attributes.',
  ['soapfish/wsdl2py.py', 'soapfish/templates/wsdl.jinja2', 'soapfish/wsdl.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/soap.py'],
  [('generate_code_from_wsdl', 'soapfish/wsdl2py.py'), ('wsdl.jinja2', 'soapfish/templates/wsdl.jinja2'), ('get_message_object/get_message_header', 'soapfish/wsdl.py')],
  ['wsdl2py.generate_code_from_wsdl()', 'generated SERVICE and Stub'])

p('C15', 'A call reaches its own handler once and its answer comes back',
  'For every service and every valid request, the handler of the operation addressed, by SOAP action when one is sent and otherwise by the body\'s root element or the substitution group it belongs to, is invoked exactly once, no other handler is, '
  'it receives the values and header that were sent, and the caller receives exactly the values and header the handler returned, in a valid envelope of the service\'s SOAP version. '
  'This holds for the library\'s own client against its own dispatcher and for any other conforming serialisation of the request. (The local names of the request elements are distinct within a service, messages are complex types, and an action sent belongs to the body sent.)',
  ['inputs', 'configurations'],
  'all services, operations, values and headers, SOAP 1.1 and 1.2, action present, quoted or absent, any conforming envelope serialisation',
  'Tests call one echo operation with one string; routing and data fidelity are over all services and payloads.',
  ['soapfish/soap.py', 'soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py'],
  [('SOAPDispatcher._find_handler_for_request/_parse_input/_parse_header', 'soapfish/soap_dispatch.py'), ('determine_soap_action', 'soapfish/soap11.py'), ('Envelope.response', 'soapfish/soap11.py'), ('Stub._handle_response', 'soapfish/soap.py')],
  ['handler invocations', 'Stub.call() result', 'response envelope'])

p('C16', 'An invalid request is answered by a fault and runs no handler',
  'Whatever bytes, envelope, headers or SOAP action are posted, dispatching returns a response and never raises: either a handler ran on a request whose body and headers satisfy the service\'s schemas, or no handler ran and the '
  'answer is one well-formed fault envelope of the service\'s SOAP version with a client fault code and HTTP status 500. '
  'Malformed XML, a missing or empty body, schema violations, an unknown action and an unknown root element are always refused. (The namespace of the envelope itself is not checked: an envelope of the other version may be served or refused.)',
  ['inputs', 'fault_sequences'],
  'all request bytes: random and mutated documents, envelopes of the wrong version, invalid bodies and headers, unknown actions',
  'Rejection must hold for every malformed input; tests try a few.',
  ['soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/py2xsd.py', X],
  [('_prepare_request/_parse_soap_content/_validate_input', 'soapfish/soap_dispatch.py'), ('schema_validator', 'soapfish/py2xsd.py')],
  ['SOAPDispatcher.dispatch()', 'handler invocations'])

p('C17', 'Faults carry their code and message to the caller unchanged',
  'A SOAPError raised or returned by a handler or middleware reaches the caller as a fault of the service\'s SOAP version with exactly that code, message and response header, with HTTP status 500, and the client raises a SOAPError with the same code and message; '
  'any other fault envelope (with an actor or role as well) is reported by the client with its own code, message and actor (an empty message reads as absent; the dispatcher writes no actor). '
  'With the fault middleware installed every other exception becomes a server fault naming the exception, without it the exception propagates unchanged; the logging middleware logs exactly the exceptions of the classes given (a tuple, anything else is refused).',
  ['inputs', 'configurations'],
  'all codes, messages and actors XML can carry, all raising places, both SOAP versions',
  'Tests use fixed short messages and one raising place.',
  ['soapfish/core.py', 'soapfish/soap_dispatch.py', 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/soap.py', 'soapfish/middlewares.py'],
  [('handle_soap_request', 'soapfish/soap_dispatch.py'), ('Envelope.error_response/parse_fault_message', 'soapfish/soap11.py'), ('ExceptionToSoapFault', 'soapfish/middlewares.py')],
  ['response envelope and status', 'SOAPError raised by Stub.call()'])

p('C18', 'Middlewares nest in order and hooks run exactly where named',
  'For every list of middlewares the first listed is outermost: each sees the request once on the way in and the response of the next one on the way out, may change the request in place and replace the response, may answer without calling on, and sees exceptions from inside; what the outermost returns is what is sent. '
  'Each registered soap, wsdl or xsd request or response hook runs exactly once for a request of its kind and for no other kind, its result replaces the request or response, and invalid hook names and results are refused.',
  ['configurations', 'inputs', 'histories'],
  'all middleware stacks over pass, modify, short-circuit, raise and catch behaviours; all hook sets; all request kinds',
  'Tests use one or two middlewares; ordering and short-circuit behaviour are over all stacks.',
  ['soapfish/soap_dispatch.py', 'soapfish/middlewares.py'],
  [('SOAPDispatcher.middleware', 'soapfish/soap_dispatch.py'), ('_call_hook', 'soapfish/soap_dispatch.py'), ('ExceptionLogger/ExceptionToSoapFault', 'soapfish/middlewares.py')],
  ['the trace of middleware and hook calls', 'the response'])

p('C19', 'WSGI, Flask and Django expose the same service over HTTP',
  'For every HTTP request (method, query string, headers, body) the WSGI application, the Flask view and the Django view give the same status, headers set by the service and body as dispatching the request itself (for status codes that allow a body), whose choice between SOAP call, WSDL, XSD, '
  'not found (404) and bad request (400) depends only on method and query string. The WSGI application obeys the WSGI protocol for every request, including reading no more than the declared content length.',
  ['inputs', 'configurations'],
  'all methods, query strings, headers and bodies; handler-chosen status codes and headers; both SOAP versions',
  'Tests send one or two requests per framework; parity and protocol conformance are over all requests.',
  ['soapfish/soap_dispatch.py', 'soapfish/flask_.py', 'soapfish/django_.py', 'soapfish/core.py'],
  [('SOAPDispatcher.dispatch', 'soapfish/soap_dispatch.py'), ('WsgiSoapApplication', 'soapfish/soap_dispatch.py'), ('flask_dispatcher', 'soapfish/flask_.py'), ('django_dispatcher', 'soapfish/django_.py'), ('SOAPResponse', 'soapfish/core.py')],
  ['HTTP status, headers, body'])

p('C20', 'Served WSDL and XSD documents form a closed, usable set',
  'Starting from the WSDL a service serves, generated or given by the user, every location of a schema of the service that it or any served schema mentions can be fetched from the same service and yields the schema of that namespace, reachable types included, for any graph of imported and included schemas, cycles too; '
  'unknown names give 404. The service address has its ${scheme} and ${host} placeholders replaced by those of the request and everything else in the document is left as generated.',
  ['configurations', 'inputs'],
  'all import/include graphs of schemas, all locations, all hosts and schemes',
  'Tests serve one imported schema; closure is over all graphs and location strings.',
  ['soapfish/soap_dispatch.py', 'soapfish/utils.py', 'soapfish/py2wsdl.py', 'soapfish/py2xsd.py'],
  [('handle_wsdl_request/handle_xsd_request/_rewrite_locations', 'soapfish/soap_dispatch.py'), ('walk_schema_tree', 'soapfish/utils.py')],
  ['GET ?wsdl', 'GET ?xsd=...'])

p('C21', 'A dispatcher answers each request independently of all others',
  'The response to a request and the values its handler sees depend on that request and the handler only, never on requests served before, concurrently or by another dispatcher of the same or of a different service, whether those succeeded, failed validation or raised. (Handlers give a response object of their own to each request; the dispatchers were constructed before the requests are made.)',
  ['histories', 'schedules'],
  'all histories of valid, invalid, failing and metadata requests over several dispatchers, sequential and concurrent',
  'Leaking state shows only in particular sequences or overlaps; each test starts afresh.',
  ['soapfish/soap_dispatch.py', 'soapfish/soap.py', X],
  [('per-request objects in _prepare_request', 'soapfish/soap_dispatch.py'), ('ComplexType.__new__', X), ('Schema binding of classes', X)],
  ['each response compared with the response of a fresh dispatcher'])

p('C22', 'The client sends exactly the request the service describes',
  'For every call the client makes exactly one HTTP POST to the service location (given as text, computed, or with scheme and host substituted; anything else is refused), with the SOAP action and content type of the service\'s SOAP version, basic credentials exactly when a user name is set, '
  'and a valid envelope of that version holding the parameter under its element name and namespace and the header given. '
  'Whatever response header or body conforms to the method\'s declared output is returned with its values.',
  ['inputs', 'configurations'],
  'all locations, credentials, actions, headers, parameters, both SOAP versions, all conforming responses',
  'The tests replace the transport by one canned exchange.',
  ['soapfish/soap.py', 'soapfish/soap11.py', 'soapfish/soap12.py'],
  [('Stub.__init__ location handling', 'soapfish/soap.py'), ('Stub.call/_handle_response', 'soapfish/soap.py'), ('build_http_request_headers', 'soapfish/soap11.py')],
  ['the prepared HTTP request', 'Stub.call() result'])

p('C23', 'WS-Addressing headers are read, checked and answered correctly',
  'A request\'s WS-Addressing header blocks reach the handler with exactly the action, message id, destination, reply address and relation that were sent; blocks that break the WS-Addressing schema are refused with a client fault before any handler runs. '
  'A header filled from a request relates to its message id, carries its action with "Response" appended and a fresh unique message id, leaves the request header untouched, and renders to valid WS-Addressing elements.',
  ['inputs', 'configurations'],
  'all address, action and id values, all combinations of present, absent and invalid blocks',
  'Tests use one header.',
  ['soapfish/wsa.py', 'soapfish/soap_dispatch.py', 'soapfish/soap.py'],
  [('wsa.Header/fill_header', 'soapfish/wsa.py'), ('_validate_header', 'soapfish/soap_dispatch.py'), ('Service use_wsa', 'soapfish/soap.py')],
  ['request.soap_header in handlers', 'response header'])

p('C24', 'Command line tools produce what the library functions produce',
  'For every input document or module, the four command line tools write, to a file or to standard output, the same code or document as the corresponding library function gives (apart from the time stamp and outer white space), from a file path or standard input, '
  'resolving relative references against the input file, and they exit with status 0; the options select client or server code and WS-Addressing.',
  ['inputs', 'configurations'],
  'all inputs and option combinations, any working directory',
  'The command line entry points are almost untested.',
  ['soapfish/xsd2py.py', 'soapfish/py2xsd.py', 'soapfish/wsdl2py.py', 'soapfish/py2wsdl.py'],
  [('main of each tool', 'soapfish/xsd2py.py')],
  ['stdout or output file, exit status'])

p('C25', 'The schema and WSDL object models lose nothing they understand',
  'Reading any XSD or WSDL document of the supported subset into the library\'s schema or WSDL object model and writing it back preserves every supported construct with its attributes, order and nesting, and reading the result again gives the same document; '
  'attributes and elements it does not know never disturb the ones it knows. (Order is kept within each kind of declaration, and an empty documentation reads as absent.)',
  ['inputs', 'programs'],
  'all XSD and WSDL documents over the supported constructs with foreign attributes, annotations and documentation mixed in',
  'Tests inspect single attributes of single documents.',
  ['soapfish/xsdspec.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', X],
  [('xsdspec classes', 'soapfish/xsdspec.py'), ('wsdl classes', 'soapfish/wsdl11.py')],
  ['Schema.parsexml()/xml()', 'Definitions.parsexml()/xml()'])

p('C26', 'XML that is received never makes the library read anything else',
  'Whatever a request, a response, an instance document, a schema or a WSDL document refers to by external entities, document type definitions, XInclude, schema location hints or processing instructions, reading it neither fetches it nor depends on what it holds or whether it exists: '
  'no content of other files comes out in values, answers or errors. Entities the document declares itself are read as exactly the text they stand for or the document is refused, with or without validation, and a short document which expands to tens of megabytes is refused. '
  '(Includes and imports of schemas and WSDL documents by the code generators are outside, see C12.)',
  ['inputs', 'configurations'],
  'all documents with references to files and HTTP resources by every means XML has, at every entry point which takes XML',
  'No test has a document type declaration.',
  [X, 'soapfish/soap_dispatch.py', 'soapfish/soap.py', 'soapfish/xsd2py.py', 'soapfish/wsdl2py.py'],
  [('ComplexType.parsexml', X), ('_parse_soap_content', 'soapfish/soap_dispatch.py'), ('generate_code_from_xsd', 'soapfish/xsd2py.py'), ('generate_code_from_wsdl', 'soapfish/wsdl2py.py')],
  ['parsed values, responses, errors', 'HTTP requests to a listener'])
