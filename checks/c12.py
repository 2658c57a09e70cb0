"""C12: code generated from documents which include and import each other implements all of them, once."""
import os
import posixpath
import re
import tempfile

from hypothesis import strategies as st
from lxml import etree

from checks import c09, c10, c14, c24
from harness import layouts as L
from harness import models as M
from harness import noise
from harness import refwsdl
from harness.core import HarnessError, Reject, Sub, Violation

TECHNIQUE = 'property-based testing: schemas and services distributed at random over files in nested directories or on the web, compiled and compared with the same documents in one piece'
NOTE = 'A document given to the functions as text is not referred to by others (its location is unknown).'

WAYS = ['cwd', 'slash', 'relative', 'chdir', 'cli', 'element']


@st.composite
def cases(draw):
    spec = draw(c10.specs())
    v = draw(M.instances(spec, spec['root'], c10.O, full=True))
    spec['rich'] = False
    spec['tops'] = []
    return {'spec': spec, 'v': v, 'docs': draw(st.lists(c09.muts_strategy(), max_size=2)), 'topdocs': [], 'how': 'assign',
            'layout': draw(L.layouts(len(spec['schemas']))), 'way': draw(st.sampled_from(WAYS)), 'noise': draw(noise.noises)}


def compile_files(case, top, tmp, program, function, options=(), **kw):
    """The code generated from the first of the files, found in the given way."""
    where = case['layout']['where'] == 'remote'
    path = os.path.join(tmp, top)
    with open(path, 'rb') as f:
        xml = f.read()
    with c24.web(tmp):
        if case['way'] == 'cli':
            code, out = c24.run_here(program, [*options, L.SITE + top if where else path], '/', b'', False)
            if code not in (0, None):
                raise Violation('%s returned %r' % (program, code))
            return out
        old = os.getcwd()
        cwd = posixpath.dirname(L.SITE + top) if where else os.path.dirname(path)
        try:
            if case['way'] == 'slash':
                cwd += '/'
            elif case['way'] == 'relative' and not where:
                os.chdir(tmp)
                cwd = os.path.relpath(cwd)
            elif case['way'] == 'chdir' and not where:
                os.chdir(cwd)
                cwd = None
            if case['way'] == 'element':
                xml = etree.fromstring(xml)
            return function(xml, cwd=cwd, **kw)
        finally:
            os.chdir(old)


def known_path(case, files):
    """What refers to the first document has to know its location."""
    if not any(0 in f.includes + f.imports for f in files):
        return None
    if case['way'] == 'slash':
        raise Reject
    return [L.SITE + files[0].path if case['layout']['where'] == 'remote' else posixpath.basename(files[0].path)]


def judge_classes(spec, code, shown):
    w = c10.writer(spec)
    types = {c10.class_name(w.tprefix + t['name']) for t in spec['types']} | {c10.class_name(w.sprefix + t['name']) for t in spec['simple']}
    defined = [name for name in re.findall(r'^class (\w+)\(', code.decode(), re.M) if name in types]
    if len(set(defined)) != len(defined):
        raise Violation('classes defined more than once: %r\n%s\n%s' % (defined, '\n'.join(shown), code.decode()))


def check(case):
    from soapfish import xsd2py
    w, ref = c10.prepare(case)
    layout = case['layout']
    files = L.build(layout, w, to_top=True)
    known = known_path(case, files)
    texts = [noise.add(L.text_of(layout, files, k, w), case['noise']) for k in range(len(files))]
    shown = ['%s:\n%s' % (f.path, t) for f, t in zip(files, texts)]
    with tempfile.TemporaryDirectory() as tmp:
        for f, t in zip(files, texts):
            c24.place(tmp, f.path, t)
        try:
            code = compile_files(case, files[0].path, tmp, 'xsd2py', xsd2py.generate_code_from_xsd, known_paths=known)
        except Exception as e:
            raise Violation('%r\n%s' % (e, '\n'.join(shown))) from e
    judge_classes(case['spec'], code, shown)
    try:
        return c10.judge(case, w, ref, shown, code, regenerate=not flattened(files)) and len(files) > 1 or len(files) > 2
    except Violation:
        raise
    except Exception as e:
        raise Violation('%r\n%s\n%s' % (e, '\n'.join(shown), code.decode())) from e


def flattened(files):
    """Does a type inherit a field of a namespace which its own file does not import? (Generated XSDs have no inheritance.)"""
    texts = {(f.s, key[1]): text for f in files for key, text in f.items if key[0] == 'type'}
    for f in files:
        allowed = {f.s} | {files[j].s for j in f.imports}
        todo = [text for _, text in f.items]
        for text in todo:
            for kind, s, name in L.references(text):
                if s not in allowed:
                    return True
                if kind == 'base' and texts[s, name] not in todo:
                    todo.append(texts[s, name])
    return False


# --- WSDL documents -----------------------------------------------------------------------------------------
@st.composite
def wsdl_cases(draw):
    case = draw(c14.cases())
    n = len(case['svc']['spec']['schemas'])
    case['layout'] = draw(L.layouts(n))
    case['files'] = draw(L.wsdl_layouts(n))
    case['way'] = draw(st.sampled_from(WAYS))
    return case


class Wsdl:
    inline = True

    def __init__(self, path, tns):
        self.path, self.tns, self.groups, self.schemas, self.imports = path, tns, [], [], []
        self.s = 0


def wsdl_files(case):
    """[(path, text)] of the documents, the one to start from first."""
    svc, spec, layout, how = case['svc'], case['svc']['spec'], case['layout'], case['files']
    w = c10.writer(spec)
    docs = [Wsdl(path, svc['tns']) for path in how['paths']]
    home = dict(zip(('message', 'portType', 'binding', 'service'), how['assign']), types=0)
    for g in refwsdl.BLOCKS[1:]:
        docs[home[g]].groups.append(g)
    if how['tns'] != 'same':  # the documents have namespaces of their own, the one with the service that of the service
        for k, d in enumerate(docs):
            d.tns = svc['tns'] if k == home['service'] else 'urn:part:%d' % k
        if how['tns'] == 'none' and not docs[0].groups:
            docs[0].tns = ''
    for k in range(1, len(docs)):
        docs[how['parents'][k] % k].imports.append(k)
    for a, b in [(home['service'], home['binding']), (home['binding'], home['portType']), (home['binding'], home['message']), (home['portType'], home['message'])] if how['needed'] else ():
        if a != b and b not in docs[a].imports:
            docs[a].imports.append(b)
    for a, b in how['extra']:
        if (a < b or how['cyclic']) and b not in docs[a].imports:
            docs[a].imports.append(b)
    # schemas
    files = L.build(layout, w)
    mains = [next(k for k, f in enumerate(files) if f.s == s) for s in range(len(spec['schemas']))]
    inline = how['inline']
    for s, k in enumerate(mains):
        if inline[s]:
            files[k].inline, files[k].chameleon = True, False
            files[k].path = posixpath.join(posixpath.dirname(docs[how['schemas'][s]].path), '-')
    texts = [L.text_of(layout, files, k, w) for k in range(len(files))]
    for s in case['schemas']:
        d = docs[how['schemas'][s]]
        if inline[s]:
            d.schemas.append(texts[mains[s]])
        elif s == 0:
            at = L.relate(layout, d, files[mains[0]], 7)
            if how['stub'] == 'include':
                d.schemas.append('%s<xs:include schemaLocation="%s"/></xs:schema>' % (w.head(0), M.esc(at, True)))
            else:
                d.schemas.append('<xs:schema xmlns:xs="%s"%s><xs:import namespace="%s" schemaLocation="%s"/></xs:schema>' % (
                    refwsdl.XS, '' if how['stub'] == 'import' else ' targetNamespace="urn:imports"', M.esc(spec['schemas'][0], True), M.esc(at, True)))
    spaces = {g: docs[home[g]].tns for g in refwsdl.BLOCKS} if how['tns'] != 'same' else None
    out = []
    for k, d in enumerate(docs):
        writer = refwsdl.Writer(svc, case['shape'], d.schemas, w.type_name, spaces)
        imports = [(docs[j].tns, L.relate(layout, d, docs[j], k + i)) for i, j in enumerate(d.imports)]
        if how['reverse']:
            imports.reverse()
        decoys = how['decoys'] and spaces and d.tns and not any(spaces[g] == d.tns for g in refwsdl.BLOCKS[1:4])
        out.append((d.path, writer.document(['types', *d.groups], d.tns, imports, decoys)))
    return out + [(f.path, t) for f, t in zip(files, texts) if not f.inline]


def check_wsdl(case):
    from soapfish import wsdl2py
    c14.prepare(case)
    documents = [(path, noise.add(text, case['noise'])) for path, text in wsdl_files(case)]
    shown = ['%s:\n%s' % d for d in documents]
    code = {}
    with tempfile.TemporaryDirectory() as tmp:
        for path, text in documents:
            if os.path.exists(os.path.join(tmp, path)):
                raise HarnessError('two documents %s' % path)
            c24.place(tmp, path, text)
        for target in ('client', 'server'):
            try:
                code[target] = compile_files(case, documents[0][0], tmp, 'wsdl2py', wsdl2py.generate_code_from_wsdl, ['--' + target] + ['--use-wsa'] * bool(case.get('wsa')), target=target, use_wsa=bool(case.get('wsa')))
            except Exception as e:
                raise Violation('%r\n%s' % (e, '\n'.join(shown))) from e
    judge_classes(case['svc']['spec'], code['client'], shown)
    return c14.judge(case, code, '\n'.join(shown)) and len(documents) > 1 or len(documents) > 2


SUBS = [
    Sub('xsd', cases, check, quick=800, thorough=20000, shards=8,
        rule='random schemas x random distribution over files; non-trivial when there are several files and a valid document with at least two fields, or more than two files'),
    Sub('wsdl', wsdl_cases, check_wsdl, quick=600, thorough=15000, shards=8,
        rule='random service x random distribution over WSDL and XSD files; non-trivial when there are several files and a call was made, or more than two files'),
]
