"""Schemas distributed over several files which include and import each other."""
import os.path
import posixpath
import re

from hypothesis import strategies as st

from . import models as M
from .core import Reject

DIRS = ['', 'd1/', 'd1/d2/', 'd3/', 'd1/d3/', 'a b/', 'd1/d2/é/']
BASES = ['s.xsd', 'types.xsd', 'common.xsd', 'x', 'm-1.2.xsd', 'types.XSD']
WSDLS = ['svc.wsdl', 'a.wsdl', 'types.xsd.wsdl', 'x.wsdl']
SITE = 'http://files.example/'
REFERENCE = re.compile(r'(<xs:(?:attribute|attributeGroup|group|element|extension|restriction)\b[^>]*?) (type|base|ref|substitutionGroup)="t(\d+):([^"]+)"')


@st.composite
def layouts(draw, n, remote=True):
    """The decisions of a layout for n namespaces; build() makes files from them."""
    counts = [draw(st.integers(1, 4 if s == 0 else 3)) for s in range(n)]
    total = sum(counts)
    paths = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(BASES)).map(''.join), min_size=total, max_size=total, unique=True))
    cyclic = draw(st.integers(0, 3)) == 0
    return {'counts': counts, 'paths': paths, 'cyclic': cyclic,
            'assign': draw(st.lists(st.integers(0, 11), min_size=1, max_size=12)),
            'parents': draw(st.lists(st.integers(0, 3), min_size=total, max_size=total)),
            'extra': draw(st.lists(st.tuples(st.integers(0, total - 1), st.integers(0, total - 1)).map(list), max_size=4)),
            'direct': draw(st.booleans()),
            'spelling': draw(st.lists(st.integers(0, 5), min_size=1, max_size=8)),
            'styles': draw(st.lists(st.sampled_from(['xs', 'xsd', 'default', 'target', 'local']), min_size=total, max_size=total)),
            'chameleon': draw(st.lists(st.integers(0, 3).map(lambda x: x == 0), min_size=total, max_size=total)),
            'imports_first': draw(st.booleans()), 'reverse': draw(st.booleans()),
            'where': draw(st.sampled_from(['local', 'local', 'remote', 'mixed'] if remote else ['local']))}


class File:
    def __init__(self, s, path):
        self.s, self.path, self.items, self.includes, self.imports, self.chameleon, self.inline = s, path, [], [], [], False, False


def references(text):
    for _, kind, s, name in REFERENCE.findall(text):
        yield kind, int(s), name


@st.composite
def wsdl_layouts(draw, n):
    """The decisions of a layout for the documents of a service with n namespaces."""
    count = draw(st.integers(1, 4))
    paths = draw(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(WSDLS)).map(''.join), min_size=count, max_size=count, unique=True))
    return {'paths': paths, 'assign': draw(st.lists(st.integers(0, count - 1), min_size=4, max_size=4)), 'schemas': draw(st.lists(st.integers(0, count - 1), min_size=n, max_size=n)),
            'inline': draw(st.lists(st.booleans(), min_size=n, max_size=n)), 'stub': draw(st.sampled_from(['include', 'import', 'imports'])),
            'parents': draw(st.lists(st.integers(0, 3), min_size=count, max_size=count)), 'extra': draw(st.lists(st.tuples(st.integers(0, count - 1), st.integers(0, count - 1)).map(list), max_size=3)),
            'needed': draw(st.booleans()), 'cyclic': draw(st.integers(0, 3)) == 0, 'reverse': draw(st.booleans()), 'tns': draw(st.sampled_from(['same', 'same', 'other', 'none'])),
            'decoys': draw(st.booleans())}


def reach(files, start):
    todo = [start]
    for k in todo:
        todo += [j for j in files[k].includes if j not in todo]
    return todo


def build(layout, w, to_top=False):
    """The files for the declarations of the writer: the first one is the one to start from."""
    spec = w.spec
    n = len(spec['schemas'])
    files, of, home = [], [], {}
    for s in range(n):
        of.append(list(range(len(files), len(files) + layout['counts'][s])))
        files += [File(s, layout['paths'][k]) for k in of[s]]
    everything = [w.items(s) for s in range(n)]
    needs = {}
    for s in range(n):
        index = {}
        for key, text in everything[s]:
            index[{'type': 'type', 'element': 'element'}.get(key[0], 'group'), key[1]] = key
        for key, text in everything[s]:
            kinds = [(kind, r, name) for kind, r, name in references(text)]
            home[s, key] = of[s][layout['assign'][len(home) % len(layout['assign'])] % len(of[s])]
            needs[s, key] = [(r, kind, name) for kind, r, name in kinds]
        everything[s] = (everything[s], index)

    def target(kind, r, name):
        index = everything[r][1]
        return index[{'type': 'type', 'base': 'type', 'substitutionGroup': 'element'}.get(kind) or 'group', name]
    changed = True
    while changed:
        changed = False
        for (s, key), refs in needs.items():
            for r, kind, name in refs:
                if r == s and not layout['cyclic']:
                    t = (s, target(kind, r, name))
                    if home[t] < home[s, key]:
                        home[t] = home[s, key]
                        changed = True
    for s in range(n):
        for key, text in everything[s][0]:
            files[home[s, key]].items.append((key, text))
    # every file is included from somewhere
    for s in range(n):
        for k in of[s][1:]:
            files[of[s][layout['parents'][k] % (k - of[s][0])]].includes.append(k)
    for (s, key), refs in needs.items():
        k = home[s, key]
        for r, kind, name in refs:
            t = home[r, target(kind, r, name)]
            f = files[k]
            if r == s and t != k and t not in f.includes and (layout['direct'] or t not in reach(files, k)):
                f.includes.append(t)
            if r != s and of[r][0] not in f.imports:
                f.imports.append(of[r][0])
    for s in range(n - 1):
        if not any(of[s + 1][0] in files[k].imports for k in of[s]):
            files[of[s][0]].imports.append(of[s + 1][0])
    for a, b in layout['extra']:
        if a == b or b == 0 and not to_top:
            continue
        f = files[a]
        if f.s == files[b].s:
            if b not in f.includes and (layout['cyclic'] or a < b):
                f.includes.append(b)
        elif f.s < files[b].s or layout['cyclic']:
            if of[files[b].s][0] not in f.imports and (of[files[b].s][0] != 0 or to_top):
                f.imports.append(of[files[b].s][0])
    # a file without a namespace of its own includes only such files
    for k in reversed(range(len(files))):
        f = files[k]
        f.chameleon = layout['chameleon'][k] and k not in [x[0] for x in of] and all(files[j].chameleon for j in f.includes)
    if any(f.chameleon for f in files):
        again = True
        while again:
            again = False
            for f in files:
                if f.chameleon and not all(files[j].chameleon for j in f.includes):
                    f.chameleon, again = False, True
    return files


def remote(layout, f):
    return layout['where'] == 'remote' or not f.inline and layout['where'] == 'mixed' and f.s > 0


def location(layout, files, k, j, number):
    """How file k refers to file j."""
    return relate(layout, files[k], files[j], number)


def relate(layout, a, b, number):
    style = layout['spelling'][number % len(layout['spelling'])]
    if remote(layout, b):
        if not remote(layout, a) or style == 4:
            return SITE + b.path
        if style == 5:
            return '/' + b.path
    elif remote(layout, a):
        raise Reject  # nothing on the web refers to local files
    here = posixpath.dirname(a.path)
    rel = posixpath.relpath(b.path, here or '.')
    if style == 1:
        return './' + rel
    if style == 2 and here:
        return '../' + posixpath.basename(here) + '/' + rel
    if style == 3:
        return rel.replace('/', '/./', 1)
    return rel


def text_of(layout, files, k, w):
    f = files[k]
    out = w.head(f.s, not f.chameleon)
    links = []
    for j in f.includes:
        if files[j].inline:
            continue  # there is no way to include a schema which is no file
        links.append(('include', '<xs:include schemaLocation="%s"/>', j))
    for j in f.imports:
        links.append(('import', '<xs:import namespace="%s" schemaLocation="%%s"/>' % M.esc(w.spec['schemas'][files[j].s], True).replace('%', '%%'), j))
    if layout['reverse']:
        links.reverse()
    if layout['imports_first']:
        links.sort(key=lambda x: x[0] == 'include')
    for i, (kind, form, j) in enumerate(links):
        if files[j].inline:
            out += form.replace(' schemaLocation="%s"', '').replace('%%', '%')
            continue
        out += form % M.esc(location(layout, files, k, j, k + i), True)
    body = ''.join(text for _, text in f.items)
    style = layout['styles'][k]
    if f.chameleon:
        body = re.sub(r' (type|base|ref|substitutionGroup)="t%d:' % f.s, r' \1="', body)
        style = 'xsd' if style == 'xsd' else 'xs'
    return restyle(out + body + '</xs:schema>', style, f.s)


def restyle(xml, style, s=0):
    """The same schema with other prefixes: for the XML Schema namespace, or none for the target namespace."""
    if style == 'xsd':
        return xml.replace('<xs:', '<xsd:').replace('</xs:', '</xsd:').replace('xmlns:xs=', 'xmlns:xsd=').replace('="xs:', '="xsd:')
    if style == 'default':
        return xml.replace('<xs:', '<').replace('</xs:', '</').replace('xmlns:xs=', 'xmlns=').replace('="xs:', '="')
    if style == 'local':  # every reference declares its prefix itself
        spaces = dict(re.findall(r' xmlns:(t\d+|xs)="([^"]*)"', xml))
        return re.sub(r' (type|base|ref|substitutionGroup)="(t\d+|xs):', lambda m: ' xmlns:%s="%s" %s="%s:' % (m[1], spaces[m[2]], m[1], m[1]), xml)
    if style == 'target':
        return re.sub(r' (type|base|ref|substitutionGroup)="t%d:' % s, r' \1="', xml).replace(' xmlns:t%d=' % s, ' xmlns=')
    return xml
