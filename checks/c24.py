"""C24: the command line programs do what the functions do."""
import contextlib
import io
import itertools
import os
import re
import subprocess
import sys
import tempfile

from hypothesis import strategies as st
from lxml import etree

from checks import c10, c14
from harness import env
from harness import services as S
from harness.codegen import Generated
from harness.core import Reject, Sub, Violation

TECHNIQUE = 'property-based testing: random documents and modules given to the command line programs in every documented way, compared with the functions and with one another'
NOTE = 'The time stamp of generated code is ignored. Programs run within the process and, for a share of the cases, as processes of their own with another locale and working directory.'

_counter = itertools.count()
FILES = ['doc.xml', 'a b.xml', 'größe.xsd', 'sub/doc.xml', 'sub/sub/x', '-x.xml', "it's.xml", 'a%20b.xml', 'a#b.xml']
OUT = ['file', 'stdout', 'sub', 'existing']


def unstamp(code):
    return re.sub(rb'(Generated by \S+ at )[^\n]*', rb'\1', code)


class Streams:
    """Standard streams of a program run within this process."""

    def __init__(self, data=b''):
        self.stdin, self.stdout = io.TextIOWrapper(io.BytesIO(data), encoding='ascii'), io.TextIOWrapper(io.BytesIO(), encoding='ascii')


def run_here(name, argv, cwd, data, implicit):
    import importlib
    module = importlib.import_module('soapfish.' + name)
    streams = Streams(data)
    old = os.getcwd(), sys.stdin, sys.stdout, sys.argv
    os.chdir(cwd)
    sys.stdin, sys.stdout = streams.stdin, streams.stdout
    try:
        if implicit:
            sys.argv = [name, *argv]
            code = module.main()
        else:
            code = module.main(argv)
    except SystemExit as e:
        code = e.code
    finally:
        os.chdir(old[0])
        sys.stdin, sys.stdout, sys.argv = old[1:]
    streams.stdout.flush()
    return code, streams.stdout.buffer.getvalue()


def run_process(name, argv, cwd, data, implicit):
    e = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'PYTHONIOENCODING', 'PYTHONUTF8')}
    e.update(LC_ALL='C' if implicit else 'C.UTF-8', PYTHONPATH=env.REPO, PYTHONHASHSEED='random', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-P', '-m', 'soapfish.' + name, *argv], cwd=cwd, env=e, input=data, capture_output=True, timeout=50)
    if p.returncode and b'Traceback' in p.stderr:
        raise Violation('%s %r failed:\n%s' % (name, argv, p.stderr.decode(errors='replace')))
    return p.returncode, p.stdout


def run(case, name, options, source, tmp, data=b''):
    """The output of a program given the source, which must succeed."""
    runner = run_process if case['process'] else run_here
    cwd = {'root': '/', 'tmp': tmp, 'deep': os.path.join(tmp, 'deep')}[case['cwd']]
    os.makedirs(os.path.join(tmp, 'deep'), exist_ok=True)
    argv = list(options)
    if source != '-' and '://' not in source:
        source = os.path.relpath(source, cwd) if case['relative'] else source
        if source.startswith('-'):
            source = './' + source
    argv.append(source)
    target = None
    if case['out'] != 'stdout':
        target = os.path.join(tmp, 'deep' if case['out'] == 'sub' else '', 'out%d' % next(_counter))
        if case['out'] == 'existing':
            with open(target, 'wb') as f:
                f.write(b'x' * 100000)
        argv.append(os.path.relpath(target, cwd) if case['relative'] else target)
    code, out = runner(name, argv, cwd, data, case['implicit'])
    if code not in (0, None):
        raise Violation('%s %r returned %r' % (name, argv, code))
    if target is None:
        return out
    if out:
        raise Violation('%s %r wrote %r to the standard output' % (name, argv, out))
    with open(target, 'rb') as f:
        return f.read()


def imported(path):
    """The module at the path, imported in the usual way."""
    with open(path, 'rb') as f:
        return Generated(f.read())


@st.composite
def ways(draw, process=False):
    return {'process': process, 'cwd': draw(st.sampled_from(['tmp', 'deep', 'root'])), 'relative': draw(st.booleans()), 'out': draw(st.sampled_from(OUT)), 'implicit': draw(st.booleans()),
            'stdin': draw(st.integers(0, 3)) == 0, 'file': draw(st.sampled_from(FILES)), 'link': draw(st.integers(0, 4)) == 0, 'remote': not process and draw(st.integers(0, 4)) == 0, 'pretty': draw(st.booleans())}


@contextlib.contextmanager
def web(tmp):
    """The files below the directory, served at http://files.example/."""
    from urllib.parse import unquote, urlsplit

    def answer(sent):
        path = os.path.normpath(tmp + unquote(urlsplit(sent.url).path))
        with open(path, 'rb') as f:
            return 200, {'Content-Type': 'text/xml'}, f.read()
    with S.network(answer) as log:
        yield log


def python_names_differ(spec):
    w = c10.writer(spec)
    names = [c10.class_name(w.tprefix + t['name']) for i, t in enumerate(spec['types']) if i not in spec['inline']] + [c10.class_name(w.sprefix + t['name']) for t in spec['simple']]
    names += [c10.class_name(spec['tag'])] if spec['root'] in spec['inline'] else []
    return len(set(names)) == len(names)


def place(tmp, name, text, encoding='utf-8', link=False):
    path = os.path.join(tmp, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if link:
        # locations refer to the directory of the link
        os.symlink(place(os.path.join(tmp, 'real'), 'file', text, encoding), path)
        return path
    with open(path, 'wb') as f:
        f.write(text.encode(encoding))
    return path


def source_of(case, tmp, path):
    """(argument, data for the standard input, directory which locations refer to)"""
    from urllib.parse import quote
    if case['remote']:
        url = 'http://files.example/' + quote(os.path.relpath(path, tmp))
        return url, b'', os.path.dirname(url)
    if case['stdin']:
        with open(path, 'rb') as f:
            return '-', f.read(), None
    return path, b'', os.path.dirname(path)


def judge_code(got, want, what):
    if unstamp(got) != unstamp(want).strip():
        raise Violation('%s\n--- program\n%s\n--- function\n%s' % (what, got.decode(), want.decode()))


# --- XSD ------------------------------------------------------------------------------------------------------
@st.composite
def xsd_cases(draw, process=False):
    spec = draw(c10.specs())
    spec['tops'] = []
    return dict(draw(ways(process)), spec=spec, xs=draw(st.sampled_from(['xs', 'xsd', 'default', 'target', 'local'])), alias=draw(st.integers(0, 1)))


def check_xsd(case):
    from soapfish import py2xsd, xsd2py
    spec = case['spec']
    if not python_names_differ(spec):
        raise Reject
    w = c10.writer(spec)
    with tempfile.TemporaryDirectory() as tmp, web(tmp):
        texts = [c10.restyle(w.schema(i), case['xs'], i) for i in range(len(spec['schemas']))]
        path = place(tmp, case['file'], texts[0], link=case['link'])
        for i, text in enumerate(texts[1:], 1):
            place(tmp, os.path.join(os.path.dirname(case['file']), 's%d.xsd' % i), text)
        source, data, cwd = source_of(case, tmp, path)
        if source == '-':
            # locations refer to the working directory
            where = {'root': '/', 'tmp': tmp, 'deep': os.path.join(tmp, 'deep')}[case['cwd']]
            if len(texts) > 1 and where != os.path.dirname(path):
                if where == '/':
                    raise Reject
                place(where, 's1.xsd', texts[1])
            cwd = where
        code = run(case, 'xsd2py', [], source, tmp, data)
        want = xsd2py.generate_code_from_xsd(texts[0].encode(), encoding='utf-8', cwd=cwd)
        judge_code(code, want, 'xsd2py %s' % source)
        # --- the generated module, given back
        name = re.search(rb'^(Schema_\w+) = xsd', code[code.rindex(b'= xsd.Schema(') - 20:], re.M).group(1)
        module = os.path.join(tmp, ['module.py', 'soapfish.py'][case['alias']])
        with open(module, 'wb') as f:
            f.write(code + b'\nSchema = ' + name + b'\n')
        before = set(sys.modules)
        mine = sys.modules.get('soapfish')
        xml = run(case, 'py2xsd', [], module, tmp)
        if sys.modules.get('soapfish') is not mine:
            raise Violation('the program replaced a loaded module')
        for m in set(sys.modules) - before:
            del sys.modules[m]
        with imported(module) as g:
            want = etree.tostring(py2xsd.generate_xsd(g.module.Schema), pretty_print=True)
        if xml != want:
            raise Violation('py2xsd wrote\n%s\nthe function returned\n%s' % (xml.decode(), want.decode()))
        return len(spec['types']) > 1


# --- WSDL -----------------------------------------------------------------------------------------------------
@st.composite
def wsdl_cases(draw, process=False):
    return dict(draw(ways(process)), doc=draw(c14.cases()), target=draw(st.sampled_from(['client', 'server'])), short=draw(st.booleans()), external=draw(st.booleans()), wsa=draw(st.integers(0, 2)) == 0)


def check_wsdl(case):
    from soapfish import py2wsdl, soap, wsdl2py
    doc = case['doc']
    if c14.collide(doc['svc'], doc['shape']):
        raise Reject
    text = c14.document(doc, case['external'])
    with tempfile.TemporaryDirectory() as tmp, web(tmp):
        path = place(tmp, case['file'], text, link=case['link'])
        source, data, cwd = source_of(case, tmp, path)
        if case['external'] and len(doc['svc']['spec']['schemas']) > 1:
            other = c10.restyle(c10.writer(doc['svc']['spec']).schema(1), doc['xs'][1], 1)
            if source == '-':
                # locations refer to the working directory
                cwd = {'root': '/', 'tmp': tmp, 'deep': os.path.join(tmp, 'deep')}[case['cwd']]
                if cwd == '/':
                    raise Reject
            place(os.path.dirname(path) if source != '-' else cwd, 's1.xsd', other)
        options = ['-' + case['target'][0]] if case['short'] else ['--' + case['target']]
        if case['wsa']:
            options.append('-w' if case['short'] else '--use-wsa')
        code = run(case, 'wsdl2py', options, source, tmp, data)
        want = wsdl2py.generate_code_from_wsdl(text.encode(), case['target'], case['wsa'], cwd=cwd)
        judge_code(code, want, 'wsdl2py %s' % source)
        module = os.path.join(tmp, 'service.py')
        with open(module, 'wb') as f:
            f.write(code + b'\nfor x in list(vars().values()):\n    if isinstance(x, soap.Service):\n        SERVICE = x\n        break\n')
        with imported(module) as g:
            if any(op['oneway'] for op in doc['svc']['ops']):
                return False
            if case['wsa'] and any(s.input_header is None and m.input_header is None for s in [g.module.SERVICE] for m in s.methods if m.input_header):
                raise Violation('no header')
            want = etree.tostring(py2wsdl.generate_wsdl(g.module.SERVICE), pretty_print=True)
        before = set(sys.modules)
        xml = run(case, 'py2wsdl', [], module, tmp)
        for m in set(sys.modules) - before:
            del sys.modules[m]
        if xml != want:
            raise Violation('py2wsdl wrote\n%s\nthe function returned\n%s' % (xml.decode(), want.decode()))
        del soap
        return len(doc['svc']['ops']) > 1


def xsd_process_cases():
    return xsd_cases(process=True)


def wsdl_process_cases():
    return wsdl_cases(process=True)


SUBS = [
    Sub('xsd', xsd_cases, check_xsd, quick=320, thorough=8000, shards=8, rule='random XSD, xsd2py and then py2xsd given it as file, URL or on the standard input; non-trivial when there are several types'),
    Sub('wsdl', wsdl_cases, check_wsdl, quick=320, thorough=8000, shards=8, rule='random WSDL, wsdl2py and then py2wsdl; non-trivial when there are several operations'),
    Sub('xsd-process', xsd_process_cases, check_xsd, quick=48, thorough=1200, shards=8, rule='as xsd, in processes of their own'),
    Sub('wsdl-process', wsdl_process_cases, check_wsdl, quick=48, thorough=1200, shards=8, rule='as wsdl, in processes of their own'),
]
