"""Importing generated code."""
import itertools
import keyword
import sys
import types

_counter = itertools.count()


def _cache_templates():
    """Keep compiled templates (found again by the checksum of their source): compiling them takes most of the time."""
    import atexit
    import functools
    import shutil
    import tempfile

    import jinja2

    from soapfish import utils
    if getattr(utils, 'Environment', None) is jinja2.Environment:
        path = tempfile.mkdtemp(prefix='verif_jinja_')
        atexit.register(shutil.rmtree, path, True)
        utils.Environment = functools.partial(jinja2.Environment, bytecode_cache=jinja2.FileSystemBytecodeCache(path))


_cache_templates()

# Names which a model class needs for itself (public API of soapfish.xsd.ComplexType and of generated classes).
API = {'xml', 'render', 'accept', 'parsexml', 'parse_xmlelement', 'create', 'SCHEMA', 'INDICATOR', 'INHERITANCE', 'cls', 'instance', 'xsd'}


class Generated:
    def __init__(self, code, text=None):
        if isinstance(code, bytes):
            code = code.decode('utf-8')
        self.code = code
        self.name = 'verif_generated_%d' % next(_counter)
        self.module = types.ModuleType(self.name)
        sys.modules[self.name] = self.module
        try:
            exec(compile(code, self.name, 'exec'), self.module.__dict__)
        except BaseException:
            self.dispose()
            raise

    def dispose(self):
        sys.modules.pop(self.name, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.dispose()

    def __getattr__(self, name):
        return getattr(self.module, name)

    def schemas(self):
        """The distinct schemas the module defines, by name."""
        from soapfish import xsd
        out = []
        for v in vars(self.module).values():
            if isinstance(v, xsd.Schema) and not any(v is x for x in out):
                out.append(v)
        return out

    def classes(self):
        return {k: v for k, v in vars(self.module).items() if isinstance(v, type) and v.__module__ == self.name}


def plain(tag):
    """Is the name kept as it is in Python?"""
    return tag.isidentifier() and tag.isascii() and not keyword.iskeyword(tag) and tag not in API and not tag.startswith('_')


def python_name(tag):
    """The name documented for an element or attribute in generated code, None when it is not specified."""
    if keyword.iskeyword(tag):
        return '_' + tag
    return tag if plain(tag) else None
