"""Interpreter set-up shared by the runner, the workers and replays."""
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
TOOLS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ['TZ'] = 'VRF-05:45VRS,M3.5.0,M10.5.0'  # no result may depend on the local time, so let that be unusual
time.tzset()


def setup():
    """Import soapfish from REPO and hypothesis from the tool environment (after the application's own packages)."""
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(TOOLS_SITE)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    # Never run a stale byte code file: a changed source may have the size and time stamp of the one it was made from.
    import iso8601, jinja2, lxml.etree, requests  # noqa: F401, E401
    sys.pycache_prefix = '/nonexistent/verif'
    try:
        import soapfish
        from soapfish import py2wsdl, py2xsd, soap, soap_dispatch, wsdl2py, xsd2py  # noqa: F401
    finally:
        sys.pycache_prefix = None
    got = os.path.realpath(os.path.dirname(os.path.dirname(soapfish.__file__)))
    if got != os.path.realpath(REPO):
        raise SystemExit(f'harness error: soapfish imported from {got}, not {REPO}')
