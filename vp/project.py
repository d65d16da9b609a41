"""Where modules come from: the analysed project, models of libraries, or nowhere."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, 'stubs')
REPO = os.environ.get('VP_REPO', '/repo')
SITE = None


def site_packages():
    global SITE
    if SITE is None:
        base = '/opt/venv/lib'
        SITE = ''
        if os.path.isdir(base):
            for d in sorted(os.listdir(base)):
                p = os.path.join(base, d, 'site-packages')
                if os.path.isdir(p):
                    SITE = p
    return SITE


def probe(root, name):
    p = os.path.join(root, *name.split('.'))
    if os.path.isfile(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.isfile(p + '.py'):
        return p + '.py', False
    return None


_cache = {}


def stub_finder(name):
    if name in _cache:
        return _cache[name]
    r = probe(STUBS, name)
    if r is not None:
        res = (r[0], 'stubs/' + os.path.relpath(r[0], STUBS), r[1], False)
    elif name.split('.')[0] in sys.stdlib_module_names:
        res = 'opaque'
    elif site_packages() and probe(site_packages(), name) is not None:
        res = 'opaque'
    else:
        res = None
    _cache[name] = res
    return res


def finder(name):
    top = name.split('.')[0]
    if top == 'denorm':
        r = probe(REPO, name)
        if r is None:
            return None
        return (r[0], os.path.relpath(r[0], REPO), r[1], True)
    return stub_finder(name)
