"""Names the real library modules define (read from their source, never imported)."""
import ast
import os
import sysconfig
from . import project

_names = {}
_trees = {}
_classes = {}
_packages = {}


def names(mod):
    if mod in _names:
        return _names[mod]
    out = set()
    tree = source(mod)
    if tree is not None:
        collect(tree, out)
    _names[mod] = out
    return out


def source(mod):
    if mod not in _trees:
        _trees[mod] = None
        for root in (project.site_packages(), sysconfig.get_paths()['stdlib']):
            r = project.probe(root, mod) if root else None
            if r is not None:
                with open(r[0], encoding='utf-8') as f:
                    _trees[mod] = ast.parse(f.read())
                _packages[mod] = mod if os.path.basename(r[0]) == '__init__.py' else mod.rpartition('.')[0]
                break
    return _trees[mod]


def class_names(mod, name):
    """The attributes instances of a class of a library may have: what it and its bases define or set, and
    what code of its module sets on other objects.  None if the class or one of its bases is not found."""
    key = (mod, name)
    if key not in _classes:
        _classes[key] = None
        _classes[key] = find_class_names(mod, name)
    return _classes[key]


def find_class_names(mod, name):
    tree = source(mod)
    if tree is None:
        return None
    here = [s for s in tree.body if isinstance(s, ast.ClassDef) and s.name == name]
    if not here:
        for s in tree.body:
            if isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == name for a in s.names):
                real = [a.name for a in s.names if (a.asname or a.name) == name][0]
                src = s.module or ''
                if s.level:
                    base = _packages[mod].split('.')
                    base = base[:len(base) - s.level + 1]
                    src = '.'.join(base + ([src] if src else []))
                return class_names(src, real)
        return None
    c = here[0]
    out = set()
    collect(c, out)
    for b in c.bases:
        if not isinstance(b, ast.Name):
            return None
        if b.id in ('object', 'Exception'):
            continue
        more = class_names(mod, b.id)
        if more is None:
            return None
        out |= more
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
            out.add(n.attr)
    return out


def collect(tree, out):
    def block(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(s.name)
                if isinstance(s, ast.ClassDef):
                    block(s.body)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    target(t)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                target(s.target)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    out.add((a.asname or a.name).split('.')[0])
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    block(getattr(s, f, []))
                for h in getattr(s, 'handlers', []):
                    block(h.body)

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
    block(tree.body)
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls', 'obj'):
            out.add(n.attr)
