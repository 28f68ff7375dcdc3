"""Loads the real modules of /repo (rewritten) with stand-ins for the
standard library.  Nothing of /repo is cached between runs."""
import os
import sys
import types
from . import rewrite, py2rt
from .stubs import misc
import importlib.util
_sp = importlib.util.spec_from_file_location('snapmod', os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'jy',
    'snap.py'))
snapmod = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(snapmod)

REPO = os.environ.get('TF_REPO', '/repo')
HARNESS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'harness')


def preload_names(src):
    """Modules a harness imports or loads inside its functions."""
    import ast
    out = []
    if 'hlib' in src:
        with open(os.path.join(HARNESS, 'hlib.py')) as f:
            lib = f.read().replace('hlib', '')
        out += preload_names(lib)
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Import):
            out += [a.name for a in n.names]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            out.append(n.module)
            out += ['%s.%s' % (n.module, a.name) for a in n.names]
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in ('load', 'script') and \
                n.args and isinstance(n.args[0], ast.Constant):
            out.append(n.args[0].value)
    return out


class Importer(object):
    def __init__(self, paths=None):
        self.paths = paths or [HARNESS, REPO]
        self.modules = {}
        self.snap = None
        self.depth = 0
        self.fresh = []
        self.files = {}
        self.scripts = {}
        self.stubs = misc.build(self.modules)
        self.builtins = py2rt.make_builtins(self._import)
        self.missing = ('pysqlite2', 'psyco', 'com', 'py2exe',
                        'cx_Oracle', 'pkg_resources_')

    # -- locating
    def _find(self, name):
        rel = name.replace('.', '/')
        for p in self.paths:
            d = os.path.join(p, rel, '__init__.py')
            if os.path.isfile(d):
                return d, True
            f = os.path.join(p, rel + '.py')
            if os.path.isfile(f):
                return f, False
        return None

    def load(self, name):
        """Module called `name` (dotted), importing its parents."""
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.stubs:
            m = self.modules[name] = self.stubs[name]
            if '.' in name:
                parent, _, leaf = name.rpartition('.')
                pm = self.load(parent)
                if not hasattr(pm, leaf):
                    setattr(pm, leaf, m)
            return m
        parent = None
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            pm = self.load(parent)
        found = self._find(name)
        if found is None:
            raise ImportError('No module named %s' % name)
        fn, is_pkg = found
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__builtins__ = self.builtins
        m.__package__ = name if is_pkg else (parent or '')
        if is_pkg:
            m.__path__ = [os.path.dirname(fn)]
        self.modules[name] = m
        with open(fn, encoding='utf8') as f:
            src = f.read()
        self.files[fn] = name
        self.depth += 1
        try:
            exec(rewrite.rewrite(src, fn), m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        finally:
            self.depth -= 1
        self.fresh.append((m, parent, leaf if parent else None))
        if parent:
            setattr(self.modules[parent], leaf, m)
        if not self.depth:
            fresh, self.fresh = self.fresh, []
            if self.snap is not None:
                for m2, parent, leaf in fresh:
                    self.snap.add_module(m2)
                for m2, parent, leaf in fresh:
                    if parent:
                        self.snap.note(self.modules[parent], leaf)
        return m

    def script(self, name):
        """Run a tool of the repository as the main program."""
        if name not in self.scripts:
            fn, is_pkg = self._find(name)
            with open(fn, encoding='utf8') as f:
                self.scripts[name] = fn, rewrite.rewrite(f.read(), fn)
        fn, code = self.scripts[name]
        m = types.ModuleType('__main__')
        m.__file__ = fn
        m.__builtins__ = self.builtins
        m.__package__ = ''
        exec(code, m.__dict__)

    def freeze(self):
        """Remember the state of every loaded module of /repo."""
        root = [REPO + os.sep, HARNESS + os.sep]
        names = set()
        for n, m in self.modules.items():
            f = getattr(m, '__file__', None)
            if f and f.startswith(tuple(root)):
                names.add(n)

        def ours(name):
            if name in names:
                return True
            m = self.modules.get(name)
            f = getattr(m, '__file__', None)
            if f and f.startswith(tuple(root)):
                names.add(name)
                return True
            return False
        self.snap = snapmod.Snap(ours)
        for n in sorted(names):
            self.snap.add_module(self.modules[n])

    def exists(self, name):
        return (name in self.modules or name in self.stubs or
                self._find(name) is not None)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        pkg = (globals or {}).get('__package__') or ''
        if level > 0:
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            full = base + ('.' + name if name else '')
        else:
            full = name
            # implicit relative import of Python 2
            if pkg and not self.exists(name.split('.')[0]) and self.exists(
                    pkg + '.' + name.split('.')[0]):
                full = pkg + '.' + name
        m = self.load(full)
        if fromlist:
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f) and self.exists(full + '.' + f):
                    self.load(full + '.' + f)
            return m
        if level > 0 or full != name:
            return m
        return self.modules[name.split('.')[0]]
