"""Remembers the global state of loaded modules and puts it back, so that
cases and paths cannot see each other's module-level or class-level state.
Runs under CPython 3 (engine) and Jython (replay)."""
import types

_FUN = (types.FunctionType, types.MethodType)
try:
    _OLD = types.ClassType
    _OLDI = types.InstanceType
except AttributeError:
    _OLD = _OLDI = None
BIG = 300


class Snap(object):
    def __init__(self, is_ours):
        self.is_ours = is_ours          # module name -> bool
        self.seen = {}
        self.items = []                 # (kind, object, saved copy)
        self.names = set()

    def add_module(self, m):
        if id(m) in self.seen:
            return
        self._walk(m)

    def _ours(self, modname):
        return isinstance(modname, str) and self.is_ours(modname)

    def _walk(self, root):
        stack = [root]
        while stack:
            o = stack.pop()
            i = id(o)
            if i in self.seen:
                continue
            if isinstance(o, types.ModuleType):
                if not self._ours(getattr(o, '__name__', None)):
                    continue
                self.seen[i] = o
                d = dict(o.__dict__)
                self.items.append(('ns', o.__dict__, d, None))
                stack.extend([v for k, v in d.items()
                              if not k.startswith('__')])
            elif isinstance(o, type) or (_OLD and isinstance(o, _OLD)):
                if not self._ours(getattr(o, '__module__', None)):
                    continue
                self.seen[i] = o
                d = dict(o.__dict__)
                self.items.append(('cls', o, d, None))
                stack.extend([v for k, v in d.items()
                              if not k.startswith('__') or k == '__init__'])
                stack.extend(o.__bases__)
            elif isinstance(o, (staticmethod, classmethod)):
                f = getattr(o, '__func__', None)
                if f is not None:
                    stack.append(f)
            elif isinstance(o, types.FunctionType):
                self.seen[i] = o
                stack.extend(o.__defaults__ or ())
                for c in o.__closure__ or ():
                    try:
                        stack.append(c.cell_contents)
                    except (ValueError, AttributeError):
                        pass
            elif isinstance(o, dict):
                self.seen[i] = o
                self.items.append(('dict', o, dict(dict.items(o)),
                                   getattr(o, 'nsym', None)))
                if len(o) <= BIG:
                    stack.extend(dict.values(o))
            elif isinstance(o, list):
                self.seen[i] = o
                self.items.append(('list', o, list(o), None))
                if len(o) <= BIG:
                    stack.extend(o)
            elif isinstance(o, set):
                self.seen[i] = o
                self.items.append(('set', o, set(set.__iter__(o)),
                                   getattr(o, 'nsym', None)))
            elif isinstance(o, tuple):
                if len(o) <= BIG:
                    stack.extend(o)
            elif type(o).__name__ == 'PSet':
                stack.append(o._d)
            elif self._ours(getattr(type(o), '__module__', None)) or \
                    (_OLDI and isinstance(o, _OLDI)):
                d = getattr(o, '__dict__', None)
                if isinstance(d, dict):
                    self.seen[i] = o
                    self.items.append(('ns', d, dict(d), None))
                    stack.extend(list(d.values()))
                elif d is not None:          # Jython's string map
                    self.seen[i] = o
                    self.items.append(('ns', d, dict(d.items()), None))
                    stack.extend(list(d.values()))

    def note(self, m, leaf):
        """Module m got a submodule after its state was saved."""
        for kind, o, c, n in self.items:
            if kind == 'ns' and o is m.__dict__:
                c[leaf] = m.__dict__[leaf]

    def restore(self):
        for kind, o, c, n in self.items:
            if kind == 'ns':
                if not _same(o, c):
                    for k in list(o.keys()):
                        if k not in c:
                            del o[k]
                    for k in c:
                        o[k] = c[k]
            elif kind == 'cls':
                d = o.__dict__
                if not _same(d, c):
                    for k in list(d.keys()):
                        if k not in c:
                            delattr(o, k)
                    for k, v in c.items():
                        if d.get(k) is not v and not k.startswith('__'):
                            setattr(o, k, v)
            elif kind == 'dict':
                if not _same_dict(o, c):
                    dict.clear(o)
                    dict.update(o, c)
                    if n is not None:
                        o.nsym = n
            elif kind == 'list':
                if len(o) != len(c) or (len(c) <= BIG and
                                        [1 for a, b in zip(o, c)
                                         if a is not b]):
                    o[:] = c
            elif kind == 'set':
                if set.__len__(o) != len(c):
                    set.clear(o)
                    set.update(o, c)
                    if n is not None:
                        o.nsym = n


def _same(d, c):
    if len(d) != len(c):
        return False
    for k in c:
        if k not in d or d[k] is not c[k]:
            return False
    return True


def _same_dict(d, c):
    if dict.__len__(d) != len(c):
        return False
    if len(c) > BIG:
        return True
    for k in c:
        if not dict.__contains__(d, k) or dict.__getitem__(d, k) is not c[k]:
            return False
    return True
