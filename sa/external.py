"""Interfaces of installed dependencies, read from their sources.

Only parses files of the site-packages directory; imports nothing.  Answers
three things: does a dotted name exist, and which keywords / how many
positional arguments does it accept.  Whatever is not certain (compiled
modules, star imports, module __getattr__, decorators that change the
signature) is answered 'unknown' (None).
"""
import ast
import glob
import os

MISSING = "missing"
_sp = None
_mods = {}


def site():
    global _sp
    if _sp is None:
        c = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))
        _sp = c[0] if c else ""
    return _sp


class Mod:
    def __init__(self, name, path, pkg):
        self.name = name
        self.path = path
        self.pkg = pkg
        self.defs = {}
        self.imports = {}
        self.open = False          # may define more names dynamically
        with open(path, "rb") as f:
            t = ast.parse(f.read())
        self.body(t.body)

    def rel(self, level, mod):
        if not level:
            return mod or ""
        p = self.name.split(".")
        if not self.pkg:
            p = p[:-1]
        if level > 1:
            p = p[:len(p) - level + 1]
        return ".".join(p + ([mod] if mod else []))

    def target(self, t):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x)
        elif isinstance(t, ast.Starred):
            self.target(t.value)
        elif isinstance(t, ast.Subscript) and "globals" in ast.unparse(t):
            self.open = True

    def body(self, b):
        for s in b:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                if s.name == "__getattr__":
                    self.open = True
                old = self.defs.get(s.name)
                self.defs[s.name] = (old or []) + [s]
            elif isinstance(s, ast.Import):
                for a in s.names:
                    n = a.asname or a.name.split(".")[0]
                    self.imports[n] = a.name if a.asname else n
            elif isinstance(s, ast.ImportFrom):
                base = self.rel(s.level, s.module)
                for a in s.names:
                    if a.name == "*":
                        self.open = True
                    else:
                        self.imports[a.asname or a.name] = \
                            base + "." + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self.target(t)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                self.target(s.target)
            elif isinstance(s, (ast.If, ast.For, ast.While)):
                if isinstance(s, ast.For):
                    self.target(s.target)
                self.body(s.body)
                self.body(s.orelse)
            elif isinstance(s, (ast.Try,)):
                self.body(s.body)
                for h in s.handlers:
                    self.body(h.body)
                self.body(s.orelse)
                self.body(s.finalbody)
            elif isinstance(s, ast.With):
                self.body(s.body)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                u = ast.unparse(s.value.func)
                if "globals" in u or "setattr" in u or "exec" in u:
                    self.open = True


def module(name):
    """Mod, 'opaque' (exists, not readable) or None (no such module)."""
    if name in _mods:
        return _mods[name]
    r = None
    base = os.path.join(site(), *name.split("."))
    for path, pkg in ((base + ".pyi", False),
                      (os.path.join(base, "__init__.pyi"), True),
                      (base + ".py", False),
                      (os.path.join(base, "__init__.py"), True)):
        if os.path.exists(path):
            try:
                r = Mod(name, path, pkg)
            except (SyntaxError, ValueError, RecursionError):
                r = "opaque"
            break
    if r is None:
        if glob.glob(base + ".*so") or os.path.isdir(base):
            r = "opaque"
    _mods[name] = r
    return r


def lookup(dotted, depth=0):
    """list of def nodes, None (unknown) or MISSING."""
    if not site() or depth > 12:
        return None
    parts = dotted.split(".")
    if not os.path.exists(os.path.join(site(), parts[0])) and not glob.glob(
            os.path.join(site(), parts[0] + ".*")):
        return None                 # standard library or not installed
    k = len(parts)
    while k > 0:
        m = module(".".join(parts[:k]))
        if m is not None:
            break
        k -= 1
    if k == 0 or m == "opaque":
        return None
    rest = parts[k:]
    if not rest:
        return None
    n = rest[0]
    if n in m.defs:
        d = m.defs[n]
        if len(rest) > 1:
            return None
        return d
    if n in m.imports:
        t = m.imports[n]
        if t == dotted:
            return None
        return lookup(".".join([t] + rest[1:]), depth + 1)
    if m.open or n.startswith("__"):
        return None
    return MISSING


def accepts(dotted):
    """(keyword names or None if any, max positionals or None)."""
    d = lookup(dotted)
    if d is None or d == MISSING:
        return None
    kws, npos = set(), 0
    for s in d:
        if isinstance(s, ast.ClassDef):
            if s.bases and not any(isinstance(x, ast.FunctionDef) and
                                   x.name == "__init__" for x in s.body):
                return None
            fs = [x for x in s.body if isinstance(x, ast.FunctionDef) and
                  x.name == "__init__"]
            if not fs or any(isinstance(x, ast.FunctionDef) and
                             x.name == "__new__" for x in s.body):
                return None
            skip = 1
        else:
            fs = [s]
            skip = 0
        for f in fs:
            a = f.args
            if a.kwarg:
                return None
            names = [x.arg for x in a.posonlyargs + a.args][skip:]
            kws |= set([x.arg for x in a.args][max(
                0, skip - len(a.posonlyargs)):])
            kws |= {x.arg for x in a.kwonlyargs}
            npos = 10 ** 6 if a.vararg else max(npos, len(names))
            for dec in f.decorator_list:
                u = ast.unparse(dec)
                if not any(w in u for w in ("overload", "validate_params",
                                            "deprecate", "array_function",
                                            "Appender", "doc", "set_module",
                                            "abstractmethod",
                                            "_deprecate_positional")):
                    return None
                if "deprecate" in u and "kwarg" in u:
                    return None
    return kws, npos


def closed(name):
    """Module whose names are all known from its source."""
    m = module(name)
    return isinstance(m, Mod) and not m.open and m.path.endswith(".py") and \
        name.split(".")[0] != "matplotlib"
