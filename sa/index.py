"""Project index: modules, imports, classes, methods, call resolution."""
import ast
import hashlib
import os


INPLACE = {"append", "extend", "insert", "pop", "remove", "clear",
           "update", "add", "discard", "sort", "reverse", "setdefault",
           "popitem", "merge"}


class Func:
    __slots__ = ("module", "qual", "name", "node", "cls", "deco", "alias",
                 "_always_self", "_void")

    def __init__(self, module, qual, node, cls):
        self.module = module
        self.qual = qual
        self.name = node.name
        self.node = node
        self.cls = cls
        self._always_self = None
        self._void = None
        self.alias = None      # identity in the reference after a move
        self.deco = [ast.unparse(d) for d in node.decorator_list]

    @property
    def id(self):
        return self.alias or "%s:%s" % (self.module.name, self.qual)

    @property
    def where(self):
        return "%s:%d (%s)" % (self.module.rel, self.node.lineno, self.qual)

    def params(self, drop_self=True):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if drop_self and self.cls is not None and names and \
                "staticmethod" not in self.deco:
            names = names[1:]
        return names

    def defaults(self):
        """name -> default AST node."""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        if a.defaults:
            for p, d in zip(pos[-len(a.defaults):], a.defaults):
                out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out


class Class:
    __slots__ = ("module", "name", "node", "bases", "methods", "consts")

    def __init__(self, module, name, node):
        self.module = module
        self.name = name
        self.node = node
        self.bases = []
        self.methods = {}
        self.consts = {}

    @property
    def id(self):
        return "%s:%s" % (self.module.name, self.name)


class Module:
    def __init__(self, name, path, rel, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        with open(path, "rb") as f:
            src = f.read()
        self.src = src.decode("utf-8")
        self.digest = hashlib.sha256(src).hexdigest()
        self.tree = ast.parse(self.src, path)
        self.imports = {}     # local name -> dotted
        self.funcs = {}
        self.classes = {}
        self.consts = {}      # module-level simple assigns name -> node
        self._collect()

    def _abs(self, level, mod):
        if level == 0:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[:len(parts) - (level - 1)]
        base = ".".join(parts)
        return base + ("." + mod if mod else "")

    def _collect(self):
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = \
                            a.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom):
                b = self._abs(node.level, node.module)
                for a in node.names:
                    self.imports[a.asname or a.name] = b + "." + a.name
        self._body(self.tree.body)

    def _body(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = Func(self, st.name, st, None)
            elif isinstance(st, ast.ClassDef):
                c = Class(self, st.name, st)
                for s in st.body:
                    if isinstance(s, ast.FunctionDef):
                        if s.name in c.methods and any(
                                ast.unparse(d).endswith(".setter")
                                for d in s.decorator_list):
                            continue
                        c.methods[s.name] = Func(
                            self, st.name + "." + s.name, s, c)
                    elif isinstance(s, ast.Assign) and len(s.targets) == 1 \
                            and isinstance(s.targets[0], ast.Name):
                        c.consts[s.targets[0].id] = s.value
                self.classes[st.name] = c
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.consts:
                            self.consts[t.id] = None
                        else:
                            self.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.consts[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._body(st.body)
                for h in getattr(st, "handlers", []):
                    self._body(h.body)
                self._body(st.orelse)


class Project:
    def __init__(self, root="/repo", pkg="optbinning"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkg)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs
                             if x not in ("__pycache__", "tests"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                m = Module(".".join(parts), p, rel, is_pkg)
                self.modules[m.name] = m
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self.resolve_expr(m, b) for b in c.node.bases]
        self._mro = {}
        self._wr = {}

    # -- resolution ---------------------------------------------------------
    def lookup(self, dotted, seen=()):
        """dotted name -> Func/Class/Module/('const',module,node) or None."""
        if dotted in self.modules:
            return self.modules[dotted]
        if "." not in dotted or dotted in seen:
            return None
        mod, name = dotted.rsplit(".", 1)
        m = self.modules.get(mod)
        if m is not None:
            return self.name_in(m, name, seen + (dotted,))
        c = self.lookup(mod, seen + (dotted,))
        if isinstance(c, Class):
            return self.method(c, name)
        return None

    def name_in(self, m, name, seen=()):
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports:
            r = self.lookup(m.imports[name], seen)
            if r is not None:
                return r
            return ("ext", m.imports[name])
        if name in m.consts:
            return ("const", m, m.consts[name])
        return None

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.name_in(m, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(m, node.value)
            if isinstance(b, Module):
                return self.name_in(b, node.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + node.attr)
            if isinstance(b, Class):
                return self.method(b, node.attr)
        return None

    def mro(self, c):
        r = self._mro.get(c.id)
        if r is None:
            r = [c]
            for b in c.bases:
                if isinstance(b, Class):
                    for x in self.mro(b):
                        if x not in r:
                            r.append(x)
            self._mro[c.id] = r
        return r

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        return [k for m in self.modules.values() for k in m.classes.values()
                if c in self.mro(k) and k is not c]

    def func(self, ident):
        """'optbinning.x:Class.meth' or 'optbinning.x:func'."""
        mod, q = ident.split(":")
        m = self.modules.get(mod)
        if m is None:
            return None
        if "." in q:
            cn, fn = q.split(".", 1)
            c = m.classes.get(cn)
            if c is None:
                return None
            return self.method(c, fn)
        f = m.funcs.get(q)
        if f is None and q in m.imports:
            f = self.lookup(m.imports[q])
            if not isinstance(f, Func):
                f = None
        return f

    def cls(self, ident):
        mod, q = ident.split(":")
        m = self.modules.get(mod)
        return m.classes.get(q) if m else None

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def writes(self, fn, cls):
        """Attributes of self a method may assign or change in place,
        directly or through other methods of the object."""
        return self.access(fn, cls)[0]

    def reads(self, fn, cls):
        return self.access(fn, cls)[1]

    def access(self, fn, cls):
        key = (fn.id, cls.id if cls else "")
        r = self._wr.get(key)
        if r is not None:
            return r
        out = set()
        rd = set()
        seen = {fn.id}
        todo = [fn]
        while todo:
            f = todo.pop()
            a = f.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            if f.cls is None or not pos:
                continue
            me = pos[0]

            def base(x):
                # attribute of self at the root of an access path
                last = None
                while isinstance(x, (ast.Attribute, ast.Subscript)):
                    if isinstance(x, ast.Attribute):
                        last = x.attr
                    x = x.value
                return last if isinstance(x, ast.Name) and x.id == me \
                    else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Load) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    rd.add(n.attr)
                elif isinstance(n, ast.AugAssign) and base(n.target):
                    rd.add(base(n.target))
                if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = base(n)
                    if b:
                        out.add(b)
                elif isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == me:
                        g = self.method(cls or f.cls, n.func.attr)
                        if g is not None and g.id not in seen:
                            seen.add(g.id)
                            todo.append(g)
                    elif isinstance(v, ast.Call) and \
                            isinstance(v.func, ast.Name) and \
                            v.func.id == "super":
                        mro = self.mro(cls or f.cls)
                        i = mro.index(f.cls) if f.cls in mro else -1
                        for k in mro[i + 1:]:
                            if n.func.attr in k.methods:
                                g = k.methods[n.func.attr]
                                if g.id not in seen:
                                    seen.add(g.id)
                                    todo.append(g)
                                break
                    elif n.func.attr in INPLACE:
                        b = base(v)
                        if b:
                            out.add(b)
        # an attribute that is not written on every path keeps its old value
        rd |= out - self.must_write(fn, cls)
        out = tuple(sorted(x for x in out if not x.startswith("_time")))
        rd = tuple(sorted(x for x in rd if not x.startswith("_time")))
        self._wr[key] = (out, rd)
        return self._wr[key]

    def must_write(self, fn, cls, seen=()):
        """Attributes of self assigned on every normal path."""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if fn.cls is None or not pos or fn in seen:
            return set()
        me = pos[0]

        def target(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                return set().union(set(), *[target(e) for e in t.elts])
            if isinstance(t, ast.Starred):
                return target(t.value)
            if isinstance(t, ast.Attribute) and \
                    isinstance(t.value, ast.Name) and t.value.id == me:
                return {t.attr}
            return set()

        def block(body):
            """(attributes, can fall through)"""
            got = set()
            for s in body:
                for n in ast.walk(s) if not isinstance(
                        s, (ast.If, ast.For, ast.While, ast.Try, ast.With)) \
                        else ():
                    if isinstance(n, ast.Call) and \
                            isinstance(n.func, ast.Attribute) and \
                            isinstance(n.func.value, ast.Name) and \
                            n.func.value.id == me:
                        g = self.method(cls or fn.cls, n.func.attr)
                        if g is not None:
                            got |= self.must_write(g, cls, seen + (fn,))
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        got |= target(t)
                elif isinstance(s, ast.With):
                    g, fall = block(s.body)
                    got |= g
                    if not fall:
                        return got, False
                elif isinstance(s, ast.If):
                    g1, f1 = block(s.body)
                    g2, f2 = block(s.orelse)
                    if f1 and f2:
                        got |= g1 & g2
                    elif f1 or f2:
                        ends.append(got | (g2 if f1 else g1))
                        got |= g1 if f1 else g2
                    else:
                        ends.append(got | (g1 & g2))
                        return got, False
                elif isinstance(s, ast.Return):
                    ends.append(set(got))
                    return got, False
                elif isinstance(s, ast.Raise):
                    return got, False
                else:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Return):
                            ends.append(set(got))
            return got, True
        ends = []
        g, fall = block(fn.node.body)
        if fall:
            ends.append(g)
        # branches that end in an exception do not count
        return set.intersection(*ends) if ends else set()

    def class_consts(self, c, name):
        for k in self.mro(c):
            if name in k.consts:
                return k, k.consts[name]
        return None
