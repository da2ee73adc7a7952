"""May-alias and in-place effect analysis: which parameters (and which data
kept in attributes) can a function modify.

Flow sensitive inside a function (names map to sets of roots, joined at merge
points, loops iterated), summaries between functions to a fixpoint.  A root is
('p', parameter) or ('a', attribute of self).
"""
import ast
from .index import Func, Class

NONE = frozenset()
SCALAR_ATTRS = {"shape", "size", "dtype", "ndim", "columns", "index", "empty",
                "name", "names", "itemsize", "nbytes", "__class__",
                "__name__"}
ALIAS_FUNCS = {"asarray", "asanyarray", "ravel", "reshape", "squeeze",
               "atleast_1d", "atleast_2d", "transpose", "array_split",
               "split", "swapaxes", "ascontiguousarray", "asfarray",
               "broadcast_to", "moveaxis", "expand_dims", "diagonal"}
ALIAS_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose",
                 "swapaxes", "get", "items", "values", "to_numpy",
                 "setdefault", "pop", "diagonal", "iterrows", "itertuples",
                 "iteritems", "__getitem__", "itercolumns"}
MUT_METHODS = {"append", "extend", "insert", "pop", "remove", "clear",
               "update", "discard", "sort", "reverse", "setdefault",
               "popitem", "fill", "partition", "put", "itemset", "resize",
               "set_params", "fit", "partial_fit", "fit_transform",
               "__setitem__", "__delitem__", "setflags", "set_index_inplace",
               "move_to_end", "appendleft", "popleft", "extendleft",
               "intersection_update", "difference_update",
               "symmetric_difference_update", "setfield", "__setattr__"}
MUT_ARG0 = {"numpy.random.shuffle", "random.shuffle", "numpy.put",
            "numpy.place", "numpy.copyto", "numpy.fill_diagonal",
            "numpy.putmask", "numpy.put_along_axis", "heapq.heappush",
            "heapq.heapify", "heapq.heappop", "setattr", "delattr"}
PASS = {"zip", "enumerate", "reversed", "iter", "next", "map", "filter"}


class Summary:
    def __init__(self):
        self.mut = {}       # root -> (line, text)
        self.ret = NONE     # roots, or tuple of roots per position
        self.stores = {}    # attr -> roots (of parameters)
        self.writes = {}    # attributes of self assigned -> line

    def key(self):
        return (frozenset(self.mut), self.ret, frozenset(self.writes),
                frozenset((k, v) for k, v in self.stores.items()))


def join(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    return flat(a) | flat(b)


def flat(r):
    if isinstance(r, tuple):
        out = NONE
        for x in r:
            out |= flat(x)
        return out
    return r


class Analysis:
    def __init__(self, project, counters=None):
        self.p = project
        self.sum = {}
        self._sc = {}
        self.sites = 0
        funcs = list(project.all_funcs())
        for f in funcs:
            self.sum[f] = Summary()
        for it in range(8):
            self.sites = 0
            changed = False
            for f in funcs:
                old = self.sum[f].key()
                s = Run(self, f).go()
                self.sum[f] = s
                if s.key() != old:
                    changed = True
            if not changed:
                break
        self.rounds = it + 1

    def scalars(self, c):
        """Attributes that some method sets to a number."""
        r = self._sc.get(c)
        if r is None:
            r = set()
            for k in self.p.mro(c) if c else ():
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Assign) and isinstance(
                                n.value, ast.Constant) and isinstance(
                                    n.value.value, (int, float)):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute):
                                    r.add(t.attr)
            self._sc[c] = r
        return r

    def owned(self, c):
        """Attributes of a class that may hold data of the caller:
        attr -> (method, parameter)."""
        out = {}
        for k in self.p.mro(c):
            for m in k.methods.values():
                if m.name.startswith("_") and m.name != "__init__":
                    continue
                for a, r in self.sum[m].stores.items():
                    for kind, nm in r:
                        if kind == "p":
                            out.setdefault(a, (m, nm))
        return out


class Run:
    def __init__(self, an, f):
        self.an = an
        self.p = an.p
        self.f = f
        self.s = Summary()
        self.me = None
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        self.env = {}
        if f.cls is not None and pos and "staticmethod" not in f.deco:
            self.me = pos[0]
            pos = pos[1:]
        defs = f.defaults()
        for n in pos + [x.arg for x in a.kwonlyargs]:
            r = {("p", n)}
            if isinstance(defs.get(n), (ast.List, ast.Dict, ast.Set,
                                        ast.Call)):
                # the default object is shared by all calls
                r.add(("g", "%s(%s=...)" % (f.qual, n)))
            self.env[n] = frozenset(r)
        if a.vararg:
            self.env[a.vararg.arg] = frozenset([("p", "*" + a.vararg.arg)])
        self.kinds = {}          # name -> 'index array' knowledge

    def go(self):
        self.block(self.f.node.body)
        return self.s

    # ------------------------------------------------------------ helpers
    def mutate(self, roots, node, text):
        self.an.sites += 1
        for r in flat(roots):
            self.s.mut.setdefault(r, (node.lineno, text))

    def ext(self, func):
        """Dotted name of an external callable."""
        if isinstance(func, ast.Name) and func.id in self.env:
            return None
        r = self.p.resolve_expr(self.f.module, func)
        if isinstance(r, tuple) and r[0] == "ext":
            return r[1]
        if r is None and isinstance(func, ast.Name):
            return func.id
        return None

    def is_mask(self, i):
        """The index selects with an array: the result is a copy."""
        if isinstance(i, (ast.Compare, ast.ListComp, ast.List)):
            return True
        if isinstance(i, ast.UnaryOp) and isinstance(i.op, (ast.Invert,
                                                            ast.Not)):
            return True
        if isinstance(i, ast.BinOp) and isinstance(i.op, (ast.BitAnd,
                                                          ast.BitOr)):
            return True
        if isinstance(i, ast.Call):
            return True
        if isinstance(i, ast.Name):
            return self.kinds.get(i.id) == "mask"
        if isinstance(i, ast.Attribute):
            return "mask" in i.attr or "support" in i.attr or \
                "indices" in i.attr or "idx" in i.attr
        if isinstance(i, ast.Subscript):
            return self.is_mask(i.value)
        if isinstance(i, ast.Tuple):
            return any(self.is_mask(x) for x in i.elts)
        return False

    # -------------------------------------------------------- expressions
    def R(self, e):
        if e is None or isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            r = self.env.get(e.id)
            if r is None:
                return self.glob(e.id)
            return r
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.me and \
                    self.me is not None:
                return self.env.get("self." + e.attr,
                                    frozenset([("a", e.attr)]))
            r = flat(self.R(e.value))
            return NONE if e.attr in SCALAR_ATTRS else r
        if isinstance(e, ast.Subscript):
            i = e.slice
            r = self.R(e.value)
            if isinstance(i, ast.Slice) and i.lower is None and \
                    i.upper is None and i.step is None:
                return NONE            # copy of a list
            self.R(i)
            if isinstance(r, tuple) and isinstance(i, ast.Constant) and \
                    isinstance(i.value, int) and -len(r) <= i.value < len(r):
                return r[i.value]
            return NONE if self.is_mask(i) else flat(r)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            self.R(e.test)
            return join(self.R(e.body), self.R(e.orelse))
        if isinstance(e, ast.BoolOp):
            out = NONE
            for v in e.values:
                out |= flat(self.R(v))
            return out
        if isinstance(e, ast.Starred):
            return self.R(e.value)
        if isinstance(e, ast.NamedExpr):
            r = self.R(e.value)
            self.assign(e.target, r, e.value)
            return r
        if isinstance(e, (ast.Tuple,)):
            return tuple(self.R(x) for x in e.elts)
        if isinstance(e, (ast.List, ast.Set)):
            for x in e.elts:
                self.R(x)
            return NONE
        if isinstance(e, ast.Dict):
            for x in e.values:
                self.R(x)
            return NONE
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            sv, sk = dict(self.env), dict(self.kinds)
            for g in e.generators:
                r = self.iter_roots(g.iter)
                self.assign(g.target, r, None)
                for c in g.ifs:
                    self.R(c)
            if isinstance(e, ast.DictComp):
                self.R(e.key)
                self.R(e.value)
            else:
                self.R(e.elt)
            self.env, self.kinds = sv, sk
            return NONE
        if isinstance(e, ast.Lambda):
            sv = dict(self.env)
            for a in e.args.args:
                self.env[a.arg] = NONE
            self.R(e.body)
            self.env = sv
            return NONE
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.R(c)
        return NONE

    def arraylike(self, name):
        """The function uses the name as an array or container."""
        for n in ast.walk(self.f.node):
            v = None
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                v = n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                v = n.iter
            elif isinstance(n, ast.Call) and n.args:
                nm = ast.unparse(n.func)
                if nm == "len" or nm.startswith(("np.", "numpy.", "pd.")):
                    if any(isinstance(a, ast.Name) and a.id == name
                           for a in n.args):
                        return True
            if isinstance(v, ast.Name) and v.id == name:
                return True
        return False

    def glob(self, name):
        """A mutable object shared by all calls of the module."""
        c = self.f.module.consts.get(name)
        if isinstance(c, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)) or \
                isinstance(c, ast.Call) and isinstance(
                    c.func, ast.Name) and c.func.id in (
                        "dict", "list", "set", "defaultdict", "OrderedDict"):
            return frozenset([("g", self.f.module.name + "." + name)])
        return NONE

    def iter_roots(self, e):
        """Roots of the elements of an iterable."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id not in self.env:
            if e.func.id == "enumerate" and e.args:
                return (NONE, self.iter_roots(e.args[0]))
            if e.func.id == "zip":
                return tuple(self.iter_roots(a) for a in e.args)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) \
                and e.func.attr == "items" and not e.args:
            return (NONE, flat(self.R(e.func.value)))
        if isinstance(e, (ast.Tuple, ast.List)):
            out = NONE
            for x in e.elts:
                out |= flat(self.R(x))
            return out
        return flat(self.R(e))

    def call(self, e):
        f = e.func
        args = [self.R(a) for a in e.args]
        kw = {k.arg: self.R(k.value) for k in e.keywords}
        flag = {k.arg: k.value.value for k in e.keywords
                if isinstance(k.value, ast.Constant)}
        # keyword conventions
        if "out" in kw and "out" not in flag:
            self.mutate(kw["out"], e, "out= argument of %s" %
                        ast.unparse(f))
        if isinstance(f, ast.Attribute) and flag.get("inplace") is True:
            self.mutate(self.R(f.value), e, "%s(inplace=True)" %
                        ast.unparse(f))
        # package callables
        callee, cself = self.resolve(f)
        if isinstance(callee, Func):
            return self.package(callee, e, args, kw, cself)
        if isinstance(callee, Class):
            init = self.p.method(callee, "__init__")
            if init is not None:
                self.package(init, e, args, kw, None)
            return NONE
        name = self.ext(f)
        if name is not None:
            base = name.rsplit(".", 1)[-1]
            if name in MUT_ARG0 or name.endswith(".at") and args:
                self.mutate(args[0] if args else NONE, e, ast.unparse(f))
            if base == "nan_to_num" and flag.get("copy") is False:
                self.mutate(args[0], e, "nan_to_num(copy=False)")
            if name.startswith("numpy.") and base in ALIAS_FUNCS and args:
                return flat(args[0])
            if name == "numpy.array" and flag.get("copy") is False and args:
                return flat(args[0])
            if base == "check_array" and args and \
                    flag.get("copy") is not True:
                return flat(args[0])
            if base in ("Series", "DataFrame", "Index") and \
                    name.startswith("pandas") and args and \
                    flag.get("copy") is not True:
                return flat(args[0])
            if name in PASS:
                out = NONE
                for a in args:
                    out |= flat(a)
                return out
            if name == "getattr" and len(e.args) > 1 and \
                    isinstance(e.args[0], ast.Name) and \
                    e.args[0].id == self.me and \
                    isinstance(e.args[1], ast.Constant):
                return frozenset([("a", e.args[1].value)])
            if name == "vars" or name == "getattr":
                return flat(args[0]) if args else NONE
            return NONE
        if isinstance(f, ast.Attribute):
            r = flat(self.R(f.value))
            if f.attr in MUT_METHODS:
                self.mutate(r, e, ".%s()" % f.attr)
            if f.attr == "astype":
                return r if flag.get("copy") is False else NONE
            if f.attr in ALIAS_METHODS:
                return r
            return NONE
        self.R(f)
        return NONE

    def resolve(self, f):
        if isinstance(f, ast.Name) and f.id not in self.env:
            r = self.p.name_in(self.f.module, f.id)
            if isinstance(r, (Func, Class)):
                return r, None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == self.me and \
                    self.f.cls is not None:
                m = self.p.method(self.f.cls, f.attr)
                if m is not None:
                    return m, True
                return None, None
            if isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == "super" and self.f.cls is not None:
                for k in self.p.mro(self.f.cls)[1:]:
                    if f.attr in k.methods:
                        return k.methods[f.attr], True
                return None, None
            if isinstance(f.value, ast.Name) and f.value.id in self.env:
                return None, None
            r = self.p.resolve_expr(self.f.module, f)
            if isinstance(r, (Func, Class)):
                return r, None
        return None, None

    def package(self, fn, e, args, kw, cself):
        s = self.an.sum.get(fn)
        if s is None:
            return NONE
        names = fn.params()
        m = {}
        for n, r in zip(names, args):
            m[("p", n)] = flat(r)
        for k, r in kw.items():
            if k is not None:
                m[("p", k)] = flat(r)
        if fn.node.args.vararg:
            out = NONE
            for r in args[len(names):]:
                out |= flat(r)
            m[("p", "*" + fn.node.args.vararg.arg)] = out

        def tr(r):
            if isinstance(r, tuple):
                return tuple(tr(x) for x in r)
            out = NONE
            for x in r:
                if x[0] == "p":
                    out |= m.get(x, NONE)
                elif x[0] == "g":
                    out |= frozenset([x])
                elif cself:
                    out |= self.env.get("self." + x[1], frozenset([x]))
            return out
        for r, (line, text) in s.mut.items():
            self.mutate(tr(frozenset([r])), e, "call of %s (%s, line %d)" % (
                fn.qual, text, line))
        if cself:
            for a in s.writes:
                self.store_attr(a, tr(s.stores.get(a, NONE)), e.lineno)
        return tr(s.ret)

    # --------------------------------------------------------- statements
    def store_attr(self, a, r, line=0):
        r = flat(r)
        self.s.writes.setdefault(a, line)
        self.env["self." + a] = r
        ps = frozenset(x for x in r if x[0] == "p")
        if ps:
            self.s.stores[a] = self.s.stores.get(a, NONE) | ps

    def assign(self, t, r, val):
        if isinstance(t, ast.Name):
            self.env[t.id] = r
            k = None
            if val is not None and self.is_mask(val) and not isinstance(
                    val, (ast.List, ast.ListComp)):
                k = "mask" if not isinstance(val, ast.Call) or \
                    self.masky(val) else None
            self.kinds[t.id] = k
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(r, tuple) and len(r) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                vals = val.elts if isinstance(val, ast.Tuple) and \
                    len(val.elts) == len(t.elts) else [None] * len(r)
                for x, y, v in zip(t.elts, r, vals):
                    self.assign(x, y, v)
            else:
                for x in t.elts:
                    self.assign(x, flat(r), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, flat(r), None)
        elif isinstance(t, ast.Subscript):
            self.R(t.slice)
            self.mutate(self.R(t.value), t, "item assignment %s" %
                        ast.unparse(t)[:60])
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.me and \
                    self.me is not None:
                self.store_attr(t.attr, r, t.lineno)
            else:
                self.mutate(self.R(t.value), t, "attribute assignment %s" %
                            ast.unparse(t)[:60])

    def masky(self, c):
        """Calls that produce masks or index arrays."""
        n = c.func.attr if isinstance(c.func, ast.Attribute) else \
            c.func.id if isinstance(c.func, ast.Name) else ""
        return n in ("where", "isin", "isnan", "isnull", "isna", "argsort",
                     "nonzero", "flatnonzero", "digitize", "searchsorted",
                     "arange", "notna", "notnull", "in1d", "logical_and",
                     "logical_or", "logical_not", "astype", "full", "ones",
                     "zeros", "choice", "permutation", "get_support",
                     "isinf", "isfinite", "unique", "range")

    def block(self, b):
        for s in b:
            self.stmt(s)

    def merge(self, envs):
        out = {}
        for k in set().union(*envs):
            r = None
            for e in envs:
                v = e.get(k)
                if v is None:
                    v = frozenset([("a", k[5:])]) if k.startswith("self.") \
                        else NONE
                r = v if r is None else join(r, v)
            out[k] = r
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            r = self.R(s.value)
            for t in s.targets:
                self.assign(t, r, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.R(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.R(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                d = self.f.defaults().get(t.id)
                if not (isinstance(d, ast.Constant) and d.value is not
                        None) and self.arraylike(t.id):
                    self.mutate(self.env.get(t.id, NONE), s,
                                "in-place operator on %s" % t.id)
            elif isinstance(t, ast.Attribute) and \
                    isinstance(t.value, ast.Name) and t.value.id == self.me:
                self.s.writes.setdefault(t.attr, s.lineno)
                if t.attr not in self.an.scalars(self.f.cls):
                    self.mutate(self.R(t), s, "in-place operator on %s" %
                                ast.unparse(t))
            else:
                self.mutate(self.R(t.value), s, "in-place operator on %s" %
                            ast.unparse(t)[:60])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.R(t.value), s, "del %s" %
                                ast.unparse(t)[:60])
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, ast.Expr):
            self.R(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                r = self.R(s.value)
                self.s.ret = r if self.s.ret == NONE else join(self.s.ret, r)
        elif isinstance(s, ast.If):
            self.R(s.test)
            e0, k0 = dict(self.env), dict(self.kinds)
            self.block(s.body)
            e1, k1 = self.env, self.kinds
            self.env, self.kinds = e0, k0
            self.block(s.orelse)
            t1, t2 = ends(s.body), ends(s.orelse)
            if t1 and not t2:
                pass
            elif t2 and not t1:
                self.env, self.kinds = e1, k1
            else:
                self.env = self.merge([e1, self.env])
                self.kinds = {k: v for k, v in self.kinds.items()
                              if k1.get(k) == v}
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            r = self.iter_roots(s.iter)
            for _ in range(2):
                e0 = dict(self.env)
                self.assign(s.target, r, None)
                self.block(s.body)
                self.env = self.merge([e0, self.env])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                e0 = dict(self.env)
                self.R(s.test)
                self.block(s.body)
                self.env = self.merge([e0, self.env])
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            e0 = dict(self.env)
            self.block(s.body)
            self.block(s.orelse)
            envs = [self.env]
            for h in s.handlers:
                self.env = self.merge([e0, envs[0]])
                self.block(h.body)
                if not ends(h.body):
                    envs.append(self.env)
            self.env = self.merge(envs)
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                r = self.R(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, flat(r), None)
            self.block(s.body)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            sv = dict(self.env)
            ret = self.s.ret
            for a in s.args.args:
                self.env[a.arg] = NONE
            self.block(s.body)
            self.s.ret = ret
            self.env = sv
            self.env[s.name] = NONE
        elif isinstance(s, ast.Raise):
            self.R(s.exc)
        elif isinstance(s, ast.Assert):
            self.R(s.test)
        elif isinstance(s, ast.Match):
            self.R(s.subject)
            envs = []
            e0 = dict(self.env)
            for c in s.cases:
                self.env = dict(e0)
                self.block(c.body)
                envs.append(self.env)
            self.env = self.merge(envs + [e0])


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise,
                                          ast.Continue, ast.Break))
