"""Lints over the current program: reproducibility (C20), interface
agreement (C27), option plumbing (C09), state of queries (C22), writer and
reader keys (C21).  Same framework as rules.py."""
import ast
import builtins
import symtable
from . import external
from .index import Func, Class, Module
from .rules import (Rule, rule, at, public, mutation, options, selfattr,
                    classes)

SETOPS = {"difference", "union", "intersection", "symmetric_difference"}
ORDERFREE = {"sorted", "len", "any", "all", "sum", "min", "max", "set",
             "frozenset", "isinstance", "bool", "print", "Counter"}
ORDERED = {"list", "tuple", "enumerate", "iter", "next", "zip", "map",
           "reversed", "dict", "filter"}


def parents(node):
    out = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def extname(P, m, node):
    r = P.resolve_expr(m, node)
    if isinstance(r, tuple) and r[0] == "ext":
        return r[1]
    return None


# --------------------------------------------------- C20: unordered sets

class SetTypes:
    """Names of a function (and attributes of its class) that only ever hold
    sets; 'int' if every element is an integer from range()."""

    def __init__(self, P, f, attrs):
        self.P, self.f, self.attrs = P, f, attrs
        self.names = {}
        assigned = {}
        params = {a.arg for a in ast.walk(f.node.args)
                  if isinstance(a, ast.arg)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(
                                    x.ctx, ast.Store):
                                assigned.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.AugAssign) and isinstance(
                    n.target, ast.Name):
                if not isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub,
                                         ast.BitXor)):
                    assigned.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.withitem) and n.optional_vars:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        assigned.setdefault(x.id, []).append(None)
        for _ in range(4):
            for k, vs in assigned.items():
                if k in params or any(v is None for v in vs):
                    continue
                ks = [self.kind(v) for v in vs]
                if all(ks):
                    self.names[k] = "set" if "set" in ks else "int"

    def kind(self, e):
        """None, 'set' or 'int'."""
        if isinstance(e, ast.Set):
            return "int" if all(isinstance(x, ast.Constant) and isinstance(
                x.value, (int, float)) for x in e.elts) else "set"
        if isinstance(e, ast.SetComp):
            g = e.generators
            if len(g) == 1 and isinstance(g[0].iter, ast.Call) and \
                    isinstance(g[0].iter.func, ast.Name) and \
                    g[0].iter.func.id == "range" and isinstance(
                        e.elt, ast.Name):
                return "int"
            return "set"
        if isinstance(e, ast.Name):
            return self.names.get(e.id)
        if isinstance(e, ast.Attribute):
            a = selfattr(e, self.f) if self.f.cls is not None else None
            return self.attrs.get(a) if a else None
        if isinstance(e, ast.BinOp) and isinstance(
                e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            a, b = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, (ast.Sub, ast.BitAnd)) and a == "int":
                return "int"
            if a and b:
                return "int" if a == b == "int" else "set"
            return a or b if isinstance(e.op, ast.Sub) and a else None
        if isinstance(e, ast.IfExp):
            a, b = self.kind(e.body), self.kind(e.orelse)
            return None if not (a and b) else \
                ("set" if "set" in (a, b) else "int")
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in (
                    "set", "frozenset"):
                if not e.args:
                    return "int"
                a = e.args[0]
                if isinstance(a, ast.Call) and isinstance(
                        a.func, ast.Name) and a.func.id == "range":
                    return "int"
                return self.kind(a) or "set"
            if isinstance(e.func, ast.Attribute) and \
                    e.func.attr in SETOPS | {"copy"}:
                k = self.kind(e.func.value)
                if k and e.func.attr in ("union", "symmetric_difference"):
                    return k if k == "set" or all(
                        self.kind(x) == "int" for x in e.args) else "set"
                return k
        return None


SENSITIVE = (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)


def order_matters(loop):
    """Does the body of a loop over a set depend on the order?"""
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, SENSITIVE):
                return True
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                        "append", "extend", "insert", "write", "appendleft"):
                return True
            if isinstance(n, ast.AugAssign):
                return True
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        return True
    return False


@rule("C20")
def unordered(eng, ctx):
    r = Rule("C20.order", "the iteration order of a set of arbitrary values "
             "never reaches an ordered result", 10)
    P = eng.P
    for c in list(classes(eng)) + [None]:
        attrs = {}
        if c is not None:
            vals = {}
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            a = selfattr(t, m)
                            if a:
                                vals.setdefault(a, []).append((m, n.value))
            for a, vs in vals.items():
                ks = [SetTypes(P, m, {}).kind(v) for m, v in vs
                      if not (isinstance(v, ast.Constant) and
                              v.value is None)]
                if ks and all(ks):
                    attrs[a] = "set" if "set" in ks else "int"
            fs = list(c.methods.values())
        else:
            fs = [f for m in P.modules.values() for f in m.funcs.values()]
        for f in fs:
            st = SetTypes(P, f, attrs)
            par = None
            for n in ast.walk(f.node):
                if not isinstance(n, ast.expr) or st.kind(n) is None:
                    continue
                if isinstance(getattr(n, "ctx", None), ast.Store):
                    continue
                if par is None:
                    par = parents(f.node)
                bad = None
                if st.kind(n) == "set":
                    bad = sink(P, f, n, par)
                if bad:
                    r.bad("%s:%s" % (f.id, ast.unparse(n)[:60]), at(f, n),
                          "%s depends on the iteration order of the set %s"
                          % (bad, ast.unparse(n)[:80]))
                else:
                    r.ok(at(f, n))
    return r


def sink(P, f, n, par, depth=0):
    p = par.get(n)
    if isinstance(p, ast.Starred):
        return "unpacking"
    if isinstance(p, (ast.For,)) and p.iter is n:
        return "loop" if order_matters(p) else None
    if isinstance(p, ast.comprehension) and p.iter is n:
        comp = par.get(p)
        if isinstance(comp, ast.SetComp):
            return None
        return consumer(P, f, comp, par) if not isinstance(
            comp, ast.DictComp) else "dictionary order"
    if isinstance(p, ast.Call):
        if n in p.args:
            if isinstance(p.func, ast.Name):
                if p.func.id in ORDERED and p.func.id not in f.module.funcs:
                    return consumer(P, f, p, par, p.func.id)
                return None
            e = extname(P, f.module, p.func)
            if e and e.split(".")[0] in ("numpy", "pandas") and \
                    e.split(".")[-1] in ("array", "asarray", "fromiter",
                                         "Series", "Index", "DataFrame",
                                         "stack", "concatenate", "hstack"):
                return e
            if isinstance(p.func, ast.Attribute) and p.func.attr in (
                    "join", "extend", "writelines"):
                return p.func.attr
    if isinstance(p, ast.Attribute) and p.value is n and p.attr == "pop":
        return "pop"
    return None


def consumer(P, f, e, par, what="comprehension"):
    """An ordered sequence built from a set: harmless if only its contents
    are used."""
    p = par.get(e)
    if isinstance(p, ast.Call) and e in p.args:
        if isinstance(p.func, ast.Name):
            if p.func.id in ORDERFREE:
                return None
            if p.func.id in ORDERED:
                return consumer(P, f, p, par, p.func.id)
        x = extname(P, f.module, p.func)
        if x in ("numpy.unique", "numpy.sort", "numpy.union1d",
                 "numpy.intersect1d", "numpy.setdiff1d", "numpy.isin",
                 "numpy.in1d", "numpy.lexsort") and (
                     p.args[0] is e or x.endswith(("isin", "in1d"))):
            return None
        if x in ("numpy.array", "numpy.asarray"):
            return consumer(P, f, p, par, x)
        if isinstance(p.func, ast.Attribute) and p.func.attr in (
                "isin", "update", "issubset", "issuperset", "drop"
                ) or isinstance(p.func, ast.Attribute) and \
                p.func.attr in SETOPS:
            return None
        return what
    if isinstance(p, ast.Compare) and e in p.comparators and all(
            isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return None
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(
            p.targets[0], ast.Name):
        name = p.targets[0].id
        uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and
                x.id == name and isinstance(x.ctx, ast.Load)]
        for u in uses:
            q = par.get(u)
            if isinstance(q, ast.Attribute) and q.attr == "sort":
                return None
        for u in uses:
            if consumer(P, f, u, par, what):
                return what
        return None
    if isinstance(p, (ast.For,)) and p.iter is e:
        return what if order_matters(p) else None
    if isinstance(p, ast.comprehension) and p.iter is e:
        comp = par.get(p)
        if isinstance(comp, ast.SetComp):
            return None
        return consumer(P, f, comp, par, what)
    if isinstance(p, (ast.If, ast.While)) or (
            isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not)):
        return None
    return what


# --------------------------------------------------- C20: randomness

SEEDED = {"RandomState", "default_rng", "SeedSequence", "Generator",
          "PCG64", "MT19937", "Random"}
NONDET = ("uuid.", "secrets.", "os.urandom", "os.getpid", "tempfile.mktemp",
          "datetime.datetime.now", "datetime.datetime.today",
          "datetime.date.today", "datetime.datetime.utcnow", "os.environ",
          "os.getenv", "socket.")


@rule("C20")
def random_sources(eng, ctx):
    r = Rule("C20.sources", "every call that may draw random numbers is "
             "given a seed (an option or a constant); identities, hashes, "
             "unordered directory listings and clocks never reach results",
             1000)
    P = eng.P
    for f in P.all_funcs():
        if f.cls is not None and f.name == "__hash__":
            continue
        par = None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            bad = None
            kws = {k.arg for k in n.keywords}
            e = extname(P, f.module, n.func)
            if e:
                last = e.split(".")[-1]
                if e.startswith("numpy.random.") or \
                        e.startswith("random."):
                    if last in SEEDED:
                        v = list(n.args) + [k.value for k in n.keywords]
                        if not v or all(isinstance(x, ast.Constant) and
                                        x.value is None for x in v):
                            bad = "unseeded generator %s" % e
                    elif last != "seed":
                        bad = "global random state used by %s" % e
                    else:
                        bad = "global random state changed by %s" % e
                elif any(e.startswith(x) for x in NONDET):
                    bad = "%s differs between runs" % e
                elif e.startswith("time."):
                    if par is None:
                        par = parents(f.node)
                    bad = clock(f, n, par)
                elif e in ("os.listdir", "os.scandir", "glob.glob",
                           "glob.iglob"):
                    if par is None:
                        par = parents(f.node)
                    p = par.get(n)
                    if not (isinstance(p, ast.Call) and isinstance(
                            p.func, ast.Name) and p.func.id == "sorted"):
                        bad = "%s lists in arbitrary order" % e
                elif last in ("imap_unordered", "as_completed"):
                    bad = "%s yields in completion order" % e
                elif e.startswith("sklearn.") and None not in kws and \
                        "random_state" not in kws:
                    a = external.accepts(e)
                    if a is not None and "random_state" in a[0] and \
                            len(n.args) < 2 and not deterministic(
                                P, f, n, e):
                        bad = "%s without random_state" % e
            elif isinstance(n.func, ast.Name) and n.func.id in (
                    "hash", "id") and n.func.id not in f.module.funcs and \
                    not any(isinstance(x, ast.Name) and x.id == n.func.id
                            and isinstance(x.ctx, ast.Store)
                            for x in ast.walk(f.node)):
                bad = "%s() differs between runs" % n.func.id
            elif isinstance(n.func, ast.Attribute):
                if n.func.attr == "rvs" and "random_state" not in kws:
                    bad = "random variates without random_state"
                elif n.func.attr == "sample" and (
                        kws & {"n", "frac", "replace", "weights"}) and \
                        "random_state" not in kws and None not in kws:
                    bad = "sample without random_state"
                elif n.func.attr in ("imap_unordered",):
                    bad = "results in completion order"
            if bad:
                r.bad("%s:%s" % (f.id, ast.unparse(n.func)), at(f, n), bad)
            else:
                r.ok()
    return r


def deterministic(P, f, n, e):
    """Estimators whose result does not depend on the random state as used
    here: a decision tree grown to a single-column input, estimators that
    are only inspected, linear models with the default solver."""
    last = e.split(".")[-1]
    par = parents(f.node)
    p = par.get(n)
    if isinstance(p, ast.Attribute) and p.attr in ("get_params",):
        return True
    kw = {k.arg: k.value for k in n.keywords}
    if last == "LogisticRegression":
        s = kw.get("solver")
        return s is None or isinstance(s, ast.Constant) and s.value in (
            "lbfgs", "newton-cg", "newton-cholesky")
    if last in ("Ridge", "Lasso", "ElasticNet"):
        return "selection" not in kw and "solver" not in kw
    if last.startswith("DecisionTree"):
        if "max_features" in kw or "splitter" in kw:
            return False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr == "fit" and \
                    x.args and "reshape(-1, 1)" in ast.unparse(x.args[0]):
                return True
    if last == "KBinsDiscretizer":
        return "subsample" in kw and isinstance(
            kw["subsample"], ast.Constant) and kw["subsample"].value is None
    return False


def clock(f, n, par):
    """Clock readings may only be kept in names and attributes that hold
    times, or be subtracted from them."""
    p = par.get(n)
    while isinstance(p, (ast.BinOp, ast.UnaryOp)):
        p = par.get(p)
    if isinstance(p, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
        ts = p.targets if isinstance(p, ast.Assign) else [p.target]
        for t in ts:
            name = t.id if isinstance(t, ast.Name) else \
                t.attr if isinstance(t, ast.Attribute) else ""
            if "time" not in name.lower() and "elapsed" not in name and \
                    "start" not in name:
                return "the clock is stored in %s" % ast.unparse(t)
        return None
    if isinstance(p, (ast.Call, ast.keyword, ast.Return, ast.FormattedValue)):
        return None             # logged, printed or handed on as a time
    if isinstance(p, ast.Compare):
        return "the clock decides a branch"
    return None


# --------------------------------------------------- C27: names

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__",
                                 "__package__", "__spec__", "__class__",
                                 "__path__"}


@rule("C27")
def defined_names(eng, ctx):
    r = Rule("C27.names", "every name that is read is bound in an enclosing "
             "function, in the module or is a builtin", 500)
    for m in eng.P.modules.values():
        glob = set(m.imports) | set(m.funcs) | set(m.classes) | \
            set(m.consts)
        star = False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(
                    a.name == "*" for a in n.names):
                star = True
        top = symtable.symtable(m.src, m.rel, "exec")
        glob |= {s.get_name() for s in top.get_symbols()
                 if s.is_assigned() or s.is_imported() or s.is_namespace()}

        def declared(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    glob.add(s.get_name())
            for c in t.get_children():
                declared(c)
        declared(top)

        def walk(t):
            for s in t.get_symbols():
                if not s.is_referenced() or not (
                        s.is_global() or t is top):
                    continue
                nm = s.get_name()
                if nm in glob or nm in BUILTINS or star or \
                        nm.startswith(".") or nm in (
                            "__annotations__", "__conditional_annotations__"):
                    r.ok()
                    continue
                if t is top and (s.is_assigned() or s.is_imported()):
                    r.ok()
                    continue
                line = next((x.lineno for x in ast.walk(m.tree)
                             if isinstance(x, ast.Name) and x.id == nm and
                             x.lineno >= t.get_lineno()), t.get_lineno())
                r.bad("%s:%s:%s" % (m.name, t.get_name(), nm),
                      "%s:%d (%s)" % (m.rel, line, t.get_name()),
                      "name %s is not defined" % nm)
            for c in t.get_children():
                walk(c)
        walk(top)
    return r


# --------------------------------------------------- C27: package calls

def bind(call, f, skip):
    """None if the call fits the signature, else the reason."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    kwo = [x.arg for x in a.kwonlyargs]
    if any(isinstance(x, ast.Starred) for x in call.args):
        star = True
    else:
        star = False
    kstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if n > len(pos) and not a.vararg:
        return "%d positional arguments for %d parameters" % (n, len(pos))
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given and not star:
            return "two values for %s" % k.arg
        if k.arg not in pos and k.arg not in kwo and not a.kwarg:
            return "unknown keyword %s" % k.arg
        given.add(k.arg)
    if star or kstar:
        return None
    d = f.defaults()
    miss = [p for p in pos if p not in given and p not in d]
    miss += [p for p in kwo if p not in given and p not in d]
    if miss:
        return "no value for %s" % ", ".join(miss)
    return None


def shadowed(f, name):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(
                n.ctx, ast.Store):
            return True
        if isinstance(n, ast.arg) and n.arg == name:
            return True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                n is not f.node and n.name == name:
            return True
    return False


def callee(P, f, call, c=None):
    """(Func, number of parameters bound implicitly) or None."""
    fn = call.func
    c = c or f.cls
    if isinstance(fn, ast.Name):
        if shadowed(f, fn.id):
            return None
        t = P.name_in(f.module, fn.id)
    elif isinstance(fn, ast.Attribute):
        v = fn.value
        a = f.node.args
        first = ([x.arg for x in a.posonlyargs + a.args] or [None])[0]
        if c is not None and isinstance(v, ast.Name) and v.id == first and \
                "staticmethod" not in f.deco:
            g = P.method(c, fn.attr)
            if g is None or any("property" in d for d in g.deco) or \
                    "classmethod" in g.deco:
                return None
            return g, (0 if "staticmethod" in g.deco else 1)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == "super" and f.cls is not None:
            mro = P.mro(c)
            if f.cls not in mro:
                return None
            for k in mro[mro.index(f.cls) + 1:]:
                if fn.attr in k.methods:
                    return k.methods[fn.attr], 1
            return None
        t = P.resolve_expr(f.module, fn)
        if isinstance(v, ast.Name) and shadowed(f, v.id):
            return None
    else:
        return None
    if isinstance(t, Func):
        if t.cls is not None:
            if any(d in ("staticmethod",) for d in t.deco):
                return t, 0
            return None
        if t.deco:
            return None
        return t, 0
    if isinstance(t, Class):
        if any(not isinstance(b, Class) and not (
                isinstance(b, tuple) and b[0] == "ext" and
                b[1].startswith("sklearn.base")) and b is not None
               for k in P.mro(t) for b in k.bases):
            pass
        g = P.method(t, "__init__")
        if g is None or P.method(t, "__new__"):
            return None
        return g, 1
    return None


@rule("C27")
def call_signatures(eng, ctx):
    r = Rule("C27.calls", "every call of a function, method or class of the "
             "package fits its signature", 500)
    P = eng.P
    for f in P.all_funcs():
        cs = [f.cls]
        if f.cls is not None:
            cs += P.subclasses(f.cls)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            seen = set()
            for c in cs:
                g = callee(P, f, n, c)
                if g is None or g[0].id in seen:
                    continue
                seen.add(g[0].id)
                # methods only subclasses define are called through them
                if c is not f.cls and (
                        callee(P, f, n) or P.method(c, f.name) is not f):
                    continue
                why = bind(n, g[0], g[1])
                if why:
                    r.bad("%s->%s" % (f.id, g[0].id), at(f, n),
                          "%s: %s" % (g[0].qual, why))
                else:
                    r.ok(at(f, n))
    return r


def result_len(f):
    """Number of values a function returns on every path, or None."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node:
            return None
        if isinstance(n, ast.Return):
            v = n.value
            if isinstance(v, ast.Tuple) and not any(
                    isinstance(x, ast.Starred) for x in v.elts):
                out.add(len(v.elts))
            else:
                return None
    return out or None


@rule("C27")
def unpacking(eng, ctx):
    r = Rule("C27.unpack", "every unpacking of a call of the package has as "
             "many targets as the function returns values", 100)
    P = eng.P
    for f in P.all_funcs():
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Call)):
                continue
            for t in n.targets:
                if not isinstance(t, (ast.Tuple, ast.List)) or any(
                        isinstance(x, ast.Starred) for x in t.elts):
                    continue
                g = callee(P, f, n.value)
                if g is None or g[0].name == "__init__":
                    continue
                k = result_len(g[0])
                if k is None:
                    continue
                if len(t.elts) not in k:
                    r.bad("%s->%s" % (f.id, g[0].id), at(f, n),
                          "%d targets for %s, which returns %s values" % (
                              len(t.elts), g[0].qual,
                              " or ".join(map(str, sorted(k)))))
                else:
                    r.ok(at(f, n))
    return r


@rule("C27")
def attributes_set(eng, ctx):
    r = Rule("C27.attrs", "every attribute of self that is read is assigned "
             "or defined somewhere in the class hierarchy", 1500)
    P = eng.P
    known = {}

    def names(c):
        if c.id in known:
            return known[c.id]
        out = set(c.consts) | set(c.methods)
        for s in c.node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and isinstance(
                            n.value, ast.Name):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(
                            n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        out.add("*")
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    out.add("*")
            if isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name):
                out.add(s.target.id)
        if "__getattr__" in c.methods:
            out.add("*")
        known[c.id] = out
        return out

    for c in classes(eng):
        fam = P.mro(c) + P.subclasses(c)
        ns = set()
        for k in fam:
            ns |= names(k)
        foreign = False
        extra = set()
        for k in P.mro(c):
            for b in k.bases:
                if isinstance(b, Class):
                    continue
                if isinstance(b, tuple) and b[0] == "ext" and \
                        b[1].startswith("sklearn.base."):
                    extra |= {"get_params", "set_params", "fit_transform",
                              "_check_feature_names", "_check_n_features",
                              "_validate_data", "n_features_in_",
                              "feature_names_in_", "_get_param_names",
                              "_estimator_type", "score", "set_output"}
                elif b is None and not k.node.bases:
                    pass
                else:
                    u = [ast.unparse(x) for x in k.node.bases]
                    if u not in (["object"],):
                        foreign = foreign or not isinstance(b, Class)
        if foreign or "*" in ns:
            continue
        for m in c.methods.values():
            if "staticmethod" in m.deco or "classmethod" in m.deco:
                continue
            for n in ast.walk(m.node):
                a = selfattr(n, m)
                if a is None or not isinstance(n.ctx, ast.Load):
                    continue
                if a in ns or a in extra or a.startswith("__"):
                    r.ok()
                else:
                    r.bad("%s:%s" % (m.id, a), at(m, n),
                          "self.%s is never assigned" % a)
    return r


@rule("C27")
def format_arguments(eng, ctx):
    r = Rule("C27.format", "every str.format call and % formatting has the "
             "arguments its template needs", 200)
    import string
    for f in eng.P.all_funcs():
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == "format" and
                    isinstance(n.func.value, ast.Constant) and isinstance(
                        n.func.value.value, str)):
                continue
            if any(isinstance(x, ast.Starred) for x in n.args) or any(
                    k.arg is None for k in n.keywords):
                continue
            kws = {k.arg for k in n.keywords}
            auto, need, why = 0, set(), None
            try:
                def scan(t):
                    nonlocal auto
                    for _, name, spec, _ in string.Formatter().parse(t):
                        if name is None:
                            continue
                        base = name.split(".")[0].split("[")[0]
                        if base == "":
                            need.add(auto)
                            auto += 1
                        elif base.isdigit():
                            need.add(int(base))
                        else:
                            need.add(base)
                        if spec:
                            scan(spec)
                scan(n.func.value.value)
            except ValueError as e:
                why = str(e)
            for x in need:
                if isinstance(x, int) and x >= len(n.args) or isinstance(
                        x, str) and x not in kws:
                    why = "no argument for {%s}" % x
            if why:
                r.bad("%s:%s" % (f.id, n.func.value.value[:40]), at(f, n),
                      why)
            else:
                r.ok()
    return r


@rule("C27")
def dependencies(eng, ctx):
    r = Rule("C27.deps", "functions and classes of installed dependencies "
             "exist and accept the keywords and the number of positional "
             "arguments they are called with (checked where their sources "
             "can be read)", 300)
    P = eng.P
    for m in P.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    d = external.lookup(n.module + "." + a.name)
                    if d == external.MISSING and external.closed(n.module):
                        r.bad("%s:%s" % (m.name, a.name),
                              "%s:%d" % (m.rel, n.lineno),
                              "%s has no %s" % (n.module, a.name))
                    else:
                        r.ok()
    for f in P.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load):
                e = extname(P, f.module, n)
                if e and external.closed(e.rsplit(".", 1)[0]) and \
                        external.lookup(e) == external.MISSING and \
                        not shadowed_root(f, n):
                    r.bad("%s:%s" % (f.id, e), at(f, n),
                          "%s does not exist" % e)
            if isinstance(n, ast.Call):
                e = extname(P, f.module, n.func)
                if not e or shadowed_root(f, n.func):
                    continue
                a = external.accepts(e)
                if a is None:
                    continue
                why = None
                for k in n.keywords:
                    if k.arg and k.arg not in a[0]:
                        why = "%s has no parameter %s" % (e, k.arg)
                if not any(isinstance(z, ast.Starred) for z in n.args) and \
                        len(n.args) > a[1]:
                    why = "%s takes at most %d positional arguments" % (
                        e, a[1])
                if why:
                    r.bad("%s:%s" % (f.id, e), at(f, n), why)
                else:
                    r.ok()
    return r


def shadowed_root(f, n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name) and shadowed(f, n.id)


# --------------------------------------------------- C09: options

@rule("C09")
def constructors_store(eng, ctx):
    r = Rule("C09.store", "constructors store each parameter under its own "
             "name and never another parameter under that name", 300)
    P = eng.P
    for c in classes(eng):
        init = c.methods.get("__init__")
        if init is None:
            continue
        ps = set(init.params()) | {a.arg for a in init.node.args.kwonlyargs}
        for n in ast.walk(init.node):
            pairs = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Tuple) and isinstance(
                            n.value, ast.Tuple) and len(t.elts) == len(
                                n.value.elts):
                        pairs += list(zip(t.elts, n.value.elts))
                    else:
                        pairs.append((t, n.value))
            for t, v in pairs:
                a = selfattr(t, init)
                if a is None or not isinstance(v, ast.Name) or \
                        v.id not in ps:
                    continue
                if a != v.id and a.lstrip("_") != v.id and a in ps:
                    r.bad("%s:%s" % (init.id, a), at(init, n),
                          "self.%s holds parameter %s" % (a, v.id))
                else:
                    r.ok(at(init, n))
    return r


@rule("C09")
def option_roles(eng, ctx):
    r = Rule("C09.roles", "an option or parameter handed to a callee of the "
             "package that has a parameter of the same name arrives at that "
             "parameter", 900)
    P = eng.P
    for f in P.all_funcs():
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            g = callee(P, f, n)
            if g is None:
                continue
            a = g[0].node.args
            pos = [x.arg for x in a.posonlyargs + a.args][g[1]:]
            allp = set(pos) | {x.arg for x in a.kwonlyargs}
            pairs = []
            for i, x in enumerate(n.args):
                if isinstance(x, ast.Starred) or i >= len(pos):
                    break
                pairs.append((pos[i], x))
            pairs += [(k.arg, k.value) for k in n.keywords if k.arg]
            src = {}
            for p, x in pairs:
                nm = x.id if isinstance(x, ast.Name) else selfattr(x, f)
                if nm is not None:
                    src[p] = nm.lstrip("_")
            for p, nm in src.items():
                q = p.lstrip("_")
                if nm == q or nm not in allp:
                    r.ok()
                    continue
                # exchanged with another option, or the parameter of that
                # name is left to its default
                given = {k for k, _ in pairs}
                other = src.get(nm)
                swap = other is not None and other != nm and other in allp
                if len(nm) > 2 and (swap or nm not in given) and \
                        options_like(eng, f, nm):
                    r.bad("%s->%s:%s" % (f.id, g[0].id, p), at(f, n),
                          "%s goes to parameter %s of %s, which has a "
                          "parameter %s" % (nm, p, g[0].qual, nm))
                else:
                    r.ok()
    return r


def options_like(eng, f, nm):
    if f.cls is not None and nm in options(eng, f.cls):
        return True
    return nm in f.params()


# --------------------------------------------------- C22: queries

# summaries computed from the fitted state on first use
LAZY = {("BinningProcess.information", k) for k in (
    "_is_updated", "_n_selected", "_support", "_variable_stats")} | {
        ("BinningProcessSketch.information", "_n_selected")}
QUERY = {"information", "plot", "to_json", "save", "__repr__", "__str__"}


@rule("C22")
def queries_keep_state(eng, ctx):
    r = Rule("C22.queries", "properties, plots, information and save methods "
             "assign no attribute of the object (documented summaries kept "
             "by build/analysis excepted)", 40)
    an = mutation(eng)
    for c in classes(eng):
        for m in c.methods.values():
            if not (m.name in QUERY or m.name.startswith("plot") or
                    any("property" == d or d.endswith("cached_property")
                        for d in m.deco)):
                continue
            w = an.sum[m].writes
            bad = {k: v for k, v in w.items()
                   if (m.qual, k) not in LAZY}
            for root, (line, text) in an.sum[m].mut.items():
                if root[0] == "a" and (m.qual, root[1]) not in LAZY:
                    bad[root[1]] = line
            if bad:
                for k, line in sorted(bad.items()):
                    r.bad("%s:%s" % (m.id, k), at(m, line or m.node),
                          "%s changes self.%s" % (m.name, k))
            else:
                r.ok(m.where)
    return r


# --------------------------------------------------- C21: JSON keys

@rule("C21")
def json_keys(eng, ctx):
    r = Rule("C21.keys", "the reader of a JSON document uses exactly keys "
             "that the writer writes, and restores every argument the table "
             "constructor requires")
    P = eng.P
    for c in classes(eng):
        w = P.method(c, "to_json")
        rd = P.method(c, "read_json")
        if w is None or rd is None:
            continue
        wk = set()
        todo, seen, opaque = [w], set(), False
        while todo:
            g = todo.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store):
                    if isinstance(n.slice, ast.Constant):
                        wk.add(n.slice.value)
                    else:
                        opaque = True
                elif isinstance(n, ast.Dict):
                    for k in n.keys:
                        if isinstance(k, ast.Constant):
                            wk.add(k.value)
                        else:
                            opaque = True
                elif isinstance(n, ast.DictComp):
                    opaque = True
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name) and n.func.id in (
                            "dict", "zip", "vars", "setattr", "getattr"):
                        wk |= {k.arg for k in n.keywords}
                        if n.func.id != "dict" or n.args or None in wk:
                            opaque = True
                    h = callee(P, g, n)
                    if h is not None and h[0].name != "__init__":
                        todo.append(h[0])
        if opaque:
            continue
        if not wk:
            continue
        for n in ast.walk(rd.node):
            if isinstance(n, ast.Subscript) and isinstance(
                    n.slice, ast.Constant) and isinstance(
                        n.slice.value, str) and isinstance(
                            n.ctx, ast.Load):
                if n.slice.value in wk:
                    r.ok("%s %s" % (rd.where, n.slice.value))
                else:
                    r.bad("%s:%s" % (rd.id, n.slice.value), at(rd, n),
                          "reads key %r, which is never written" %
                          n.slice.value)
        for n in ast.walk(rd.node):
            if not isinstance(n, ast.Call):
                continue
            g = callee(P, rd, n)
            if g is None or g[0].name != "__init__" or not any(
                    k.arg is None for k in n.keywords):
                continue
            a = g[0].node.args
            ps = set(g[0].params())
            if a.kwarg:
                continue
            req = {p for p in g[0].params() if p not in g[0].defaults()}
            given = {k.arg for k in n.keywords if k.arg}
            extra = wk - ps
            if req - wk - given:
                r.bad("%s:req" % rd.id, at(rd, n),
                      "%s requires %s, never written" % (
                          g[0].qual, ", ".join(sorted(req - wk - given))))
            r.ok()
            del extra
    return r


# --------------------------------------------------- C11: completion flags

FLAG = {"_is_fitted", "_is_built", "_is_analyzed", "_is_solved",
        "_is_generated", "_is_updated"}
HARMLESS = {"len", "isinstance", "list", "dict", "tuple", "str", "print",
            "type", "bool", "round", "min", "max", "abs", "sum", "range",
            "enumerate", "zip", "id", "repr", "getattr", "hasattr", "set",
            "sorted", "super", "issubclass", "callable"}
# statistics gathered about an already completed solve
AFTERWARDS = {"OptimalBinningSketch.solve": "_update_streaming_stats"}
SAFE_EXT = ("time.", "logging.", "numpy.array", "numpy.asarray", "gc.",
            "pandas.DataFrame", "numpy.zeros", "numpy.ones", "numpy.empty",
            "datetime.", "numpy.sum", "numpy.append", "numpy.copy", "copy.",
            "numpy.argsort")
SAFE_METH = {"format", "join", "append", "copy", "items", "keys", "values",
             "update", "info", "debug", "warning", "error", "close", "get",
             "extend", "astype", "tolist", "isEnabledFor"}


def may_fail(P, f, call, depth=0):
    """The call runs code that rejects input, solves or computes."""
    fn = call.func
    if isinstance(fn, ast.Name) and fn.id in HARMLESS and \
            not shadowed(f, fn.id):
        return False
    x = extname(P, f.module, fn)
    if x is not None:
        return not x.startswith(SAFE_EXT)
    t = P.resolve_expr(f.module, fn)
    g = callee(P, f, call)
    if isinstance(t, Class) and g is None:
        return False                   # exception class or plain container
    if g is None:
        if isinstance(fn, ast.Attribute):
            return fn.attr not in SAFE_METH
        return isinstance(fn, ast.Name) and shadowed(f, fn.id)
    if depth > 6:
        return False
    g = g[0]
    if any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(g.node)):
        return True
    return any(may_fail(P, g, n, depth + 1) for n in ast.walk(g.node)
               if isinstance(n, ast.Call))


def sets_flag(P, f, s, seen=()):
    """Flags that a statement sets to True: directly, or by a call of a
    private method of the object."""
    out = set()
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and \
            s.value.value is True:
        for t in s.targets:
            a = selfattr(t, f)
            if a in FLAG:
                out.add(a)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        g = callee(P, f, s.value)
        if g is not None and g[0].cls is not None and \
                g[0].name.startswith("_") and g[0].name != "__init__" and \
                g[0] not in seen and len(g[0].node.body) <= 4:
            for b in g[0].node.body:
                out |= sets_flag(P, g[0], b, seen + (f,))
    return out


@rule("C11")
def flags_set_last(eng, ctx):
    r = Rule("C11.last", "a completion flag is set only after every step "
             "that can fail: no rejecting, solving or computing call follows "
             "it in the method", 8)
    P = eng.P
    for f in P.all_funcs():
        if f.cls is None or f.name == "__init__":
            continue
        ex = AFTERWARDS.get(f.qual)
        if ex is not None and P.method(f.cls, ex) is None:
            continue

        def block(body, after):
            for i, s in enumerate(body):
                rest = body[i + 1:] + after
                fl = sets_flag(P, f, s)
                if fl:
                    late = [n for b in rest for n in ast.walk(b)
                            if isinstance(n, ast.Call) and
                            may_fail(P, f, n) and not (
                                ex is not None and isinstance(
                                    n.func, ast.Attribute) and
                                n.func.attr == ex)]
                    own = [n for n in late if not guarded_exit(body, i, n)]
                    if own:
                        r.bad("%s:%s" % (f.id, sorted(fl)[0]), at(f, s),
                              "self.%s = True comes before %s (line %d), "
                              "which can fail" % (
                                  sorted(fl)[0], ast.unparse(own[0])[:80],
                                  own[0].lineno))
                    else:
                        r.ok("%s %s" % (at(f, s), sorted(fl)[0]))
                for fld in ("body", "orelse", "finalbody"):
                    b = getattr(s, fld, None)
                    if isinstance(b, list) and b and isinstance(
                            b[0], ast.stmt) and not isinstance(
                                s, (ast.FunctionDef, ast.ClassDef)):
                        loop = isinstance(s, (ast.For, ast.While))
                        block(b, [s] + rest if loop else rest)
                for h in getattr(s, "handlers", []):
                    block(h.body, rest)
        block(list(f.node.body), [])
    return r


RESTARTED = {"_is_fitted", "_is_solved"}


def clears(P, c, f, s, flag, depth=0):
    """The statement sets the flag to False, at least if it was set."""
    if isinstance(s, (ast.Assign, ast.AnnAssign)):
        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
        pairs = [(t, s.value) for t in ts]
        for t in ts:
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                pairs += list(zip(t.elts, s.value.elts))
        return any(isinstance(v, ast.Constant) and not v.value and
                   selfattr(t, f) == flag for t, v in pairs)
    if isinstance(s, ast.If):
        if any(selfattr(n, f) == flag for n in ast.walk(s.test)
               if isinstance(n, ast.Attribute)):
            return any(clears(P, c, f, b, flag, depth)
                       for b in s.body + s.orelse)
        return bool(s.orelse) and all(
            any(clears(P, c, f, b, flag, depth) for b in body)
            for body in (s.body, s.orelse))
    if isinstance(s, (ast.With, ast.Try)):
        return any(clears(P, c, f, b, flag, depth) for b in s.body)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
            depth < 4:
        a = selfattr(s.value.func, f)
        g = P.method(c, a) if a else None
        if g is None:
            g = callee(P, f, s.value)
            g = g[0] if g is not None and g[0].cls is not None else None
        return g is not None and any(
            clears(P, c, g, b, flag, depth + 1) for b in g.node.body)
    return False


def checks_only(call):
    n = call.func.attr if isinstance(call.func, ast.Attribute) else \
        getattr(call.func, "id", "")
    return n.lstrip("_").startswith("check_") or n == "get_params"


def first_step(P, c, f, flag, until=None):
    """First call that can fail before the flag is cleared (None if it is
    cleared first; `until`: stop after the statement with that call)."""
    for s in f.node.body:
        if clears(P, c, f, s, flag):
            return None
        skip = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Raise) or \
                    isinstance(n, ast.Call) and checks_only(n):
                skip |= {id(x) for x in ast.walk(n)}
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and id(n) not in skip and \
                    may_fail(P, f, n):
                return n
    return f.node


@rule("C11")
def flags_restart(eng, ctx):
    r = Rule("C11.restart", "a step that can be repeated clears its "
             "completion flag before the first call that can fail, so that a "
             "failed repetition leaves the object not fitted", 8)
    P = eng.P
    seen = set()
    for c in classes(eng):
        names = {n for k in P.mro(c) for n in k.methods}
        for name in sorted(names - {"__init__"}):
            f = P.method(c, name)
            # restoring a saved object reads the file first
            if f is None or name.startswith("read"):
                continue
            flags = set()
            for s in ast.walk(f.node):
                if isinstance(s, ast.stmt):
                    flags |= sets_flag(P, f, s)
            for flag in sorted(flags & RESTARTED):
                if len(f.node.body) <= 4 and name.startswith("_") and \
                        not any(isinstance(n, ast.Call)
                                for n in ast.walk(f.node)):
                    continue           # a helper that only sets the flag
                n = first_step(P, c, f, flag)
                if n is not None:
                    # cleared by every caller of the object itself
                    up = [g for m in names
                          for g in [P.method(c, m)] if g is not None and any(
                              isinstance(x, ast.Call) and
                              selfattr(x.func, g) == name
                              for x in ast.walk(g.node))]
                    if up and name.startswith("_") and all(
                            first_step(P, c, g, flag) is None for g in up):
                        n = None
                if n is None:
                    r.ok("%s %s: %s" % (c.id, f.id, flag))
                elif f.id not in seen:
                    seen.add(f.id)
                    r.bad("%s:%s" % (f.id, flag), at(f, f.node),
                          "%s is not cleared before %s (line %d), which can "
                          "fail" % (flag, ast.unparse(n)[:80]
                                    if n is not f.node else "the end",
                                    n.lineno))
    return r


def guarded_exit(body, i, n):
    """The flag's block ends by leaving the method before the call."""
    for s in body[i + 1:]:
        if any(x is n for x in ast.walk(s)):
            return False
        if isinstance(s, (ast.Return, ast.Raise)):
            return True
    return False


# --------------------------------------------- C06: back ends of one driver

SOLVER_ONLY = {"mip_solver", "n_jobs"}      # settings of a solver itself


def backends(eng):
    """Classes that build and solve an optimisation model of a binning."""
    return [c for c in classes(eng)
            if eng.P.method(c, "build_model") and eng.P.method(c, "solve")
            and ".binning." in c.id]


@rule("C06")
def equal_backends(eng, ctx):
    r = Rule("C06.backends", "the back ends one driver chooses from accept "
             "the same options (settings of a solver itself excepted)", 8)
    P = eng.P
    bs = {c.id: c for c in backends(eng)}
    for f in P.all_funcs():
        used = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = callee(P, f, n)
                if g is not None and g[0].name == "__init__":
                    for k in bs.values():
                        if P.method(k, "__init__") is g[0]:
                            used[k.id] = (k, n)
        if len(used) < 2:
            continue
        ps = {}
        for k, n in used.values():
            i = P.method(k, "__init__")
            ps[k] = {p.lstrip("_") for p in i.params()[1:]} | {
                a.arg.lstrip("_") for a in i.node.args.kwonlyargs}
        every = set().union(*ps.values()) - SOLVER_ONLY
        for k, n in used.values():
            lost = every - ps[k]
            for o in sorted(lost):
                r.bad("%s:%s" % (k.name, o), at(f, n),
                      "%s is an option of the other back ends, %s does not "
                      "take it" % (o, k.name))
            for o in every - lost:
                r.ok("%s: %s" % (k.name, o))
    return r


@rule("C06")
def model_uses_data(eng, ctx):
    r = Rule("C06.discard", "a back end uses every value the package computes "
             "for its model", 10)
    P = eng.P
    for c in backends(eng):
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if not (isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call) and isinstance(
                            n.targets[0], (ast.Tuple, ast.List))):
                    continue
                g = callee(P, m, n.value)
                if g is None or g[0].cls is not None or result_len(
                        g[0]) is None:
                    continue
                names = result_names(g[0])
                read = {x.id for x in ast.walk(m.node) if isinstance(
                    x, ast.Name) and isinstance(x.ctx, ast.Load)}
                for i, t in enumerate(n.targets[0].elts):
                    if isinstance(t, ast.Name) and t.id not in read:
                        nm = names[i] if i < len(names) else str(i)
                        r.bad("%s:%s" % (c.name, nm), at(m, n),
                              "%s of %s is not used in the model" % (
                                  nm, g[0].qual))
                    else:
                        r.ok(at(m, n))
    return r


def result_names(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
            return [x.id if isinstance(x, ast.Name) else "value %d" % i
                    for i, x in enumerate(n.value.elts)]
    return []


# ------------------------------------------------- C04: sums of weights

WEIGHTS = ("sw", "sample_weight", "weights")


@rule("C04")
def weight_sums(eng, ctx):
    r = Rule("C04.weights", "an array that receives sums of sample weights "
             "is not an integer array", 0)
    P = eng.P
    for f in P.all_funcs():
        ints = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and isinstance(
                        n.value, ast.Call) and extname(
                            P, f.module, n.value.func) in (
                        "numpy.empty", "numpy.zeros", "numpy.full",
                        "numpy.ones"):
                d = [k.value for k in n.value.keywords if k.arg == "dtype"]
                ints[n.targets[0].id] = bool(d) and (
                    extname(P, f.module, d[0]) or getattr(
                        d[0], "id", "")) in ("int", "numpy.int64",
                                             "numpy.int32", "numpy.intp")
        if not ints:
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, (ast.Assign, ast.AugAssign)):
                continue
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if not (isinstance(t, ast.Subscript) and isinstance(
                    t.value, ast.Name) and t.value.id in ints):
                continue
            if sum_of_weights(P, f, n.value):
                k = "%s:%s" % (f.id, t.value.id)
                if ints[t.value.id]:
                    r.bad(k, at(f, n), "sums of sample weights are truncated "
                          "to integers in %s" % t.value.id)
                else:
                    r.ok(k)
    return r


def sum_of_weights(P, f, e):
    for n in ast.walk(e):
        if not isinstance(n, ast.Call):
            continue
        x = None
        if extname(P, f.module, n.func) in ("numpy.sum", "sum") and n.args:
            x = n.args[0]
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "sum":
            x = n.func.value
        if x is not None and any(isinstance(y, ast.Name) and y.id in WEIGHTS
                                 for y in ast.walk(x)):
            return True
    return False


# --------------------------------- C14: keyword arguments of each variable

@rule("C14")
def fresh_keywords(eng, ctx):
    r = Rule("C14.fresh", "keyword arguments collected for one variable do "
             "not reach the call for the next one", 2)
    for f in eng.P.all_funcs():
        for lp in ast.walk(f.node):
            if not isinstance(lp, (ast.For, ast.While)):
                continue
            splats = {k.value.id: k.value for n in ast.walk(lp)
                      if isinstance(n, ast.Call) for k in n.keywords
                      if k.arg is None and isinstance(k.value, ast.Name)}
            # options looked up by their names
            splats.update({
                n.func.value.id: n.func.value for n in ast.walk(lp)
                if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == "get" and
                isinstance(n.func.value, ast.Name) and n.args and isinstance(
                    n.args[0], ast.Constant) and isinstance(
                        n.args[0].value, str)})
            for name, use in splats.items():
                if innermost(f.node, use) is not lp:
                    continue
                r.ok(at(f, use))
                if any(isinstance(n, ast.Name) and n.id == name and
                       isinstance(n.ctx, ast.Store) for n in ast.walk(lp)):
                    continue
                for n in ast.walk(lp):
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute) and \
                            n.func.attr == "update" and isinstance(
                                n.func.value, ast.Name) and \
                            n.func.value.id == name and any(
                                not isinstance(a, ast.Dict)
                                for a in n.args):
                        r.bad("%s:%s" % (f.id, name), at(f, n),
                              "entries of %s stay for the following "
                              "iterations" % name)
    return r


def innermost(fn, node):
    """The innermost loop around a node."""
    best = None
    for lp in ast.walk(fn):
        if isinstance(lp, (ast.For, ast.While)) and any(
                x is node for x in ast.walk(lp)):
            best = lp
    return best
