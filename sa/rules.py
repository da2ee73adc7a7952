"""Structural rules that do not use the reference model's values.

They run on the current program only; the reference program is used to know
which names are public.
"""
import ast
from .index import Func, Class
from .mutation import Analysis


class Found:
    def __init__(self, key, where, text):
        self.key = key
        self.where = where
        self.text = text


class Rule:
    error = None

    def __init__(self, rid, text, floor=0):
        self.id = rid
        self.text = text
        self.floor = floor
        self.checked = 0
        self.found = []
        self.examples = []

    def ok(self, example=None):
        self.checked += 1
        if example and len(self.examples) < 12:
            self.examples.append(example)

    def bad(self, key, where, text):
        self.checked += 1
        self.found.append(Found(key, where, text))


RULES = {}


def rule(*pids):
    def d(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f
    return d


def run(pid, eng, ctx):
    out = []
    for f in RULES.get(pid, []):
        try:
            r = f(eng, ctx)
        except Exception as x:
            r = Rule(f.__name__, "not analysed")
            r.error = "%s: %s" % (type(x).__name__, x)
        out.extend(r if isinstance(r, list) else [r])
    return out


# ------------------------------------------------------------------ helpers

def at(f, node):
    return "%s:%d (%s)" % (f.module.rel, getattr(node, "lineno", node), f.qual)


def public(eng, f):
    """Functions and methods users call."""
    if f.name.startswith("_") and f.name not in ("__init__", "__call__"):
        return False
    if f.cls is not None and f.cls.name.startswith("_"):
        return False
    top = f.qual.split(".")[0]
    return eng.R.func(f.id) is not None or top in eng.al.exported()


def mutation(eng):
    if not hasattr(eng, "_mutation"):
        eng._mutation = Analysis(eng.P)
    return eng._mutation


def options(eng, c):
    """Constructor parameters of a class stored under their own name."""
    init = eng.P.method(c, "__init__")
    if init is None:
        return set()
    out = set()
    names = set(init.params()) | {a.arg for a in init.node.args.kwonlyargs}
    for k in eng.P.mro(c):
        i = k.methods.get("__init__")
        if i is None:
            continue
        for n in ast.walk(i.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                for t in n.targets:
                    if selfattr(t, i) == n.value.id and n.value.id in names:
                        out.add(n.value.id)
    return out


def selfattr(t, f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
            pos and t.value.id == pos[0]:
        return t.attr
    return None


def classes(eng):
    for m in eng.P.modules.values():
        for c in m.classes.values():
            yield c


# -------------------------------------------- C12: data of the caller

@rule("C12")
def params_not_modified(eng, ctx):
    r = Rule("C12.params", "no public function or method modifies in place "
             "(item or attribute assignment, mutating method, in-place "
             "operator, out=/inplace=, directly or through a callee) an "
             "object that may alias one of its parameters", 150)
    an = mutation(eng)
    for f in eng.P.all_funcs():
        if not public(eng, f):
            continue
        bad = False
        for root, (line, text) in sorted(an.sum[f].mut.items()):
            if root[0] == "p":
                bad = True
                r.bad("%s:%s" % (f.id, root[1]), at(f, line),
                      "parameter %s may be modified in place by %s" % (
                          root[1], text))
        if not bad:
            r.ok(f.where)
    return r


@rule("C12", "C13")
def kept_data_not_modified(eng, ctx):
    r = Rule("C12.kept", "no method modifies in place an object that a "
             "public method or the constructor stored from its parameters "
             "without a copy", 100)
    an = mutation(eng)
    for c in classes(eng):
        own = an.owned(c)
        for m in c.methods.values():
            bad = False
            for root, (line, text) in sorted(an.sum[m].mut.items()):
                if root[0] == "a" and root[1] in own:
                    src, par = own[root[1]]
                    bad = True
                    r.bad("%s:%s" % (m.id, root[1]), at(m, line),
                          "self.%s holds parameter %s of %s and may be "
                          "modified in place by %s" % (
                              root[1], par, src.name, text))
            if not bad:
                r.ok(m.where)
    return r


@rule("C14", "C13", "C20")
def shared_state(eng, ctx):
    r = Rule("C14.shared", "no function modifies an object shared by all "
             "calls (module-level container, mutable default argument)", 400)
    an = mutation(eng)
    for f in eng.P.all_funcs():
        bad = False
        for root, (line, text) in sorted(an.sum[f].mut.items()):
            if root[0] == "g":
                bad = True
                r.bad("%s:%s" % (f.id, root[1]), at(f, line),
                      "%s is shared by all calls and modified by %s" % (
                          root[1], text))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                bad = True
                r.bad("%s:global" % f.id, at(f, n),
                      "assigns module-level state: global %s" %
                      ", ".join(n.names))
        if not bad:
            r.ok(f.where)
    return r


# ------------------------------------------------- C13: options

@rule("C13")
def options_not_assigned(eng, ctx):
    r = Rule("C13.options", "an attribute that holds a constructor option is "
             "assigned only by the constructor", 200)
    for c in classes(eng):
        if c.module.name.endswith("logging"):
            continue
        opts = options(eng, c)
        for m in c.methods.values():
            if m.name in ("__init__", "set_params", "__setstate__"):
                continue
            for n in ast.walk(m.node):
                ts = []
                if isinstance(n, ast.Assign):
                    ts = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    ts = [n.target]
                elif isinstance(n, (ast.For,)):
                    ts = [n.target]
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == "setattr" and \
                        len(n.args) == 3 and isinstance(
                            n.args[1], ast.Constant):
                    if n.args[1].value in opts and isinstance(
                            n.args[0], ast.Name) and \
                            n.args[0].id == "self":
                        r.bad("%s:%s" % (m.id, n.args[1].value), at(m, n),
                              "setattr of option %s" % n.args[1].value)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and \
                        n.func.attr == "set_params" and isinstance(
                            n.func.value, ast.Name) and \
                        n.func.value.id == "self":
                    r.bad("%s:set_params" % m.id, at(m, n),
                          "set_params of the object itself")
                for t in ts:
                    for x in ast.walk(t):
                        a = selfattr(x, m)
                        if a is None or not isinstance(
                                x.ctx, ast.Store):
                            continue
                        if a in opts:
                            r.bad("%s:%s" % (m.id, a), at(m, n),
                                  "option self.%s is assigned" % a)
                        else:
                            r.ok("%s self.%s" % (m.where, a))
    return r


from . import lints  # noqa: E402,F401  (registers its rules)
