"""Value-flow comparison of the analysed tree with the reference model.

For every function of the reference model the canonical summary (returned
value, final attribute values, effects, rejections) of the analysed function is
compared with the canonical summary of the reference function.  Calls between
known functions stay opaque, so a difference is reported where it is; new
helper functions are looked through.  A difference in a private function is
only reported if it is still visible when the function is looked through in
its callers.
"""
import ast
import difflib
import os
import re
from . import terms as tm
from .terms import FALSE, TRUE, mk, show
from .index import Project, Class
from . import evalr
from .evalr import Ev, SELF
from . import compare as cmp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFROOT = os.path.join(HERE, "spec", "reference")
REPO = os.environ.get("OPTB_ROOT", "/repo")

IGNORED_ATTRS = re.compile(r"^(_time.*|_logger|logger|_class_logger)$")
DECOS = ("property", "staticmethod", "classmethod")


def tokens(node):
    """Identifier / literal multiset of a syntax tree."""
    out = {}
    for x in ast.walk(node):
        k = None
        if isinstance(x, ast.Name):
            k = "n:" + x.id
        elif isinstance(x, ast.Attribute):
            k = "a:" + x.attr
        elif isinstance(x, ast.arg):
            k = "p:" + x.arg
        elif isinstance(x, ast.Constant):
            k = "c:" + repr(x.value)[:40]
        elif isinstance(x, ast.keyword):
            k = "k:" + str(x.arg)
        elif isinstance(x, (ast.operator, ast.cmpop, ast.stmt)):
            k = "t:" + type(x).__name__
        if k:
            out[k] = out.get(k, 0) + 1
    return out


def similarity(a, b):
    ta, tb = tokens(a), tokens(b)
    n = sum(min(v, tb.get(k, 0)) for k, v in ta.items())
    m = max(sum(ta.values()), sum(tb.values()), 1)
    return n / m


TINY = 4        # tokens
LOCAL = 10      # tokens replaced; larger edits are restructurings


def toklist(f):
    """Token list of a function without docstring and layout."""
    body = f.node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant) and isinstance(
                body[0].value.value, str):
        body = body[1:]
    txt = "\n".join([ast.unparse(f.node.args)] +
                    [ast.unparse(b) for b in body])
    return re.findall(r"\w+|'[^'\n]*'|\"[^\"\n]*\"|[^\s\w]", txt)


def is_private(name):
    return name.startswith("_") and not name.startswith("__")


class Aligned:
    """The analysed project with renamed private names mapped back."""

    def __init__(self, root=None):
        self.R = Project(REFROOT)
        self.P = Project(root or REPO)
        self.renames = []
        self._align()
        self.known = {f.id for f in self.R.all_funcs()}
        self.moved = {}
        self.shared = set()
        self._moves()
        self.known_cls = {c.id for m in self.R.modules.values()
                          for c in m.classes.values()}

    # -- moved definitions --------------------------------------------------
    def _moves(self):
        """Functions moved to another module or up the class hierarchy."""
        tgt = {}
        for fid in sorted(self.known):
            g = self.P.func(fid)
            if g is None:
                continue
            own = "%s:%s" % (g.module.name, g.qual)
            if own != fid and own not in self.known:
                tgt.setdefault(own, []).append((fid, g))
        for own, l in tgt.items():
            if len(l) == 1:
                l[0][1].alias = l[0][0]
                self.moved[own] = l[0][0]
            else:
                # one definition replaces several: looked through
                self.shared |= {fid for fid, _ in l}

    # -- renaming -----------------------------------------------------------
    def _align(self):
        R, P = self.R, self.P
        ren = {}
        for mn, rm in R.modules.items():
            pm = P.modules.get(mn)
            if pm is None:
                continue
            self._pair(rm.funcs, pm.funcs, ren)
            for cn, rc in rm.classes.items():
                pc = pm.classes.get(cn)
                if pc is None:
                    continue
                gone = {k: v for k, v in rc.methods.items()
                        if k not in pc.methods and P.method(pc, k) is None}
                new = {k: v for k, v in pc.methods.items()
                       if k not in rc.methods and R.method(rc, k) is None}
                self._pair(gone, new, ren)
        # attributes of self
        ra, pa = attr_sites(R), attr_sites(P)
        gone = {k: v for k, v in ra.items() if k not in pa and is_private(k)}
        new = {k: v for k, v in pa.items() if k not in ra and is_private(k)}
        used = set()
        for g, gs in gone.items():
            best = None
            for n, ns in new.items():
                if n in used:
                    continue
                inter = sum(min(c, ns.get(k, 0)) for k, c in gs.items())
                sc = inter / max(sum(gs.values()), sum(ns.values()), 1)
                if sc >= 0.7 and (best is None or sc > best[0]):
                    best = (sc, n)
            if best:
                used.add(best[1])
                ren[best[1]] = g
        if ren:
            self.renames = sorted(ren.items())
            self._apply(ren)
        # parameters of private functions, by position
        for f in list(P.all_funcs()):
            r = R.func(f.id)
            if r is None or r.qual != f.qual:
                continue
            if not (is_private(f.name) or f.name == "__init__" and
                    False):
                continue
            a, b = f.params(), r.params()
            if len(a) == len(b) and a != b and \
                    not (set(a) & set(b)) - {x for x, y in zip(a, b)
                                             if x == y}:
                m = {x: y for x, y in zip(a, b) if x != y}
                if not _uses_names(f.node, set(m.values())):
                    self._rename_params(f, m)
                    self.renames.append((f.id, sorted(m.items())))

    def exported(self):
        """Names re-exported by the package's __init__ modules."""
        if not hasattr(self, "_exp"):
            self._exp = set()
            for m in self.R.modules.values():
                if m.is_pkg:
                    self._exp |= set(m.imports)
        return self._exp

    def _pair(self, old, cur, ren):
        gone = {k: v for k, v in old.items() if k not in cur}
        new = {k: v for k, v in cur.items() if k not in old}
        pairs = []
        for g, gf in gone.items():
            top = gf.qual.split(".")[0]
            if g.startswith("__") or not is_private(g) and \
                    top in self.exported():
                continue
            for n, nf in new.items():
                s = similarity(gf.node, nf.node)
                if s >= 0.75 and len(gf.params()) == len(nf.params()):
                    pairs.append((s, g, n))
        pairs.sort(reverse=True)
        gs, ns = set(), set()
        for s, g, n in pairs:
            if g in gs or n in ns or n in ren:
                continue
            gs.add(g)
            ns.add(n)
            ren[n] = g

    def _apply(self, ren):
        for m in self.P.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and x.attr in ren:
                    x.attr = ren[x.attr]
                elif isinstance(x, ast.Name) and x.id in ren:
                    x.id = ren[x.id]
                elif isinstance(x, ast.FunctionDef) and x.name in ren:
                    x.name = ren[x.name]
                elif isinstance(x, ast.alias):
                    if x.name in ren:
                        if x.asname is None:
                            x.name = ren[x.name]
                        else:
                            x.name = ren[x.name]
            m.imports = {}
            m.funcs = {}
            m.classes = {}
            m.consts = {}
            m._collect()
        for m in self.P.modules.values():
            for c in m.classes.values():
                c.bases = [self.P.resolve_expr(m, b) for b in c.node.bases]
        self.P._mro = {}
        self.P._wr = {}

    def _rename_params(self, f, m):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, ast.arg) and x.arg in m:
                x.arg = m[x.arg]
        short = f.name
        for mod in self.P.modules.values():
            for x in ast.walk(mod.tree):
                if isinstance(x, ast.Call):
                    n = x.func.attr if isinstance(x.func, ast.Attribute) \
                        else getattr(x.func, "id", None)
                    if n == short:
                        for k in x.keywords:
                            if k.arg in m:
                                k.arg = m[k.arg]


def _uses_names(node, names):
    return any(isinstance(x, ast.Name) and x.id in names
               for x in ast.walk(node))


def attr_sites(p):
    """self attribute -> multiset of sites (function id, kind)."""
    out = {}
    for f in p.all_funcs():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and \
                    isinstance(x.value, ast.Name):
                d = out.setdefault(x.attr, {})
                k = (f.id, type(x.ctx).__name__)
                d[k] = d.get(k, 0) + 1
    return out


def names_only(v):
    """A difference between plain attributes and parameters handed to the same
    parameter of the same callee."""
    return bool(v.pairs) and all(
        getattr(p, "ctx", None) and isinstance(p[0], tm.T) and
        isinstance(p[1], tm.T) and p[0].op in ("attr", "sym") and
        p[1].op in ("attr", "sym") for p in v.pairs)


def option(k):
    """Name of the option a term stands for."""
    if k.op == "attr":
        return k.args[1]
    if k.op == "sym":
        return k.args[0].lstrip("$")
    if k.op == "sub" and k.args[1].op == "const":
        return k.args[1].args[0]
    return None


def is_print(e):
    t = e.term
    while t.op == "eff":
        t = t.args[3]
    return e.kind == "call" and t.op == "call" and t.args[0] == "print"


def msg_kind(e):
    t = e.term
    while t.op == "eff":
        t = t.args[3]
    if t.op == "call":
        return t.args[0] if t.args[0] in ("print", "warnings.warn") or \
            t.args[0].startswith("logging.") else None
    if t.op == "mcall" and t.args[1] in (
            "info", "debug", "warning", "error", "critical", "log",
            "exception"):
        return t.args[1]
    return None


def under_verbose(e):
    g, t = e.guard, e.term
    while t.op == "eff":
        g = tm.b_and(g, tm.truth(t.args[2]))
        t = t.args[3]
    for a in tm.atoms_of(g):
        if a.op == "truth" and show(a.args[0]).endswith("verbose") and \
                tm.restrict(g, a, False) is FALSE:
            return True
    return False


def under(s, m):
    """A summary with sub-terms replaced."""
    import copy
    s = copy.copy(s)
    s.ret = tm.subst(s.ret, m)
    s.heap = {k: tm.subst(v, m) for k, v in s.heap.items()}
    log = []
    for e in s.log:
        e = copy.copy(e)
        if e.kind != "raise":
            e.guard, e.term = tm.subst(e.guard, m), tm.subst(e.term, m)
            if e.guard is FALSE:
                continue
        log.append(e)
    s.log = log
    return s


class Engine:
    def __init__(self, root=None):
        self.al = Aligned(root)
        self.R, self.P = self.al.R, self.al.P
        self.known = self.al.known
        self._sum = {}
        self.failures = []
        self._ver = {}
        self.kn = self.known | self.al.known_cls
        self.functions_compared = set()

    def boundary(self, opened=frozenset()):
        kn = self.known

        sh = self.al.shared

        def b(f):
            return f.id in kn and f.id not in opened and f.id not in sh
        return b

    def summary(self, side, fid, clsid=None, opened=frozenset()):
        key = (side, fid, clsid, opened)
        s = self._sum.get(key)
        if s is None:
            p = self.R if side == "R" else self.P
            f = p.func(fid)
            if f is None:
                return None
            if clsid is None and "." in fid.split(":")[1]:
                c = p.cls(fid[:fid.rindex(".")])
            else:
                c = p.cls(clsid) if clsid else None
            bd = self.boundary(opened)
            e = Ev(p, boundary=lambda g, f=f: g is not f and bd(g),
                   ref=self.R)
            s = self.guarded(lambda: e.run(f, c))
            if s is None:
                s = evalr.Summary()
                s.func, s.ret, s.heap, s.env = f, tm.NONE, {}, {}
                s.log, s.unknowns, s.lines = [], [], {}
                s.raised = s.over = False
                s.inlined = s.missed = set()
                s.failed = True
            self._sum[key] = s
        return s

    def guarded(self, f, default=None):
        """f(), or default if the analysis gives up."""
        top = tm.Limit.top
        tm.Limit.top = tm.Limit.made + tm.Limit.room
        try:
            return f()
        except Exception as x:
            self.failures.append("%s: %s" % (type(x).__name__, x))
            return default
        finally:
            tm.Limit.top = top

    # ------------------------------------------------------------ comparing
    def mentions(self, s):
        """Names of the package functions and methods a summary calls."""
        out = set()
        ts = [s.ret] + list(s.heap.values())
        for e in s.log:
            ts += [e.guard, e.term]
        seen = set()
        while ts:
            x = ts.pop()
            if isinstance(x, tuple):
                ts.extend(x)
                continue
            if not isinstance(x, tm.T) or x in seen:
                continue
            seen.add(x)
            if x.op in ("func", "call", "method"):
                out.add(x.args[0])
            elif x.op == "mcall":
                out.add(x.args[1])
            ts.extend(x.args)
        return out

    def oneside(self, fid, opened):
        """Known functions called by only one of the two versions."""
        r = self.summary("R", fid, opened=opened)
        i = self.summary("P", fid, opened=opened)
        out = set()
        for n in self.mentions(r) ^ self.mentions(i):
            if n in self.known:
                out.add(n)
            elif n.isidentifier():
                for p, k in ((self.R, self.R.cls), (self.P, self.P.cls)):
                    c = k(fid[:fid.rindex(".")]) if "." in \
                        fid.split(":")[1] else None
                    m = p.method(c, n) if c is not None else None
                    if m is not None and m.id in self.known:
                        out.add(m.id)
        out.discard(fid)
        return frozenset(out - opened)

    def verdicts(self, fid, opened=frozenset()):
        """Verdicts; where one version calls a function of the package that
        the other version writes out, the function is looked through."""
        key = (fid, opened)
        if key in self._ver:
            return self._ver[key]
        r = self.verdicts0(fid, opened)
        if any(v.status == "violation" for _, v in r[1]) and \
                not any(f == "sig" for f, _ in r[1]):
            o = opened
            for _ in range(3):
                n = self.oneside(fid, o)
                if not n or len(n) > 6:
                    break
                o = o | n
                r2 = self.verdicts0(fid, o)
                st = {v.status for _, v in r2[1]}
                if not st or "violation" not in st and self.editsize(
                        fid, self.summary("R", fid, opened=opened),
                        self.summary("P", fid, opened=opened)) > LOCAL:
                    r = r2
                    break
        self._ver[key] = r
        return r

    def verdicts0(self, fid, opened=frozenset()):
        """(facet names checked, [(facet, Verdict)])."""
        r = self.summary("R", fid, opened=opened)
        i = self.summary("P", fid, opened=opened)
        cmp.OPTIONS = self.options(fid.split(":")[0])
        res = []
        if i is None:
            return (["sig"], [("sig", cmp.Verdict(
                "gone", "function %s" % fid, "no longer defined"))])
        self.functions_compared.add(fid)
        if r.failed or i.failed:
            return ["ret"], [("ret", self.givenup())]
        facets, res = self.guarded(lambda: self.compared(fid, r, i),
                                   (["ret"], [("ret", self.givenup())]))
        if res and not any(f == "sig" for f, _ in res):
            m = self.last_options(fid.split(":")[0], r, i)
            if m:
                f2, res2 = self.guarded(
                    lambda: self.compared(fid, under(r, m), under(i, m)),
                    (facets, res))
                res2 = [x for x in res2 if x[0] != "raise"] + \
                    [x for x in res if x[0] == "raise"]

                def bad(l):
                    return (sum(v.status == "violation" for _, v in l),
                            len(l))
                # the better of both for every observable
                out = []
                for f in dict.fromkeys([f for f, _ in res]):
                    a = [x for x in res if x[0] == f]
                    b = [x for x in res2 if x[0] == f]
                    out += b if bad(b) < bad(a) else a
                res = out
        return self.settle(fid, r, i, facets, res)

    @staticmethod
    def givenup():
        return cmp.Verdict("undecided", "function",
                           "the analysis of the function gives up")

    def compared(self, fid, r, i):
        res = []
        rf, pf = self.R.func(fid), self.P.func(fid)
        facets = ["sig", "ret"]
        # signature
        v = self.signature(rf, pf)
        if v:
            res.append(("sig", v))
        # returned value
        v = cmp.judge(r.ret, i.ret, self.kn, "returned value",
                      pf.node.lineno)
        if v.status != "ok":
            res.append(("ret", v))
        # attributes
        for a in sorted(set(r.heap) | set(i.heap)):
            if IGNORED_ATTRS.match(a):
                if a.startswith("_time"):
                    facets.append("attr:" + a)
                    if a in r.heap and a not in i.heap:
                        res.append(("attr:" + a, cmp.Verdict(
                            "violation", "attribute self.%s" % a,
                            "no longer stored", pf.node.lineno)))
                    elif a not in r.heap and a in self.ref_attrs():
                        res.append(("attr:" + a, cmp.Verdict(
                            "violation", "attribute self.%s" % a,
                            "stored by another step", pf.node.lineno)))
                continue
            x = r.heap.get(a, mk("attr", SELF, a))
            y = i.heap.get(a, mk("attr", SELF, a))
            facets.append("attr:" + a)
            if x is y:
                continue
            if a not in r.heap and a not in self.ref_attrs():
                continue          # new attribute: only matters where read
            if a not in i.heap and is_private(a) and \
                    a not in self.impl_reads():
                continue
            v = cmp.judge(x, y, self.kn, "attribute self.%s" % a,
                          i.lines.get(a, pf.node.lineno))
            if v.status != "ok":
                res.append(("attr:" + a, v))
        # effects
        keep = None
        if fid.startswith("optbinning.logging:"):
            def keep(e):
                return True
        k, vs = cmp.compare_effects(r, i, self.kn, keep=keep)
        facets += ["effect"] * k
        for v in vs:
            res.append(("effect", v))
        # printed reports
        if self.reports(fid, r):
            k, vs = cmp.compare_effects(r, i, self.kn, keep=is_print)
            facets += ["print"] * k
            for v in vs:
                res.append(("print", v))
        k, vs = cmp.compare_raises(r, i, self.kn)
        facets += ["raise"] * k
        for v in vs:
            res.append(("raise", v))
        return facets, res

    def settle(self, fid, r, i, facets, res):
        if any(v.status == "violation" and not v.hard for _, v in res):
            n = self.editsize(fid, r, i)
            # values too large for a normal form: only tiny edits
            over = r.over or i.over
            if n > (TINY + 2 if over else LOCAL):
                for f, v in res:
                    if v.status == "violation" and not v.hard and \
                            f != "sig" and not (
                                n <= LOCAL and names_only(v)):
                        v.status = "undecided"
                        v.detail = "restructured code (%d tokens) not " \
                            "matched: %s" % (n, v.detail)
        elif any(v.status == "undecided" for _, v in res) and \
                not any(v.status == "violation" for _, v in res) and \
                self.tiny(fid, r, i):
            for f, v in res:
                if v.status == "undecided":
                    v.status = "violation"
        return (facets, res)

    def edit(self, fid, r, i):
        """Tokens removed from and inserted in a function and the functions
        looked through."""
        ids = {fid} | r.inlined | i.inlined
        ins, dele = [], []
        for k in sorted(ids):
            a, b = self.R.func(k), self.P.func(k)
            ta = toklist(a) if a is not None else []
            tb = toklist(b) if b is not None else []
            if ta == tb:
                continue
            if not ta or not tb:
                ins += tb
                dele += ta
                continue
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(
                    None, ta, tb, autojunk=False).get_opcodes():
                if tag != "equal":
                    dele += ta[i1:i2]
                    ins += tb[j1:j2]
        return ins, dele

    def editsize(self, fid, r, i):
        """Tokens exchanged between the reference and the current code of a
        function and of the functions looked through; pure additions and
        pure deletions count as nothing exchanged."""
        ins, dele = self.edit(fid, r, i)
        return min(len(ins), len(dele))

    def tiny(self, fid, r, i):
        """The edit removes code only, or exchanges a few tokens and brings
        in none of the constructs a rewriting needs."""
        ins, dele = self.edit(fid, r, i)
        if not ins and dele:
            return True
        return max(len(ins), len(dele)) <= TINY and \
            not any(w in cmp.REWRITE_WORDS for w in ins)

    def domains(self):
        """{module: {name: (values, None allowed)}} of the options that the
        reference validates against a fixed set."""
        if hasattr(self, "_dom"):
            return self._dom
        out = {}

        def nm(x):
            if isinstance(x, ast.Name):
                return x.id.strip("_")
            if isinstance(x, ast.Attribute):
                return x.attr.strip("_")
            if isinstance(x, ast.Subscript) and \
                    isinstance(x.slice, ast.Constant):
                return x.slice.value
            return None

        def visit(body, none, mod, key=None):
            for x in body:
                if isinstance(x, ast.If):
                    nn = {nm(c.left) for c in ast.walk(x.test) if
                          isinstance(c, ast.Compare) and
                          isinstance(c.ops[0], ast.IsNot) and
                          isinstance(c.comparators[0], ast.Constant)}
                    if any(isinstance(y, ast.Raise) for y in x.body):
                        for c in ast.walk(x.test):
                            if isinstance(c, ast.Compare) and \
                                    isinstance(c.ops[0], ast.NotIn) and \
                                    isinstance(c.comparators[0], (
                                        ast.Tuple, ast.List)) and nm(c.left):
                                e = c.comparators[0].elts
                                if e and all(isinstance(y, ast.Constant)
                                             for y in e):
                                    out.setdefault(mod, {}).setdefault(
                                        key or nm(c.left), set()).add((
                                            frozenset(y.value for y in e),
                                            nm(c.left) in nn | none))
                    t = x.test
                    k = None
                    if isinstance(t, ast.Compare) and \
                            isinstance(t.ops[0], ast.Eq) and \
                            nm(t.left) == "key" and \
                            isinstance(t.comparators[0], ast.Constant):
                        k = t.comparators[0].value
                    visit(x.body, none | nn, mod, k or key)
                    visit(x.orelse, none, mod, key)
                else:
                    for f in ("body", "orelse", "finalbody"):
                        visit(getattr(x, f, None) or [], none, mod, key)
        for m in self.R.modules.values():
            visit(m.tree.body, frozenset(), m.name)
        self._dom = out
        return out

    def domain_of(self, mod, name):
        d = self.domains()
        name = str(name).strip("_")
        own = d.get(mod, {}).get(name)
        if own is None:
            own = set().union(*[x.get(name, ()) for x in d.values()])
        return next(iter(own)) if len(own) == 1 else None

    def last_options(self, mod, r, i):
        """Validated options of which all values but one are told apart:
        the last test is the negation of the others."""
        atoms = {}
        missing = {}
        truths, number, nones, named = set(), set(), set(), set()
        for s in (r, i):
            seen = set()
            st = [s.ret] + list(s.heap.values()) + \
                [x for e in s.log for x in (e.guard, e.term)]
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                    continue
                if not isinstance(x, tm.T) or x in seen:
                    continue
                seen.add(x)
                if x.op == "keyerr":
                    missing.setdefault(x.args[0], set()).add(s is r)
                if x.op == "call" and x.args[0] == "getattr" and \
                        len(x.args[1]) == 2:
                    named.add(x)
                if x.op == "truth":
                    truths.add(x.args[0])
                elif x.op in ("eq", "lt", "le") and s is r and \
                        x.args[1].op == "num":
                    number.add(x.args[0])
                elif x.op == "is" and x.args[1] is tm.NONE:
                    nones.add(x.args[0])
                if x.op == "eq" and x.args[1].op == "const" and \
                        isinstance(x.args[1].args[0], str):
                    atoms.setdefault(x.args[0], set()).add(x)
                st.extend(x.args)
        m = {mk("truth", x): tm.b_not(tm.eq(x, tm.ZERO))
             for x in (truths & number) - nones}
        for x in named:
            # the attribute an option names
            o, k = x.args[1]
            d = self.domain_of(mod, option(k))
            if d is not None and not d[1] and k in atoms:
                vals = sorted((tm.const(v) for v in d[0]),
                              key=lambda v: v.h)
                c = mk("attr", o, vals[-1].args[0])
                for v in vals[:-1]:
                    c = tm.ite(tm.eq(k, v), mk("attr", o, v.args[0]), c)
                m[x] = tm.gate(c)
        for k, at in atoms.items():
            n = option(k)
            d = self.domain_of(mod, n) if n is not None else None
            if missing.get(k) == {False}:
                # found in a dictionary subscripted by the option only
                d = ({a.args[1].args[0] for a in at}, False)
                if self.options(mod).get(n, set()) - d[0]:
                    continue
            if d is None:
                continue
            vals = {tm.const(v) for v in d[0]}
            if any(a.args[1] not in vals for a in at) or \
                    len(at) < len(vals) - 1 or len(vals) < 2:
                continue
            last = max(vals, key=lambda v: v.h)
            c = FALSE
            for v in vals - {last}:
                c = tm.b_or(c, tm.eq(k, v))
            if d[1]:
                c = tm.b_or(c, tm.is_(k, tm.NONE))
            m[mk("eq", k, last)] = tm.b_not(c)
        return m

    def options(self, mod):
        """Constants each name is compared with in a reference module."""
        if not hasattr(self, "_opt"):
            self._opt = {}
        if mod in self._opt:
            return self._opt[mod]
        out = {}
        m = self.R.modules.get(mod)
        for x in ast.walk(m.tree) if m is not None else ():
            if not isinstance(x, ast.Compare) or len(x.ops) != 1:
                continue
            n = x.left.attr if isinstance(x.left, ast.Attribute) else \
                getattr(x.left, "id", None)
            c = x.comparators[0]
            vs = c.elts if isinstance(c, (ast.Tuple, ast.List, ast.Set)) \
                else [c]
            if n and isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.In,
                                           ast.NotIn)):
                for v in vs:
                    if isinstance(v, ast.Constant):
                        out.setdefault(n, set()).add(v.value)
        self._opt[mod] = out
        return out

    def reports(self, fid, r):
        """Functions whose purpose is to print a report."""
        return any(is_print(e) and not under_verbose(e) for e in r.log)

    def quiet(self, fid):
        """Messages of a function that do not depend on verbosity."""
        i = self.summary("P", fid)
        r = self.summary("R", fid)
        if i is None or r is None:
            return 0, []
        if fid.startswith("optbinning.logging:"):
            return 0, []
        allowed = {msg_kind(e) for e in r.log if e.kind == "call" and
                   cmp.ignorable(e) and not under_verbose(e)}
        n = 0
        res = []
        for e in i.log:
            if e.kind == "call" and cmp.ignorable(e) and msg_kind(e):
                n += 1
                if not under_verbose(e) and msg_kind(e) not in allowed:
                    res.append(cmp.Verdict(
                        "violation", "message %s" % cmp._short(e.term, 200),
                        "emitted when verbosity is off (condition: %s)" %
                        cmp._short(e.guard, 200), e.line,
                        [((), e.term)]))
        return n, res

    def resolution(self):
        """Methods that resolve to another definition than they used to."""
        out = []
        n = 0
        for m in self.R.modules.values():
            for c in m.classes.values():
                pc = self.P.cls(c.id)
                if pc is None:
                    pc = self.P.modules.get(m.name) and \
                        self.P.name_in(self.P.modules[m.name], c.name)
                    if not isinstance(pc, Class):
                        out.append((c.id, "mro", cmp.Verdict(
                            "gone", "class %s" % c.id, "no longer defined")))
                        continue
                names = {}
                for k in self.R.mro(c):
                    for x, f in k.methods.items():
                        names.setdefault(x, f)
                for x, f in names.items():
                    n += 1
                    g = self.P.method(pc, x)
                    if g is None:
                        if f.cls is not c and not is_private(x):
                            out.append((f.id, "mro", cmp.Verdict(
                                "gone", "method %s.%s" % (c.id, x),
                                "no longer defined")))
                        continue
                    if g.id == f.id or f.cls is c:
                        continue
                    fid = "%s.%s" % (c.id, x)
                    r = self.summary("R", fid)
                    i = self.summary("P", fid)
                    for facet, v in self.diff(r, i, g.node.lineno):
                        out.append((f.id, facet, v))
        return n, out

    def diff(self, r, i, line):
        res = []
        if r.failed or i.failed:
            return [("ret", self.givenup())]
        v = cmp.judge(r.ret, i.ret, self.kn, "returned value", line)
        if v.status != "ok":
            res.append(("ret", v))
        for a in sorted(set(r.heap) | set(i.heap)):
            x = r.heap.get(a, mk("attr", SELF, a))
            y = i.heap.get(a, mk("attr", SELF, a))
            if x is not y and not IGNORED_ATTRS.match(a):
                v = cmp.judge(x, y, self.kn, "attribute self.%s" % a, line)
                if v.status != "ok":
                    res.append(("attr:" + a, v))
        for v in cmp.compare_effects(r, i, self.kn)[1]:
            res.append(("effect", v))
        for v in cmp.compare_raises(r, i, self.kn)[1]:
            res.append(("raise", v))
        return res

    def internal(self, fid, vs):
        """Deviations of internal functions are judged in their callers."""
        q = fid.split(":")[1].split(".")
        if is_private(q[-1]):
            return True
        return any(v.status == "gone" for _, v in vs) and \
            q[0] not in self.al.exported()

    def ref_attrs(self):
        if not hasattr(self, "_ra"):
            self._ra = set(attr_sites(self.R))
        return self._ra

    def impl_reads(self):
        if not hasattr(self, "_ir"):
            self._ir = {a for a, d in attr_sites(self.P).items()
                        if any(k[1] == "Load" for k in d)}
        return self._ir

    def signature(self, rf, pf):
        da = [d for d in rf.deco if d in DECOS]
        db = [d for d in pf.deco if d in DECOS]
        if da != db:
            return cmp.Verdict("violation", "decorators of %s" % rf.qual,
                               "expected %s, found %s" % (da, db),
                               pf.node.lineno)
        if is_private(rf.name):
            return None
        a, b = rf.params(), pf.params()
        if b[:len(a)] != a:
            return cmp.Verdict("violation", "parameters of %s" % rf.qual,
                               "expected %s, found %s" % (a, b),
                               pf.node.lineno)
        da, db = rf.defaults(), pf.defaults()
        e = Ev(self.R)
        e.cls = rf.cls
        for k, d in da.items():
            e.mod = rf.module
            x = e.ev(d, evalr.new_state())
            if k not in db:
                return cmp.Verdict("violation", "default of %s" % k,
                                   "removed", pf.node.lineno)
            e2 = Ev(self.P)
            e2.cls = pf.cls
            e2.mod = pf.module
            y = e2.ev(db[k], evalr.new_state())
            v = cmp.judge(x, y, self.kn, "default of parameter %s" % k,
                          pf.node.lineno)
            if v.status != "ok":
                return v
        for k in b[len(a):]:
            if k not in db:
                return cmp.Verdict("violation", "parameters of %s" %
                                   rf.qual, "new required parameter %s" % k,
                                   pf.node.lineno)
        return None

    def coverage(self, fid, opened):
        """(opened functions not looked through, those looked through) when
        the function is evaluated with the opened ones inlined."""
        miss, thr = set(), set()
        byname = {}
        for k in opened:
            byname.setdefault(k.split(":")[1].split(".")[-1], set()).add(k)
        for side in "RP":
            s = self.summary(side, fid, opened=opened)
            if s is None:
                continue
            thr |= s.inlined & opened
            miss |= s.missed & opened
            ts = [s.ret] + list(s.heap.values())
            for e in s.log:
                ts += [e.guard, e.term]
            seen = set()
            while ts:
                x = ts.pop()
                if isinstance(x, tuple):
                    ts.extend(x)
                    continue
                if not isinstance(x, tm.T) or x in seen:
                    continue
                seen.add(x)
                if x.op == "func" and x.args[0] in opened:
                    miss.add(x.args[0])
                elif x.op == "method":
                    miss |= byname.get(x.args[0], set())
                elif x.op == "mcall":
                    miss |= byname.get(x.args[1], set())
                ts.extend(x.args)
        return miss, thr

    def callers(self, fid):
        """Known functions mentioning the function by name (both sides)."""
        if not hasattr(self, "_cl"):
            self._cl = {}
            for p in (self.R, self.P):
                for f in p.all_funcs():
                    for x in ast.walk(f.node):
                        n = None
                        if isinstance(x, ast.Attribute):
                            n = x.attr
                        elif isinstance(x, ast.Name):
                            n = x.id
                        if n:
                            self._cl.setdefault(n, set()).add(f.id)
        name = fid.split(":")[1].split(".")[-1]
        out = {c for c in self._cl.get(name, ()) if c != fid}
        # new helpers are looked through: replace by their callers
        todo = [c for c in out if c not in self.known]
        seen = set()
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            out.discard(c)
            nm = c.split(":")[1].split(".")[-1]
            for d in self._cl.get(nm, ()):
                if d in self.known:
                    out.add(d)
                else:
                    todo.append(d)
        return out

    def check_all(self):
        """fid -> (obligations, [(facet, Verdict)]) after escalation."""
        if hasattr(self, "_all"):
            return self._all
        base = {}
        for f in self.R.all_funcs():
            base[f.id] = self.verdicts(f.id)
        changed = {k for k, (n, vs) in base.items() if vs}
        self.escalated = {}
        if changed:
            inner = {k for k in changed if self.internal(k, base[k][1])}
            # a private function without callers is judged as it is
            for k in sorted(inner):
                cl = self.callers(k)
                if not cl:
                    inner.discard(k)
                    if any(v.status == "gone" for _, v in base[k][1]):
                        base[k] = (base[k][0], [])   # removed dead code
            opened = frozenset(inner)
            # tops: public changed functions and callers of opened ones; an
            # opened function that some caller could not look through is
            # judged on its own as well
            tops = set(changed - inner)
            parent = {}
            for k in inner:
                for c in self.callers(k):
                    parent.setdefault(k, set()).add(c)
                    if c not in inner:
                        tops.add(c)
            ok = {}
            through = set()
            while inner:
                new = [t for t in tops if t not in ok]
                if not new:
                    lost = inner - through - tops
                    if not lost:
                        break
                    tops |= lost
                    continue
                for t in new:
                    ok[t] = self.verdicts(t, opened) if t in base else (
                        [], [])
                    if t not in base:
                        continue
                    miss, thr = self.coverage(t, opened)
                    tops |= miss & inner
                    through |= thr
            alone = tops & inner
            inner -= alone
            def tops_of(k, seen=()):
                out = set()
                for c in parent.get(k, ()):
                    if c in inner:
                        if c not in seen:
                            out |= tops_of(c, seen + (k,))
                    else:
                        out.add(c)
                return out
            for k in inner | alone:
                ts = [t for t in tops_of(k) if t in ok and t in base]
                bad = [t for t in ts if any(
                    v.status in ("violation", "gone")
                    for _, v in ok[t][1])]
                und = [t for t in ts if any(v.status == "undecided"
                                            for _, v in ok[t][1])]
                self.escalated[k] = (ts, bad, und)
                if k in inner and ts and not bad:
                    if und and not any(
                            ({t} | self.coverage(t, opened)[1]) & changed -
                            {k} for t in und):
                        # nothing else changed that could make up for it
                        continue
                    if und:
                        base[k] = (base[k][0], [
                            (f, cmp.Verdict("undecided", v.what, v.detail,
                                            v.line)) for f, v in base[k][1]])
                    else:
                        base[k] = (base[k][0], [])
            for t in list((changed - inner) | alone):
                if t in ok and not any(v.status == "violation" for _, v
                                       in ok[t][1]):
                    base[t] = ok[t]
        self._all = base
        return base
