"""Gated value-flow evaluator: function body -> canonical summary.

One structured pass over a function's syntax tree computes, for every value the
function can expose (return value, attribute stores, calls made for effect,
raised exceptions), a canonical term in its inputs.  Joins become decision
diagrams, loops become quantified terms / closed forms / folds, helpers defined
in the package (and not listed as boundary) are inlined.  Nothing is executed
and no path is handed to a solver; this is global value numbering.
"""
import ast
import builtins
import hashlib
from .terms import *
from .terms import _lt, _split
from . import terms as tm
from .index import Func, Class, Module

SELF = mk("sym", "self")
UNSET = mk("unset")
UNBOUND = mk("unbound")

MUTATORS = {"append", "extend", "insert", "remove", "pop", "update", "add",
            "discard", "clear", "sort", "reverse", "setdefault", "popitem"}

NPMETH = {"sum", "any", "all", "mean", "max", "min", "cumsum", "argmax",
          "argmin", "argsort", "std", "ravel", "reshape", "round", "dot",
          "prod", "nonzero", "cumprod"}

NPALIAS = {"numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
           "numpy.absolute": "numpy.abs", "abs": "numpy.abs", "numpy.asarray": "numpy.array",
           "numpy.logical_and": "&", "numpy.logical_or": "|",
           "numpy.logical_not": "~", "numpy.invert": "~",
           "numpy.add": "+", "numpy.subtract": "-", "numpy.multiply": "*",
           "numpy.divide": "/", "numpy.true_divide": "/",
           "numpy.power": "**", "numpy.negative": "neg",
           "numpy.greater": ">", "numpy.less": "<",
           "numpy.greater_equal": ">=", "numpy.less_equal": "<=",
           "numpy.equal": "==", "numpy.not_equal": "!=",
           "operator.add": "+", "operator.mul": "*",
           "pandas.isna": "pandas.isnull", "numpy.square": "sq"}


# calls whose result is as long as one of their arguments
LEN_OF = {n: 0 for n in (
    "list", "sorted", "tuple", "copy", "numpy.sort", "numpy.argsort",
    "numpy.cumsum", "numpy.sign", "numpy.abs", "numpy.log", "numpy.exp",
    "numpy.sqrt", "numpy.isnan", "numpy.isfinite", "numpy.isinf",
    "numpy.round", "numpy.ceil", "numpy.floor", "numpy.digitize",
    "numpy.isin", "numpy.in1d", "numpy.zeros_like", "numpy.ones_like",
    "numpy.full_like", "numpy.empty_like", "pandas.isnull", "numpy.array",
    "numpy.where", "reversed", "pandas.Series", "numpy.log2",
    "numpy.log1p", "numpy.nan_to_num", "numpy.maximum", "numpy.minimum")}
LEN_OF["numpy.searchsorted"] = 1

INPLACE = {"reset_index", "rename", "set_index", "drop", "sort_values",
           "sort_index", "fillna", "dropna", "drop_duplicates", "replace",
           "clip", "set_axis"}
SCALAR_CALLS = {"len", "min", "max", "float", "int", "abs", "sum", "round"}
REDUCTIONS = {"numpy.sum", "numpy.mean", "numpy.max", "numpy.min",
              "numpy.std", "numpy.prod", "numpy.count_nonzero",
              "numpy.median", "numpy.var"}


def scalarish(t):
    if t.op in ("num", "const", "len", "bv", "idx", "sum"):
        return True
    if t.op == "call":
        return t.args[0] in SCALAR_CALLS or (
            t.args[0] in REDUCTIONS and not any(
                k == "axis" for k, _ in t.args[2]) and
            len(t.args[1]) == 1)
    if t.op == "poly":
        return all(scalarish(x) for m, _ in t.args[0] for x, _ in m)
    return False


# library calls returning a tuple of known length
TUPLES = {"scipy.stats.chi2_contingency": 4, "divmod": 2,
          "numpy.linalg.slogdet": 2, "numpy.histogram": 2}


# keyword arguments equal to the library default are dropped
KWDEFAULTS = {
    "numpy.digitize": {"right": False},
    "numpy.searchsorted": {"side": "left", "sorter": None},
    "sorted": {"reverse": False, "key": None},
    "numpy.sort": {"axis": -1},
    "numpy.argsort": {"axis": -1},
    "numpy.concatenate": {"axis": 0},
    "numpy.sum": {"axis": None},
    "numpy.mean": {"axis": None},
    "numpy.unique": {"return_index": False, "return_inverse": False,
                     "return_counts": False},
    "numpy.quantile": {"axis": None},
    "numpy.percentile": {"axis": None},
    "numpy.round": {"decimals": 0},
    "pandas.concat": {"axis": 0},
    "enumerate": {"start": 0},
    "print": {"end": "\n", "sep": " "},
    "pandas.read_csv": {"sep": ","},
}


def has_node(n, kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


class Effect:
    __slots__ = ("kind", "guard", "term", "line", "fn")

    def __init__(self, kind, guard, term, line=0, fn=None):
        self.kind = kind
        self.guard = guard
        self.term = term
        self.line = line
        self.fn = fn

    def __repr__(self):
        return "<%s @%s if %s: %s>" % (self.kind, self.line, self.guard,
                                       self.term)


class State:
    __slots__ = ("env", "heap", "pc", "live", "lp", "brk", "ret", "raised")

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.live = self.live
        s.lp = self.lp
        s.brk = self.brk
        s.ret = self.ret
        s.raised = self.raised
        return s

    def take(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))

    @property
    def dead(self):
        return self.raised or self.live is FALSE or self.lp is FALSE


def new_state(env=None, heap=None, pc=TRUE):
    s = State()
    s.env = env if env is not None else {}
    s.heap = heap if heap is not None else {}
    s.pc = pc
    s.live = TRUE
    s.lp = TRUE
    s.brk = FALSE
    s.ret = UNSET
    s.raised = False
    return s


_con_memo = {}


def constrain(f, c):
    """Generalised cofactor of diagram f w.r.t. care-set c (canonical)."""
    if c is TRUE or f.op != "v" or c is FALSE:
        return f
    key = (f, c)
    r = _con_memo.get(key)
    if r is not None:
        return r
    top = f.args[0]
    if c.args[0].oh < top.oh:
        top = c.args[0]
    c1, c0 = tm._cof(c, top, 1), tm._cof(c, top, 0)
    f1, f0 = tm._cof(f, top, 1), tm._cof(f, top, 0)
    if c1 is FALSE:
        r = constrain(f0, c0)
    elif c0 is FALSE:
        r = constrain(f1, c1)
    else:
        r = vmk(top, constrain(f1, c1), constrain(f0, c0))
    # theory: restrict by single-literal care facts
    _con_memo[key] = r
    return r


def simp(f, pc):
    if f.op != "v" or pc is TRUE:
        return f
    r = constrain(f, pc)
    if r.op == "v":
        # literals forced by pc through the theory
        p = pc
        while p.op == "v":
            a, hi, lo = p.args
            if lo is FALSE:
                r = restrict(r, a, True)
                p = hi
            elif hi is FALSE:
                r = restrict(r, a, False)
                p = lo
            else:
                break
    return r


class Unsupported(Exception):
    pass


class Ev:
    def __init__(self, project, boundary=None, max_depth=7, facts=None,
                 attr_class=None, overrides=None, inline=None, ref=None):
        self.p = project
        self.boundary = boundary or (lambda f: False)
        self.max_depth = max_depth
        self.facts = facts or {}
        self.uid = 0
        self.unknowns = []
        self.log = []
        self.stack = []
        self.starred = {}   # cases of conditional keyword arguments
        self.closures = {}
        self.cls = None           # dynamic class of self
        self._aliases = {}
        self.overrides = overrides or {}
        self.ref = ref
        self.ln = {}
        self.lines = {}
        self.mod = None
        self.excn = 0
        self.inlined = set()
        self.missed = set()
        self.specfuncs = {}
        self.steps = 0

    # ------------------------------------------------------------------ API
    def run(self, func, cls=None, args=None, facts=None):
        """Summarise a Func.  Returns Summary."""
        self.cls = cls or func.cls
        self.fn0 = func
        env = {}
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and \
                    "staticmethod" not in func.deco:
                env[n] = SELF
            else:
                env[n] = mk("sym", "$%s" % n)
        for x in a.kwonlyargs:
            env[x.arg] = mk("sym", "$%s" % x.arg)
        if a.vararg:
            env[a.vararg.arg] = mk("sym", "$*%s" % a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = mk("sym", "$**%s" % a.kwarg.arg)
        if args:
            env.update(args)
        st = new_state(env)
        self.st0 = st
        self.stack = [func]
        self.mod = func.module
        over = tm.Budget.hit
        self.exec_block(func.node.body, st)
        ret = st.ret
        ret = detuple(mapleaf(ret, lambda x: NONE if x is UNSET else x))
        if st.live is TRUE and ret is UNSET:
            ret = NONE
        s = Summary()
        s.func = func
        s.over = tm.Budget.hit > over
        s.ret = anon(ret)
        s.heap = {k[1]: anon(v) for k, v in st.heap.items() if k[0] is SELF}
        s.env = st.env
        s.log = self.log
        for e in s.log:
            e.guard, e.term = anon(e.guard), anon(e.term)
        s.unknowns = list(self.unknowns)
        s.lines = dict(self.lines)
        s.raised = st.raised
        s.inlined = self.inlined
        s.missed = self.missed
        return s

    def fresh(self):
        self.uid += 1
        return self.uid

    def unknown(self, what, node=None):
        self.unknowns.append((what, getattr(node, "lineno", 0)))
        d = ""
        if node is not None:
            d = ast.unparse(node)[:200]
        return mk("unknown", what, d)

    def eff(self, st):
        return b_and(st.pc, st.live, st.lp)

    def emit(self, st, kind, term, node=None):
        g = self.eff(st)
        term = simp(term, g)
        self.log.append(Effect(kind, g, term, getattr(node, "lineno", 0),
                               self.stack[-1] if self.stack else None))

    # ----------------------------------------------------------- statements
    def exec_block(self, body, st):
        for k, s in enumerate(body):
            if st.dead:
                return
            if st.live is not TRUE or st.lp is not TRUE:
                g = b_and(st.live, st.lp)
                s1 = st.copy()
                s1.pc = b_and(st.pc, g)
                s1.live = TRUE
                s1.lp = TRUE
                self.exec_block(body[k:], s1)
                self.merge(g, s1, st.copy(), st, gated=True)
                return
            self.exec_stmt(s, st)

    def merge(self, c, s1, s2, out, gated=False):
        """out := ite(c, s1, s2)."""
        pc0 = out.pc
        if s1.raised and s2.raised:
            out.take(s1)
            out.pc = pc0
            return
        if s1.raised:
            out.take(s2)
            out.pc = pc0
            return
        if s2.raised:
            out.take(s1)
            out.pc = pc0
            return
        env = {}
        for k in set(s1.env) | set(s2.env):
            a = s1.env.get(k, UNBOUND)
            b = s2.env.get(k, UNBOUND)
            env[k] = a if a is b else pick(c, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a = s1.heap.get(k)
            b = s2.heap.get(k)
            if a is None:
                a = mk("attr", k[0], k[1])
            if b is None:
                b = mk("attr", k[0], k[1])
            heap[k] = a if a is b else pick(c, a, b)
        out.env = env
        out.heap = heap
        out.live = ite(c, s1.live, s2.live)
        out.lp = ite(c, s1.lp, s2.lp)
        out.brk = ite(c, s1.brk, s2.brk)
        out.ret = ite(c, s1.ret, s2.ret)
        out.raised = False
        out.pc = pc0

    def exec_stmt(self, s, st):
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("stmt " + type(s).__name__, s)
            return
        m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Import(self, s, st):
        pass

    s_ImportFrom = s_Import
    s_Global = s_Import
    s_Nonlocal = s_Import

    def s_Expr(self, s, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            if isinstance(v.func, ast.Attribute) and \
                    v.func.attr == "update" and len(v.args) == 1 and \
                    not v.keywords and self.a_set(v.func.value):
                # one element after the other
                x = "@element%d" % s.lineno
                self.s_For(ast.copy_location(ast.fix_missing_locations(
                    ast.For(target=ast.Name(x, ast.Store()), iter=v.args[0],
                            body=[ast.Expr(ast.Call(
                                ast.Attribute(v.func.value, "add",
                                              ast.Load()),
                                [ast.Name(x, ast.Load())], []))],
                            orelse=[], type_comment=None)), s), st)
                return
            self.call(v, st, stmt=True)
            return
        self.ev(v, st)

    def a_set(self, n):
        """A local variable that is only ever assigned a set."""
        if not isinstance(n, ast.Name) or not self.stack:
            return False
        vs = [x.value for x in _own(self.stack[-1].node)
              if isinstance(x, ast.Assign) and any(
                  isinstance(y, ast.Name) and y.id == n.id
                  for t in x.targets for y in ast.walk(t))]
        return bool(vs) and all(
            isinstance(x, (ast.Set, ast.SetComp)) or
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
            x.func.id == "set" for x in vs)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.raised:
            return
        g = b_and(st.live, st.lp)
        st.ret = ite(g, v, st.ret)
        st.live = b_and(st.live, b_not(g))

    def s_Raise(self, s, st):
        exc = mk("reraise")
        if s.exc is not None:
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = mk("exc", ast.unparse(n))
        self.emit(st, "raise", exc, s)
        st.raised = True

    def s_Assert(self, s, st):
        c = truth(self.ev(s.test, st))
        g = b_and(self.eff(st), b_not(c))
        self.log.append(Effect("raise", g, mk("exc", "AssertionError"),
                               s.lineno, self.stack[-1]))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                k = arg(self.ev_index(t.slice, st))
                self.assign(t.value, mk("delitem", arg(base), k), st, True)
            else:
                self.emit(st, "del", self.ev(t, st), s)

    def s_If(self, s, st):
        c = truth(self.ev(s.test, st))
        if st.raised:
            return
        c = simp(c, st.pc)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = b_and(st.pc, c)
        s2.pc = b_and(st.pc, b_not(c))
        if always_raises(s.body) and s2.pc is not FALSE:
            # values are described under the assumption of no rejection
            self.exec_block(s.body, s1)
            return self.exec_block(s.orelse, st)
        if always_raises(s.orelse) and s1.pc is not FALSE:
            self.exec_block(s.orelse, s2)
            return self.exec_block(s.body, st)
        if s1.pc is FALSE:
            return self.exec_block(s.orelse, st)
        if s2.pc is FALSE:
            return self.exec_block(s.body, st)
        self.exec_block(s.body, s1)
        self.exec_block(s.orelse, s2)
        self.merge(c, s1, s2, st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if st.raised:
            return
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_load(s.target), s.target)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        if st.raised:
            return
        self.assign(s.target, self.bin(s.op, cur, v), st,
                    inplace=isinstance(s.target, (ast.Subscript,
                                                  ast.Attribute)))

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        self.exec_block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        n0 = len(self.log)
        self.exec_block(s.body, st)
        bodyfx = self.log[n0:]
        if s.handlers:
            key = mk("tuple", tuple(sorted(
                (e.term for e in bodyfx if e.kind != "raise"))))
            outs = [(None, st.copy())]
            for h in s.handlers:
                tn = ast.unparse(h.type) if h.type is not None else "*"
                a = atom(mk("excraised", tn, key))
                hs = pre.copy()
                hs.pc = b_and(pre.pc, a)
                if h.name:
                    hs.env[h.name] = mk("excval", tn)
                self.exec_block(h.body, hs)
                outs.append((a, hs))
            cur = outs[0][1]
            for a, hs in outs[1:]:
                res = pre.copy()
                self.merge(a, hs, cur, res)
                cur = res
            pc = st.pc
            st.take(cur)
            st.pc = pc
        self.exec_block(s.orelse, st)
        if s.finalbody:
            fs = st.copy()
            fs.live = TRUE
            fs.lp = TRUE
            fs.raised = False
            self.exec_block(s.finalbody, fs)
            fs.live, fs.lp, fs.ret, fs.raised = st.live, st.lp, st.ret, \
                st.raised
            st.take(fs)

    def s_Continue(self, s, st):
        st.lp = FALSE

    def s_Break(self, s, st):
        st.brk = b_or(st.brk, b_and(st.live, st.lp))
        st.lp = FALSE

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = arg(self.ev(s.iter, st))
        items = self.literal_items(it)
        has_brk = any(isinstance(x, (ast.Break,)) for x in
                      _walk_loop(s.body))
        if items is not None and len(items) <= 12 and not s.orelse:
            # unroll
            brk0, lp0 = st.brk, st.lp
            st.brk = FALSE
            for x in items:
                if st.raised or st.live is FALSE or st.brk is TRUE:
                    break
                st.lp = b_not(st.brk)
                bound = self.aliases(s, items.index(x))
                self.exec_block([_Bind(s.target, x)] + s.body, st)
                for t, src in bound:
                    v = st.env.get(t)
                    if v is not None and not st.raised and \
                            v is not self.ev(src, st):
                        self.assign(src, v, st, inplace=True)
            st.brk, st.lp = brk0, lp0
            return
        halves = self.concatenated(s)
        if halves is not None:
            for x in halves:
                y = ast.copy_location(ast.For(
                    target=s.target, iter=x, body=s.body, orelse=[],
                    type_comment=None), s)
                if not st.raised and st.live is not FALSE:
                    self.s_For(y, st)
            return
        idx = mk("idx", self.fresh())
        dom, elem = self.domain(it, idx)
        self.loop(s, st, dom, idx, [_Bind(s.target, elem)] + s.body, s.orelse)

    def concatenated(self, s):
        """The parts of the sequence a loop runs over, one after the other:
        a + b, itertools.chain(a, b)."""
        it = s.iter
        if s.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return))
                           for x in _walk_loop(s.body)):
            return None
        if isinstance(it, ast.BinOp) and isinstance(it.op, ast.Add):
            parts = [it.left, it.right]
        elif isinstance(it, ast.Call) and not it.keywords and (
                isinstance(it.func, ast.Name) and it.func.id == "chain" or
                isinstance(it.func, ast.Attribute) and
                it.func.attr == "chain") and not any(
                    isinstance(x, ast.Starred) for x in it.args):
            parts = it.args
        else:
            return None
        # the parts do not depend on what the loop assigns
        w = assigned_names([s])
        if any(isinstance(y, (ast.Attribute, ast.Call)) or
               isinstance(y, ast.Name) and y.id in w
               for x in parts for y in ast.walk(x)):
            return None
        return parts

    def aliases(self, s, i):
        """Names an unrolled iteration gives to variables that its body
        changes in place."""
        out = []

        def go(t, it):
            if isinstance(it, (ast.Tuple, ast.List)) and \
                    isinstance(t, ast.Name) and i < len(it.elts) and \
                    isinstance(it.elts[i], (ast.Name, ast.Attribute)):
                out.append((t.id, it.elts[i]))
            elif isinstance(it, ast.Call) and \
                    isinstance(it.func, ast.Name) and \
                    isinstance(t, (ast.Tuple, ast.List)):
                if it.func.id == "zip" and len(it.args) == len(t.elts):
                    for x, y in zip(t.elts, it.args):
                        go(x, y)
                elif it.func.id == "enumerate" and len(t.elts) == 2 and \
                        it.args:
                    go(t.elts[1], it.args[0])
        go(s.target, s.iter)
        if not out:
            return out
        plain = {y.id for x in s.body for y in ast.walk(x)
                 if isinstance(y, ast.Name) and
                 isinstance(y.ctx, (ast.Store, ast.Del))}
        return [(t, src) for t, src in out if t not in plain]

    def s_While(self, s, st):
        # while i < n: ...; i += c
        t = s.test
        inc = self.while_counter(s)
        if inc is not None:
            name, rest, step = inc
            body_assigned = assigned_names(rest)
            lim_names = {n.id for n in ast.walk(t.comparators[0])
                         if isinstance(n, ast.Name)}
            if not (lim_names & body_assigned):
                init = st.env.get(name)
                lim = self.ev(t.comparators[0], st)
                if init is not None:
                    n = sub_(lim, init)
                    if isinstance(t.ops[0], ast.LtE):
                        n = add(n, ONE)
                    idx = mk("idx", self.fresh())
                    val = add(init, idx)
                    dom = mk("dom", arg(n))
                    self.loop(s, st, dom, idx,
                              [_Bind(ast.Name(name, ast.Store()), val)] +
                              rest, s.orelse)
                    st.env[name] = lim if isinstance(t.ops[0], ast.Lt) \
                        else add(lim, ONE)
                    return
        idx = mk("idx", self.fresh())
        self.loop(s, st, mk("dom", mk("const", "inf")), idx,
                  [ast.If(test=s.test, body=[ast.Pass()],
                          orelse=[ast.Break()], lineno=s.lineno,
                          col_offset=0)] + s.body, s.orelse)

    def while_counter(self, s):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.ops[0], (ast.Lt, ast.LtE)) and
                isinstance(t.left, ast.Name)):
            return None
        name = t.left.id
        rest = []
        found = 0
        for k, b in enumerate(s.body):
            if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) \
                    and isinstance(b.target, ast.Name) and \
                    b.target.id == name and isinstance(b.value, ast.Constant)\
                    and b.value.value == 1:
                found += 1
                pos = k
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and \
                    isinstance(b.targets[0], ast.Name) and \
                    b.targets[0].id == name and \
                    ast.unparse(b.value) in (name + " + 1", "1 + " + name):
                found += 1
                pos = k
            else:
                rest.append(b)
        if found != 1 or name in assigned_names(rest):
            return None
        if any(isinstance(x, ast.Continue) for x in _walk_loop(s.body)):
            return None
        if pos != len(s.body) - 1:
            after = s.body[pos + 1:]
            if any(isinstance(x, ast.Name) and x.id == name
                   for b in after for x in ast.walk(b)):
                return None
        return name, rest, 1

    def literal_items(self, it):
        if it.op in ("list", "tuple"):
            return [ungate(x) for x in it.args[0]]
        if it.op == "range" and all(a.op == "num" for a in it.args):
            a, b, c = [int(x.args[0]) for x in it.args]
            r = range(a, b, c)
            if len(r) <= 6:
                return [num(x) for x in r]
        if it.op == "enumerate":
            x = self.literal_items(it.args[0])
            if x is not None:
                return [mk("tuple", (add(it.args[1], num(i)), gate(y)))
                        for i, y in enumerate(x)]
        if it.op == "zip":
            xs = [self.literal_items(y) for y in it.args[0]]
            if all(x is not None for x in xs) and xs:
                return [mk("tuple", tuple(gate(y) for y in r))
                        for r in zip(*xs)]
        return None

    def domain(self, it, idx):
        """(domain term, element at idx)."""
        o = it.op
        if o == "range":
            a, b, c = it.args
            if c is ONE:
                return mk("dom", arg(sub_(b, a))), add(a, idx)
            if c.op == "num" and c.args[0] == -1:
                return mk("dom", arg(sub_(a, b))), sub_(a, idx)
            return mk("dom", mk("rangelen", a, b, c)), add(a, mul(c, idx))
        if o == "enumerate":
            d, e = self.domain(ungate(it.args[0]), idx)
            return d, mk("tuple", (gate(add(ungate(it.args[1]), idx)),
                                   gate(e)))
        if o == "zip":
            ds = [self.domain(ungate(x), idx) for x in it.args[0]]
            if not ds:
                return mk("dom", ZERO), mk("tuple", ())
            d = sorted((x for x, _ in ds))[0]
            return d, mk("tuple", tuple(gate(e) for _, e in ds))
        if o == "reversed":
            x = it.args[0]
            if x.op == "range" and x.args[2] is ONE:
                return mk("dom", arg(sub_(x.args[1], x.args[0]))), \
                    sub_(x.args[1], add(idx, ONE))
            n = self.length(x)
            return mk("dom", arg(n)), self.getitem(
                x, sub_(n, add(idx, ONE)))
        if o == "items":
            d = it.args[0]
            k = mk("sub", d, idx)
            return mk("dom", mk("len", d)), mk(
                "tuple", (k, self.getitem(d, k)))
        if o == "values":
            d = it.args[0]
            return mk("dom", mk("len", d)), self.getitem(
                d, mk("sub", d, idx))
        if o == "call" and it.args[0] in ("list", "iter", "tuple") and \
                len(it.args[1]) == 1:
            return self.domain(it.args[1][0], idx)
        if o == "sub" and it.args[1].op == "slice" and \
                it.args[1].args[2] is NONE:
            lo, hi = (NONE if x is ZERO else x for x in it.args[1].args[:2])
            if lo.op == "num" and lo.args[0] > 0 and hi is NONE:
                n = sub_(self.length(it.args[0]), lo)
                return mk("dom", arg(n)), self.getitem(
                    it.args[0], add(idx, lo))
            if hi.op == "num" and hi.args[0] < 0 and lo is NONE:
                n = add(self.length(it.args[0]), hi)
                return mk("dom", arg(n)), self.getitem(it.args[0], idx)
        n = self.length(it)
        return mk("dom", arg(n)), self.getitem(it, idx)

    def length(self, t):
        def f(x):
            if x.op in ("list", "tuple"):
                return num(len(x.args[0]))
            if x.op == "dict":
                return num(len(x.args[0]))
            if x.op == "const" and isinstance(x.args[0], str):
                return num(len(x.args[0]))
            if x.op == "flat" and x.args[2].op == "list" and \
                    len(x.args[2].args[0]) == 1 and x.args[1].op == "dom":
                return x.args[1].args[0]
            if x.op == "flat" and all(y.op == "list" for y in
                                      leaves(ungate(x.args[2]))):
                # the number of elements does not depend on the elements
                return mk("len", mk("flat", x.args[0], x.args[1], gate(
                    lift(lambda y: mk("list", (NONE,) * len(y.args[0])),
                         ungate(x.args[2])))))
            if x.op == "cat":
                r = ZERO
                for p in x.args[0]:
                    r = add(r, f(p))
                return r
            if x.op == "range" and x.args[2] is ONE:
                return sub_(x.args[1], x.args[0])
            if x.op in ("items", "values"):
                return mk("len", x.args[0])
            if x.op == "enumerate":
                return f(x.args[0])
            if x.op == "call" and x.args[0] in LEN_OF and x.args[1]:
                i = LEN_OF[x.args[0]]
                if i < len(x.args[1]) and not any(
                        k == "axis" for k, _ in x.args[2]):
                    return self.length(ungate(x.args[1][i]))
            if x.op == "call" and x.args[0] in ("numpy.sum", "numpy.mean") \
                    and len(x.args[1]) == 1:
                ax = dict(x.args[2]).get("axis")
                if ax is ZERO:
                    return mk("sub", mk("attr", x.args[1][0], "shape"), ONE)
                if ax is ONE:
                    return self.length(ungate(x.args[1][0]))
            if x.op == "call" and x.args[0] in (
                    "numpy.zeros", "numpy.ones", "numpy.empty",
                    "numpy.full", "numpy.arange") and x.args[1]:
                n = x.args[1][0]
                if x.args[0] != "numpy.arange" or len(x.args[1]) == 1:
                    if n.op == "len" or tm._integer(n):
                        return n
                    if n.op == "tuple" and n.args[0]:
                        return ungate(n.args[0][0])
                    if n.op == "attr" and n.args[1] == "shape":
                        return self.length(n.args[0])
            if x.op == "sub" and x.args[1].op == "call" and \
                    x.args[1].args[0] in ("numpy.argsort",):
                return self.length(x.args[1])
            if x.op == "sub" and x.args[1].op == "slice" and \
                    x.args[1].args[0].op == "num" and \
                    x.args[1].args[0].args[0] > 0 and \
                    x.args[1].args[1] is NONE and x.args[1].args[2] is NONE:
                return sub_(self.length(x.args[0]), x.args[1].args[0])
            if x.op == "sub" and isbool(ungate(x.args[1])):
                return mk("call", "numpy.count_nonzero", (x.args[1],), ())
            if x.op == "mapst" and x.args[2].op != "dict":
                return self.length(ungate(x.args[2]))
            if x.op == "attr" and x.args[1] == "T":
                return mk("sub", mk("attr", x.args[0], "shape"), ONE)
            if x.op in ("store",):
                pass
            return mk("len", x)
        return lift(f, arg(t))

    def loop(self, node, st, dom, idx, body, orelse):
        names = assigned_names(body)
        uid = idx.args[0]
        attrs = set()
        for _ in range(6):
            s1 = st.copy()
            ph = {}
            for n in names:
                if n in st.env:
                    t = mk("carry", uid, n)
                    ph[("e", n)] = t
                    s1.env[n] = t
            for k in attrs:
                t = mk("carry", uid, "." + k[1], k[0])
                ph[("h", k)] = t
                s1.heap[k] = t
            s1.lp = TRUE
            s1.brk = FALSE
            s1.live = TRUE
            s1.ret = UNSET
            log0, unk0 = self.log, len(self.unknowns)
            self.log = []
            self.exec_block(body, s1)
            inner = self.log
            self.log = log0
            changed = {k for k, v in s1.heap.items()
                       if k not in attrs and
                       v is not st.heap.get(k, mk("attr", k[0], k[1]))}
            extra = {n for n in s1.env if n in st.env and n not in names
                     and s1.env[n] is not st.env[n]}
            if not changed and not extra:
                break
            del self.unknowns[unk0:]
            attrs |= changed
            names = set(names) | extra
        if s1.raised:
            # body always raises if entered
            self.wrap_effects(st, dom, idx, FALSE, inner, ph, {})
            return
        brk = s1.brk
        retc = b_not(s1.live)
        stop = b_or(brk, retc)
        # ---- resolve carried values
        inits = {}
        news = {}
        for key, t in ph.items():
            if key[0] == "e":
                inits[key] = st.env[key[1]]
                news[key] = s1.env.get(key[1], UNBOUND)
            else:
                inits[key] = st.heap.get(key[1],
                                         mk("attr", key[1][0], key[1][1]))
                news[key] = s1.heap[key[1]]
        at, fin = self.solve_carry(dom, idx, ph, inits, news, stop, st)
        if at:
            stop2 = subst(stop, at)
            brk = subst(brk, at)
            retc = subst(retc, at)
        else:
            stop2 = stop
        self.wrap_effects(st, dom, idx, stop2, inner, ph, at)
        for key in ph:
            if key[0] == "e":
                st.env[key[1]] = fin[key]
            else:
                st.heap[key[1]] = fin[key]
        # names first defined in the loop: last value
        for n in names:
            if n not in st.env and n in s1.env:
                v = s1.env[n]
                if at:
                    v = subst(v, at)
                st.env[n] = self.close("last", dom, idx, stop2,
                                       [v, UNBOUND])
        pc = st.pc
        if retc is not FALSE:
            rv = subst(s1.ret, at) if at else s1.ret
            ex = atom(self.close("exists", dom, idx, FALSE, [retc]))
            rv = simp(rv, subst(retc, at) if at else retc)
            val = rv if isconst(rv) else self.close(
                "first", dom, idx, FALSE, [stop2, rv])
            st.ret = ite(ex, val, st.ret)
            st.live = b_and(st.live, b_not(ex))
        if orelse:
            if brk is FALSE:
                self.exec_block(orelse, st)
            else:
                g = b_not(atom(self.close("exists", dom, idx, FALSE, [brk])))
                s2 = st.copy()
                s2.pc = b_and(st.pc, g)
                self.exec_block(orelse, s2)
                self.merge(g, s2, st.copy(), st)
        st.pc = pc

    def close(self, op, dom, idx, stop, parts):
        """Close a binder over idx with locally-nameless level."""
        lv = 1 + max([0] + [p.bh for p in parts] +
                     [dom.bh, stop.bh if stop is not FALSE else 0])
        b = mk("bv", lv)
        m = {idx: b}
        ps = [subst(p, m) for p in parts]
        if stop is not FALSE:
            dom = mk("until", lv, dom, gate(subst(stop, m)))
        if op == "flat":
            return self.mkflat(lv, dom, ps[0])
        if op == "sum":
            return self.mksum(lv, dom, ps[0])
        if op == "exists":
            if ps[0] is FALSE:
                return mk("never")
            return mk("exists", lv, dom, gate(ps[0]))
        return mk(op, lv, dom, *[gate(p) for p in ps])

    def mkflat(self, lv, dom, body):
        # [x[i] for i] over dom(len(x)) == list(x)
        def one(l):
            if l.op == "call" and l.args[0] == "list" and \
                    len(l.args[1]) == 1 and not l.args[2]:
                return l.args[1][0]
            return l
        if body.op == "list" and len(body.args[0]) == 1 and dom.op == "dom":
            e = body.args[0][0]
            if e.op == "sub" and e.args[1].op == "bv" and \
                    e.args[1].args == (lv,) and \
                    not has(e.args[0], e.args[1]) and \
                    dom.args[0] is arg(self.length(e.args[0])):
                x = e.args[0]
                return x if isseq(x) and x.op != "tuple" else mk(
                    "call", "list", (x,), ())
        body = mapleaf(ungate(body), one)
        if body.op == "v" and all(x.op == "list" and len(x.args[0]) == 1
                                  for x in leaves(body)):
            body = mk("list", (gate(arg(mapleaf(
                body, lambda x: ungate(x.args[0][0])))),))
            return self.mkflat(lv, dom, body)
        return mk("flat", lv, dom, gate(body))

    def mksum(self, lv, dom, body):
        if body is ZERO:
            return ZERO
        # pull numeric constant / independence out of the sum
        if body.op == "poly" and len(body.args[0]) > 1:
            r = ZERO
            for mono, c in body.args[0]:
                r = add(r, self.mksum(lv, dom, tm._frompoly({mono: c})))
            return r
        if body.op == "poly":
            (mono, c), = body.args[0]
            b = mk("bv", lv)
            out = [(t, e) for t, e in mono if not has(t, b)]
            inn = [(t, e) for t, e in mono if has(t, b)]
            if not inn:
                if dom.op == "dom":
                    return mul(tm._frompoly({tuple(out): c}), dom.args[0])
            f = tm._frompoly({tuple(out): c})
            i = tm._frompoly({tuple(inn): tm.Fraction(1)})
            if inn:
                return mul(f, mk("sum", lv, dom, gate(i)))
        elif dom.op == "dom" and not has(body, mk("bv", lv)):
            return mul(body, dom.args[0])
        return mk("sum", lv, dom, gate(body))

    def solve_carry(self, dom, idx, ph, inits, news, stop, st):
        """Closed forms.  Returns (value-at-iteration map, final map)."""
        uid = idx.args[0]
        phs = set(ph.values())

        def deps(t):
            return {x for x in collect(t, lambda y: y.op == "carry" and
                                       y.args[0] == uid)}
        at, fin = {}, {}
        todo = dict(news)
        conds = stop
        progress = True
        while todo and progress:
            progress = False
            for key in sorted(todo, key=str):
                p = ph[key]
                new = subst(todo[key], at) if at else todo[key]
                init = inits[key]
                if new is p:
                    at[p] = init
                    fin[key] = init
                    del todo[key]
                    progress = True
                    break
                dn = deps(new)
                st2 = subst(stop, at) if at else stop
                if deps(st2):
                    continue
                if not dn:
                    # plain per-iteration value
                    prev = subst(new, {idx: sub_(idx, ONE)})
                    at[p] = ite(eq(idx, ZERO), init, prev)
                    fin[key] = self.close("last", dom, idx, st2, [new, init])
                    del todo[key]
                    progress = True
                    break
                if dn == {p}:
                    r = self.accum(p, new, init, dom, idx, st2)
                    if r is not None:
                        at[p], fin[key] = r
                        del todo[key]
                        progress = True
                        break
        if todo:
            keys = sorted(todo, key=str)
            # single-variable folds first
            progress = True
            while progress and todo:
                progress = False
                for key in sorted(todo, key=str):
                    p = ph[key]
                    new = subst(todo[key], at) if at else todo[key]
                    st2 = subst(stop, at) if at else stop
                    if deps(new) == {p} and deps(st2) <= {p}:
                        f, g = self.fold(dom, idx, st2, [p], [inits[key]],
                                         [new])
                        fin[key] = f[0]
                        at[p] = g[0]
                        del todo[key]
                        progress = True
                        break
            if todo:
                keys = list(todo)
                vals = {k: (subst(todo[k], at) if at else todo[k])
                        for k in keys}
                # order independent of names and loop numbering: colour
                # refinement over the dependency graph of the variables
                mine = {ph[k]: k for k in keys}
                colour = {k: "" for k in keys}
                for _ in range(3):
                    c2 = {}
                    for k in keys:
                        hs = []
                        for t in (arg(inits[k]), arg(vals[k])):
                            m = {}
                            for y in collect(t, lambda y: y.op in
                                             ("carry", "idx")):
                                if y in mine:
                                    m[y] = mk("cv", colour[mine[y]],
                                              mine[y] == k)
                                else:
                                    m[y] = mk("cvo", y.op, y is idx)
                            hs.append(_plainhash(t, m))
                        c2[k] = "%s/%s" % tuple(hs)
                    colour = c2
                keys.sort(key=lambda k: (colour[k], str(k)))
                st2 = subst(stop, at) if at else stop
                f, g = self.fold(dom, idx, st2, [ph[k] for k in keys],
                                 [inits[k] for k in keys],
                                 [vals[k] for k in keys])
                for k, a, b in zip(keys, f, g):
                    fin[k] = a
                    at[ph[k]] = b
        # fix 'at' entries which still mention other carries
        for _ in range(4):
            if not any(deps(v) for v in at.values()):
                break
            at = {k: subst(v, at) for k, v in at.items()}
        return at, fin

    def fold(self, dom, idx, stop, ps, inits, news):
        lv = 1 + max([0, dom.bh] + [x.bh for x in inits + news] +
                     [stop.bh if stop is not FALSE else 0])
        m = {idx: mk("bv", lv)}
        for i, p in enumerate(ps):
            m[p] = mk("bv", lv, i)
        steps = tuple(gate(subst(n, m)) for n in news)
        ini = tuple(gate(x) for x in inits)
        d = dom
        if stop is not FALSE:
            d = mk("until", lv, dom, gate(subst(stop, m)))
        fin = [mk("fold", lv, d, ini, steps, i) for i in range(len(ps))]
        ats = [mk("foldat", lv, d, ini, steps, i, idx)
               for i in range(len(ps))]
        return fin, ats

    def accum(self, p, new, init, dom, idx, stop):
        uid = idx.args[0]

        def free(t):
            return not contains_term(
                t, lambda y: y.op == "carry" and y.args[0] == uid)
        ls = leaves(new)
        # list accumulation
        def seqpart(l):
            if l is p:
                return mk("list", ())
            if l.op == "cat" and l.args[0][0] is p:
                r = cat(*l.args[0][1:])
                return r if free(r) else None
            return None
        if all(l is p or (l.op == "cat" and l.args[0][0] is p) for l in ls):
            if all(seqpart(l) is not None for l in ls):
                inc = mapleaf(new, seqpart)
                if free(inc):
                    f = self.close("flat", dom, idx, stop, [inc])
                    lvl = self.prefix("flat", dom, idx, stop, inc)
                    return (cat(arg(init), lvl), cat(arg(init), f))
        if all(l is p or l.op in ("poly",) for l in ls):
            inc = sub_(new, p)
            if free(inc):
                if inc.op != "v" and not has(inc, idx) and stop is FALSE \
                        and dom.op == "dom":
                    return (add(init, mul(inc, idx)),
                            add(init, mul(inc, dom.args[0])))
                f = self.close("sum", dom, idx, stop, [inc])
                return (add(init, self.prefix("sum", dom, idx, stop, inc)),
                        add(init, f))
        # a flag raised by some iteration
        ks = [l for l in ls if l is not p]
        if len(ks) == 1 and isconst(ks[0]) and new.op == "v":
            c = mapleaf(new, lambda l: FALSE if l is p else TRUE)
            if free(c):
                st2 = FALSE if stop is FALSE or implies(stop, c) else stop
                e = self.close("exists", dom, idx, st2, [c])
                j = self.prefix("exists", dom, idx, st2, c)
                return (ite(atom(j), ks[0], init), ite(atom(e), ks[0], init))
        # keyed stores
        def stores(l):
            out = []
            while l.op == "store":
                out.append(mk("tuple", (l.args[1], l.args[2])))
                l = l.args[0]
            if l is not p:
                return None
            out.reverse()
            return mk("tuple", tuple(out))
        if all(stores(l) is not None for l in ls):
            upd = mapleaf(new, stores)
            if free(upd):
                f = self.close("mapst", dom, idx, stop, [init, upd])
                lv = self.prefix("mapst", dom, idx, stop, upd, init)
                return lv, f
        return None

    def prefix(self, op, dom, idx, stop, inc, init=None):
        """Accumulated value before iteration idx."""
        j = mk("idx", self.fresh())
        m = {idx: j}
        inc2 = subst(inc, m)
        st2 = subst(stop, m) if stop is not FALSE else FALSE
        d = mk("dom", idx)
        parts = [inc2] if init is None else [init, inc2]
        return self.close(op, d, j, FALSE, parts)

    def wrap_effects(self, st, dom, idx, stop, inner, ph, at):
        outer = self.eff(st)
        for e in inner:
            g, t = e.guard, e.term
            if at:
                g, t = subst(g, at), subst(t, at)
            if has(g, idx) or has(t, idx) or e.kind != "raise":
                gg = g
                lv = 1 + max(dom.bh, g.bh, t.bh,
                             stop.bh if stop is not FALSE else 0)
                b = {idx: mk("bv", lv)}
                d = dom
                if stop is not FALSE:
                    d = mk("until", lv, dom, gate(subst(stop, b)))
                g2 = subst(g, b)
                t2 = subst(t, b)
                # split guard: invariant part stays outside
                bv = mk("bv", lv)
                if not has(g2, bv):
                    og, ig = g2, TRUE
                else:
                    og, ig = outer, simp(g2, outer)
                self.log.append(Effect(
                    e.kind, og, mk("eff", lv, d, gate(ig), t2), e.line,
                    e.fn))
            else:
                self.log.append(Effect(e.kind, g, t, e.line, e.fn))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, inplace=False):
        if isinstance(t, ast.Name):
            if not inplace:
                st.env.pop("@" + t.id, None)
            src = self.aliased(t.id, st) if inplace else None
            st.env[t.id] = v
            if src is not None:
                self.assign(src, v, st, inplace=True)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if star:
                    k = star[0]
                    if i < k:
                        x = self.getitem(v, num(i))
                        self.assign(e, x, st)
                    elif i == k:
                        self.assign(e.value, self.getitem(v, mk(
                            "slice", num(k),
                            num(-(n - k - 1)) if n - k - 1 else NONE,
                            NONE)), st)
                    else:
                        self.assign(e, self.getitem(v, num(i - n)), st)
                else:
                    self.assign(e, self.getitem(v, num(i)), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(t, b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = arg(self.ev_index(t.slice, st))
            kg = gate(k)
            if k.op == "slice" and k.args[2] is NONE and \
                    arg(v).op in ("list", "tuple") and arg(v).args[0]:
                # x[-2:] = [a, b]
                vs = arg(v).args[0]
                lo, hi = [x if x is NONE else
                          int(x.args[0]) if x.op == "num" else None
                          for x in k.args[:2]]
                ks = None
                if hi is NONE and lo == -len(vs):
                    ks = range(lo, 0)
                elif lo in (NONE, 0) and hi == len(vs):
                    ks = range(hi)
                if ks is not None:
                    for i, x in zip(ks, vs):
                        self.assign(ast.copy_location(ast.Subscript(
                            value=t.value, slice=ast.copy_location(
                                ast.Constant(value=i), t), ctx=t.ctx), t),
                            ungate(x), st)
                    return
            if k.op == "v" and nleaves(k) <= 4 and not isbool(k) and all(
                    x.op == "num" for x in leaves(k)) and \
                    all(x.op in ("list", "dict") for x in leaves(b)):
                nb = lift(self.store, b, k, lift(gate, arg(v)))
            else:
                nb = lift(lambda bb, vv: self.store(bb, kg, vv), b, arg(v))
            self.assign(t.value, nb, st, inplace=True)
        elif isinstance(t, ast.Call) or isinstance(t, ast.BinOp):
            self.emit(st, "store", mk("storeto", arg(self.ev(t, st)),
                                      arg(v)), t)
        else:
            self.unknown("assign", t)

    def aliased(self, name, st):
        """Where the object lives that a local name stands for."""
        if not self.stack or not isinstance(getattr(
                self.stack[-1], "node", None), ast.FunctionDef):
            return None
        node = self.stack[-1].node
        tab = self._aliases.get(id(node))
        if tab is None:
            tab = self._aliases[id(node)] = local_aliases(node)
        src = tab.get(name)
        if src is None:
            return None
        x = src
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            if isinstance(x, ast.Subscript):
                k = arg(self.ev_index(x.slice, st))
                if not (k.op in ("const", "num", "idx") or
                        k.op == "sub" and k.args[1].op == "idx"):
                    return None
            x = x.value
        if x.id == "self" and self.cls is not None:
            y = src
            while y.value is not x:
                y = y.value
            if isinstance(y, ast.Attribute) and \
                    self.p.method(self.cls, y.attr) is not None:
                return None
        return src

    def setattr(self, node, b, name, v, st):
        if b.op == "v":
            b = gate(b)
        if b is SELF:
            st.heap[(b, name)] = v
            self.lines.setdefault(name, node.lineno)
            return
        if isinstance(node.value, ast.Name) and b.op != "sym" or \
                isinstance(node.value, ast.Name):
            self.emit(st, "setattr", mk("setattr", b, name, arg(v)), node)
            st.heap[(b, name)] = v
        else:
            self.emit(st, "setattr", mk("setattr", b, name, arg(v)), node)
            st.heap[(b, name)] = v

    def store(self, b, k, v):
        if b.op == "dict" and isconst(k):
            items = [(x, y) for x, y in b.args[0] if x is not k]
            if all(isconst(x) for x, _ in items):
                items.append((k, v))
                return mk("dict", tuple(sorted(items,
                                               key=lambda q: q[0].h)))
        if b.op == "list" and k.op == "num" and \
                k.args[0].denominator == 1 and \
                -len(b.args[0]) <= k.args[0] < len(b.args[0]):
            l = list(b.args[0])
            l[int(k.args[0])] = v
            return mk("list", tuple(l))
        if b.op == "store" and b.args[1] is k:
            return mk("store", b.args[0], k, v)
        if b.op == "store" and self.distinct(b.args[1], k) and \
                k.h < b.args[1].h:
            return mk("store", self.store(b.args[0], k, v), b.args[1],
                      b.args[2])
        return mk("store", b, k, v)

    def distinct(self, a, b):
        if isconst(a) and isconst(b):
            return a is not b
        return False

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.steps += 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unknown("expr " + type(n).__name__, n)
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e__Val(self, n, st):
        return n.v

    def s__Bind(self, s, st):
        self.assign(s.target, s.v, st)

    def e_Name(self, n, st):
        if n.id in st.env:
            return simp(st.env[n.id], st.pc)
        return self.global_name(n.id, st)

    def global_name(self, name, st):
        if hasattr(self.mod, "extra"):
            from .specs import resolve_in_overlay
            r = resolve_in_overlay(self.p, self.mod, name)
            if isinstance(r, Func) and r.module is self.mod:
                t = mk("func", "spec:" + r.name)
                self.specfuncs[t.args[0]] = r
                return t
        else:
            r = self.p.name_in(self.mod, name)
        if r is None:
            if self.stack and not hasattr(builtins, name) and \
                    name in self.localnames(self.stack[-1].node):
                return UNBOUND
            return mk("ext", name)
        return self.from_resolved(r, name)

    def localnames(self, node):
        r = self.ln.get(node)
        if r is None:
            r = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)}
            self.ln[node] = r
        return r

    def from_resolved(self, r, name):
        if isinstance(r, Func):
            return mk("func", r.id)
        if isinstance(r, Class):
            return mk("cls", r.id)
        if isinstance(r, Module):
            return mk("mod", r.name)
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "const":
            if r[2] is None:
                return mk("glob", r[1].name, name)
            if isinstance(r[2], ast.Call):
                return mk("glob", r[1].name, name)
            om, ol = self.mod, self.log
            self.mod, self.log = r[1], []
            try:
                v = self.ev(r[2], new_state())
            finally:
                self.mod, self.log = om, ol
            return v
        return mk("ext", name)

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return simp(lift(lambda x: self.getattr(x, n.attr, st), arg(b)),
                    st.pc)

    def getattr(self, b, name, st):
        k = (b, name)
        if k in st.heap:
            return st.heap[k]
        if b.op == "ext":
            return mk("ext", b.args[0] + "." + name)
        if b.op == "mod":
            m = self.p.modules[b.args[0]]
            r = self.p.name_in(m, name)
            if r is not None:
                return self.from_resolved(r, name)
            sub = self.p.modules.get(b.args[0] + "." + name)
            if sub:
                return mk("mod", sub.name)
        if b.op == "setattrv" and b.args[1] == name:
            return b.args[2]
        if b is SELF and self.cls is not None:
            f = self.p.method(self.cls, name)
            if f is not None:
                if "property" in f.deco and not self.boundary(f):
                    return self.inline(f, [], {}, st, SELF)
                if "property" not in f.deco:
                    return mk("method", f.name)
            cc = self.p.class_consts(self.cls, name)
            if cc is not None and not isinstance(cc[1], ast.Call):
                om = self.mod
                self.mod = cc[0].module
                try:
                    return self.ev(cc[1], new_state())
                finally:
                    self.mod = om
        if name == "size" and False:
            return mk("len", b)
        if b.op == "new":
            # option read back from a constructed object
            pass
        return mk("attr", b, name)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        k = self.ev_index(n.slice, st)
        return simp(self.getitem(b, k), st.pc)

    def ev_index(self, s, st):
        if isinstance(s, ast.Slice):
            def g(x):
                return arg(self.ev(x, st)) if x is not None else NONE
            lo, hi, sp = g(s.lower), g(s.upper), g(s.step)
            if lo is ZERO:
                lo = NONE
            if sp is ONE:
                sp = NONE
            return lift(lambda a, b, c: mk("slice", a, b, c), lo, hi, sp)
        if isinstance(s, ast.Tuple):
            vals = [arg(self.ev_index(x, st)) for x in s.elts]
            return lift(lambda *v: mk("tuple", tuple(v)), *vals) if vals \
                else mk("tuple", ())
        return self.ev(s, st)

    def getitem(self, b, k):
        return lift(self.getitem0, arg(b), arg(k))

    def getitem0(self, b, k):
        if b.op in ("list", "tuple") and k.op == "num" and \
                k.args[0].denominator == 1:
            i = int(k.args[0])
            if -len(b.args[0]) <= i < len(b.args[0]):
                return ungate(b.args[0][i])
        if b.op == "list" and len(b.args[0]) == 1 and \
                k.op in ("idx", "bv"):
            return ungate(b.args[0][0])
        if b.op in ("list", "tuple") and k.op == "slice" and \
                all(x is NONE or (x.op == "num" and
                                  x.args[0].denominator == 1)
                    for x in k.args):
            sl = slice(*[None if x is NONE else int(x.args[0])
                         for x in k.args])
            return mk(b.op, tuple(b.args[0][sl]))
        if b.op == "call" and b.args[0] in TUPLES and k.op == "slice" and \
                all(x is NONE or (x.op == "num" and
                                  x.args[0].denominator == 1)
                    for x in k.args):
            sl = slice(*[None if x is NONE else int(x.args[0])
                         for x in k.args])
            return mk("tuple", tuple(
                mk("sub", b, num(i))
                for i in range(TUPLES[b.args[0]])[sl]))
        if b.op == "cat" and k.op == "num" and k.args[0].denominator == 1:
            # the last (first) elements of a concatenation
            i = int(k.args[0])
            x = b.args[0][-1 if i < 0 else 0]
            if x.op == "list" and -len(x.args[0]) <= i < len(x.args[0]):
                return ungate(x.args[0][i])
        if k.op == "tuple" and len(k.args[0]) > 1 and all(
                x.op == "slice" and all(y is NONE for y in x.args)
                for x in k.args[0][1:]):
            return self.getitem0(b, ungate(k.args[0][0]))   # c[i, :]
        if b.op == "sub" and k.op in ("idx", "bv") and \
                b.args[1].op == "slice" and b.args[1].args[2] is NONE and \
                b.args[1].args[0] in (NONE, ZERO):
            return self.getitem(b.args[0], k)               # x[:n][i]
        if b.op == "dict":
            if isconst(k):
                for kk, v in b.args[0]:
                    if kk is k:
                        return ungate(v)
            elif k.op in ("sym", "attr", "mcall", "call") and \
                    0 < len(b.args[0]) <= 12 and \
                    all((isconst(kk) or kk.op == "ext") and vv.op != "dict"
                        for kk, vv in b.args[0]):
                r = mk("keyerr", k)
                for kk, v in b.args[0]:
                    r = ite(eq(k, kk), ungate(v), r)
                return r
        if b.op == "store":
            if b.args[1] is k:
                return ungate(b.args[2])
            if self.distinct(b.args[1], k) and isconst(k):
                return self.getitem0(b.args[0], k)
        if b.op == "flat" and b.args[1].op == "dom" and \
                b.args[2].op == "list" and len(b.args[2].args[0]) == 1 and \
                k.op not in ("slice", "tuple", "bool", "num", "call",
                             "mcall", "list", "flat"):
            e = b.args[2].args[0][0]
            return subst(e, {mk("bv", b.args[0]): k}) \
                if k.bh < b.args[0] and not (k.op == "bv") else mk(
                    "sub", b, k)
        if b.op == "sub" and k.op == "const" and b.args[1].op == "list" and \
                isinstance(k.args[0], str) and k in b.args[1].args[0] and all(
                    x.op == "const" and isinstance(x.args[0], str)
                    for x in b.args[1].args[0]):
            # a column of a selection of columns
            return self.getitem0(b.args[0], k)
        if b.op == "ext" and b.args[0] == "numpy.r_" and k.op == "tuple":
            # numpy.r_ of one-dimensional arrays is associative
            o = []
            for x in k.args[0]:
                y = ungate(x)
                if y.op == "sub" and y.args[0] is b and \
                        y.args[1].op == "tuple":
                    o.extend(y.args[1].args[0])
                else:
                    o.append(x)
            k = mk("tuple", tuple(o))
        if b.op == "attr" and b.args[1] == "shape" and k is ZERO:
            return mk("len", b.args[0])
        if b.op == "poly" and not (k.op == "const") and not scalarish(b):
            r = ZERO
            for mono, c in b.args[0]:
                t = num(c)
                for x, e in mono:
                    y = x if scalarish(x) else self.getitem(x, k)
                    t = mul(t, power(y, num(e)))
                r = add(r, t)
            return r
        if b.op == "range" and b.args[2] is ONE and k.op in ("idx", "bv"):
            return add(b.args[0], k)
        if b.op == "reversedv":
            pass
        return mk("sub", b, k)

    def e_Tuple(self, n, st):
        return self.seqlit("tuple", n, st)

    def e_List(self, n, st):
        return self.seqlit("list", n, st)

    def e_Set(self, n, st):
        v = [arg(self.ev(x, st)) for x in n.elts]
        return mk("set", tuple(sorted(set(gate(x) for x in v))))

    def seqlit(self, op, n, st):
        vals, parts, starred = [], [], False
        for x in n.elts:
            if isinstance(x, ast.Starred):
                starred = True
                if vals:
                    parts.append(mk("list", tuple(vals)))
                    vals = []
                parts.append(gate(arg(self.ev(x.value, st))))
            else:
                vals.append(gate(arg(self.ev(x, st))))
        if starred:
            if vals:
                parts.append(mk("list", tuple(vals)))
            if len(parts) == 1:
                return mk("call", "list", (parts[0],), ())
            return cat(*parts)
        return mk(op, tuple(vals))

    def e_Dict(self, n, st):
        if any(k is None for k in n.keys):
            d = mk("dict", ())
            for k, v in zip(n.keys, n.values):
                x = arg(self.ev(v, st))
                if k is None:
                    d = self.dmerge(d, x)
                else:
                    kk = gate(arg(self.ev(k, st)))
                    d = lift(lambda y: self.store(y, kk, gate(x)), d)
            return d
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                items.append((mk("const", "**"), gate(arg(self.ev(v, st)))))
            else:
                items.append((gate(arg(self.ev(k, st))),
                              gate(arg(self.ev(v, st)))))
        return mk("dict", tuple(sorted(items, key=lambda q: q[0].h)))

    def e_IfExp(self, n, st):
        c = simp(truth(self.ev(n.test, st)), st.pc)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        pc = st.pc
        st.pc = b_and(pc, c)
        a = self.ev(n.body, st)
        st.pc = b_and(pc, b_not(c))
        b = self.ev(n.orelse, st)
        st.pc = pc
        return pick(c, a, b)

    def e_BoolOp(self, n, st):
        pc = st.pc
        vals = []
        acc = None
        isand = isinstance(n.op, ast.And)
        out = []
        for v in n.values:
            x = self.ev(v, st)
            out.append(x)
            t = truth(x)
            st.pc = b_and(st.pc, t if isand else b_not(t))
        st.pc = pc
        r = out[-1]
        for x in reversed(out[:-1]):
            t = truth(x)
            r = ite(t, r, x if not isbool(t) or not isbool(x) else FALSE) \
                if isand else ite(t, x if not isbool(x) else TRUE, r)
        return r

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return b_not(truth(v))
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.invert(v)

    def invert(self, v):
        if isbool(v):
            return b_not(v)
        return b_not(truth(v))

    def e_BinOp(self, n, st):
        return self.bin(n.op, self.ev(n.left, st), self.ev(n.right, st))

    def bin(self, op, a, b):
        o = type(op)
        if o is ast.Add:
            return add(a, b)
        if o is ast.Sub:
            return sub_(a, b)
        if o is ast.Mult:
            return mul(a, b)
        if o is ast.Div:
            return div(a, b)
        if o is ast.Pow:
            return power(a, b)
        if o is ast.BitOr and (a.op == "dict" or b.op == "dict"):
            return self.dmerge(a, b)
        if o in (ast.BitAnd, ast.BitOr):
            if isbool(a) or isbool(b) or a.op == "bool" or b.op == "bool":
                return b_and(a, b) if o is ast.BitAnd else b_or(a, b)
            return self.bitop("&" if o is ast.BitAnd else "|", a, b)
        if o is ast.BitXor:
            return binop("^", a, b, True)
        if o is ast.Mod and a.op == "const":
            return mk("fmt", (a, gate(arg(b))))
        name = {ast.FloorDiv: "//", ast.Mod: "%", ast.MatMult: "@",
                ast.LShift: "<<", ast.RShift: ">>"}[o]
        return binop(name, a, b)

    def bitop(self, name, a, b):
        # masks held in plain variables: treat as boolean algebra
        return b_and(a, b) if name == "&" else b_or(a, b)

    def e_Compare(self, n, st):
        l = self.ev(n.left, st)
        r = TRUE
        for op, c in zip(n.ops, n.comparators):
            x = self.ev(c, st)
            r = b_and(r, self.cmp(op, l, x))
            l = x
        return r

    def cmp(self, op, a, b):
        o = type(op)
        if o is ast.Lt:
            return lt(a, b)
        if o is ast.LtE:
            return le(a, b)
        if o is ast.Gt:
            return lt(b, a)
        if o is ast.GtE:
            return le(b, a)
        if o is ast.Eq:
            return eq(a, b)
        if o is ast.NotEq:
            return b_not(eq(a, b))
        if o is ast.Is:
            return is_(a, b)
        if o is ast.IsNot:
            return b_not(is_(a, b))
        if o is ast.In:
            return contains(a, b)
        return b_not(contains(a, b))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = gate(arg(self.ev(v.value, st)))
                spec = ""
                if v.format_spec is not None:
                    if all(isinstance(q, ast.Constant)
                           for q in v.format_spec.values):
                        spec = "".join(q.value
                                       for q in v.format_spec.values)
                    else:
                        spec = self.e_JoinedStr(v.format_spec, st)
                parts.append(fstr(x, spec))
        return cat(*parts) if parts else const("")

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Starred(self, n, st):
        return mk("star", gate(arg(self.ev(n.value, st))))

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def e_Slice(self, n, st):
        return self.ev_index(n, st)

    def closure(self, n, st):
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        s1 = st.copy()
        ids = []
        for x in names:
            i = mk("idx", self.fresh())
            ids.append(i)
            s1.env[x] = i
        s1.ret = UNSET
        s1.live = TRUE
        s1.lp = TRUE
        log0 = self.log
        self.log = []
        if isinstance(n, ast.Lambda):
            v = self.ev(n.body, s1)
        else:
            self.exec_block(n.body, s1)
            v = s1.ret
        inner = self.log
        self.log = log0
        fx = tuple(sorted(mk("fx", e.kind, gate(e.guard), e.term)
                          for e in inner))
        lv = 1 + max([v.bh] + [x.bh for x in fx])
        m = {i: mk("bv", lv, k) for k, i in enumerate(ids)}
        t = mk("lam", lv, gate(arg(subst(v, m))),
               tuple(subst(x, m) for x in fx), len(ids))
        env = dict(st.env)
        self.closures[t] = (n, env, self.mod)
        return t

    # comprehension --------------------------------------------------------
    def e_ListComp(self, n, st):
        return self.comp(n, n.generators, st, lambda s: mk(
            "list", (gate(arg(self.ev(n.elt, s))),)))

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        return mk("call", "set", (self.e_ListComp(n, st),), ())

    def e_DictComp(self, n, st):
        def gen(gens, s):
            if not gens:
                k = gate(arg(self.ev(n.key, s)))
                v = gate(arg(self.ev(n.value, s)))
                return mk("tuple", (mk("tuple", (k, v)),))
            return None
        g = n.generators
        if len(g) != 1 and not has_node(n, (
                ast.NamedExpr, ast.Await, ast.Yield)):
            name = "__dc%d" % self.fresh()
            body = ast.Assign(targets=[ast.Subscript(
                value=ast.Name(id=name, ctx=ast.Load()), slice=n.key,
                ctx=ast.Store())], value=n.value)
            for c in reversed(g):
                for i in reversed(c.ifs):
                    body = ast.If(test=i, body=[body], orelse=[])
                body = ast.For(target=c.target, iter=c.iter, body=[body],
                               orelse=[])
            ast.fix_missing_locations(ast.copy_location(body, n))
            s1 = st.copy()
            s1.env[name] = mk("dict", ())
            self.exec_block([body], s1)
            return s1.env[name]
        if len(g) != 1:
            l = self.comp(n, g, st, lambda s: mk("list", (mk("tuple", (
                gate(arg(self.ev(n.key, s))),
                gate(arg(self.ev(n.value, s))))),)))
            return mk("call", "dict", (l,), ())
        it = arg(self.ev(g[0].iter, st))
        items = self.literal_items(it)
        if it.op == "items" and it.args[0].op == "dict" and \
                all(isconst(k) for k, _ in it.args[0].args[0]):
            items = [mk("tuple", kv) for kv in it.args[0].args[0]]
        if items is not None and not g[0].ifs:
            d = mk("dict", ())
            for x in items:
                s1 = st.copy()
                self.assign(g[0].target, x, s1)
                d = self.store(d, gate(arg(self.ev(n.key, s1))),
                               gate(arg(self.ev(n.value, s1))))
            return d
        idx = mk("idx", self.fresh())
        dom, elem = self.domain(it, idx)
        s1 = st.copy()
        self.assign(g[0].target, elem, s1)
        c = TRUE
        for i in g[0].ifs:
            c = b_and(c, self.ev(i, s1))
            s1.pc = b_and(s1.pc, c)
        upd = ite(c, gen([], s1), mk("tuple", ()))
        return self.close("mapst", dom, idx, FALSE, [mk("dict", ()), upd])

    def comp(self, n, gens, st, leaf, it0=None):
        g = gens[0]
        it = it0 if it0 is not None else arg(self.ev(g.iter, st))
        if it.op == "v" and nleaves(it) <= 4 and not isbool(it):
            rs = {}
            for l in leaves(it):
                rs[l] = self.comp(n, gens, st, leaf, l)
            return mapleaf(it, lambda x: rs[x])
        items = self.literal_items(it)

        def inner(s):
            c = TRUE
            for i in g.ifs:
                x = truth(self.ev(i, s))
                c = b_and(c, x)
                s.pc = b_and(s.pc, x)
            v = leaf(s) if len(gens) == 1 else self.comp(
                n, gens[1:], s, leaf)
            return ite(c, v, mk("list", ()))
        if items is not None and len(items) <= 12:
            r = mk("list", ())
            for x in items:
                s1 = st.copy()
                self.assign(g.target, x, s1)
                r = add(r, inner(s1))
            return r
        idx = mk("idx", self.fresh())
        dom, elem = self.domain(it, idx)
        s1 = st.copy()
        self.assign(g.target, elem, s1)
        return self.close("flat", dom, idx, FALSE, [inner(s1)])

    # --------------------------------------------------------------- calls
    def e_Call(self, n, st):
        return self.call(n, st)

    def call(self, n, st, stmt=False):
        f = n.func
        for k in n.keywords:
            # keyword arguments collected conditionally: one call per case
            if k.arg is not None or not isinstance(k.value, ast.Name):
                continue
            v = self.starred.get(id(k)) or self.ev(k.value, st)
            if v.op == "v" and nleaves(v) <= 6 and all(
                    x.op == "dict" and all(isconst(y) for y, _ in x.args[0])
                    for x in leaves(v)):
                return self.percase(k, v, n, st, stmt)
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and\
                isinstance(f.value.func, ast.Name) and \
                f.value.func.id == "super":
            cur = self.stack[-1].cls
            if cur is not None:
                mro = self.p.mro(self.cls or cur)
                if cur in mro:
                    for k in mro[mro.index(cur) + 1:]:
                        if f.attr in k.methods:
                            a, kw = self.args(n, st)
                            return self.invoke(k.methods[f.attr], a, kw, st,
                                               SELF, n, stmt, force=True)
            a, kw = self.args(n, st)
            return mk("mcall", mk("super"), f.attr, tuple(a), kw)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st)
            if b.op == "v":
                b = simp(b, st.pc)
            a, kw = self.args(n, st)
            if b is SELF and self.cls is not None:
                m = self.p.method(self.cls, f.attr)
                if m is not None:
                    return self.invoke(m, a, kw, st, SELF, n, stmt)
            if b.op in ("mod", "ext", "cls"):
                tgt = lift(lambda x: self.getattr(x, f.attr, st), b)
                if b.op == "cls":
                    c = self.p.cls(b.args[0])
                    m = self.p.method(c, f.attr) if c else None
                    if m is not None:
                        return self.invoke(m, a, kw, st, None, n, stmt)
                return self.apply(tgt, a, kw, st, n, stmt)
            if f.attr in MUTATORS:
                return self.mutate(f, b, a, kw, st, n, stmt)
            if stmt and f.attr in INPLACE and isinstance(
                    f.value, ast.Name) and any(
                        k == "inplace" and v is TRUE for k, v in kw):
                kw = tuple(x for x in kw if x[0] != "inplace")
                self.assign(f.value, lift(lambda x: self.mcall(
                    x, f.attr, a, kw, st), arg(b)), st, inplace=True)
                return NONE
            r = lift(lambda x: self.mcall(x, f.attr, a, kw, st), arg(b))
            if any(x.op == "new" for x in leaves(b)) and all(
                    x.op == "new" and self.returns_self(x, f.attr) or
                    x.op in ("attr", "unbound") for x in leaves(b)):
                self.emit(st, "call", r, n)
                return b
            if stmt:
                self.emit(st, "call", r, n)
            return simp(r, st.pc)
        t = self.ev(f, st)
        a, kw = self.args(n, st)
        return self.apply(t, a, kw, st, n, stmt)

    def percase(self, k, v, n, st, stmt):
        c = atom(v.args[0])
        old = self.starred.get(id(k))
        s1, s2 = st.copy(), st.copy()
        s1.pc = b_and(st.pc, c)
        s2.pc = b_and(st.pc, b_not(c))
        rs = []
        for s, x in ((s1, v.args[1]), (s2, v.args[2])):
            self.starred[id(k)] = x
            rs.append(self.call(n, s, stmt) if s.pc is not FALSE else None)
        if old is None:
            del self.starred[id(k)]
        else:
            self.starred[id(k)] = old
        if rs[0] is None or rs[1] is None:
            s = s1 if rs[1] is None else s2
            s.pc = st.pc
            st.take(s)
            return rs[0] if rs[1] is None else rs[1]
        self.merge(c, s1, s2, st)
        return ite(c, *rs)

    def returns_self(self, b, name):
        """The method always returns its receiver."""
        c = self.p.cls(b.args[0])
        m = self.p.method(c, name) if c is not None else None
        return m is not None and always_self(m, self.p, c)

    def args(self, n, st):
        a = []
        for x in n.args:
            v = arg(self.ev(x, st))
            if isinstance(x, ast.Starred) and v.op == "star" and \
                    v.args[0].op in ("tuple", "list"):
                a.extend(v.args[0].args[0])
            else:
                a.append(v)
        kw = []
        for k in n.keywords:
            v = self.starred.get(id(k)) or arg(self.ev(k.value, st))
            if k.arg is None:
                if v.op == "dict" and all(
                        isconst(x) for x, _ in v.args[0]):
                    kw.extend((x.args[0], y) for x, y in v.args[0])
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        kw.sort(key=lambda q: q[0])
        return a, tuple(kw)

    def liftcall(self, build, a, kw):
        """build(args, kw) over diagrams, bounded."""
        a = [x if x.op != "bool" else flagged(x) for x in a]
        kw = tuple((k, x if x.op != "bool" else flagged(x)) for k, x in kw)
        vs = list(a) + [v for _, v in kw]
        nl = 1
        for v in vs:
            if v.op == "v":
                nl *= nleaves(v)
        if nl > 24:
            tm.Budget.hit += 1
            return build([gate(x) for x in a],
                         tuple((k, gate(v)) for k, v in kw))
        if nl == 1:
            return build(list(a), kw)
        na = len(a)

        def f(*xs):
            return build(list(xs[:na]), tuple(
                (k, x) for (k, _), x in zip(kw, xs[na:])))
        return lift(f, *vs)

    def apply(self, t, a, kw, st, n, stmt=False):
        if t.op == "v":
            r = None
            rs = {}
            for l in leaves(t):
                rs[l] = self.apply(l, a, kw, st, n, False)
            r = mapleaf(t, lambda x: rs[x])
            if stmt:
                self.emit(st, "call", r, n)
            return r
        if t.op == "func":
            fn = self.specfuncs.get(t.args[0]) or self.p.func(t.args[0])
            return self.invoke(fn, a, kw, st, None, n, stmt)
        if t.op == "method":
            fn = self.p.method(self.cls, t.args[0])
            return self.invoke(fn, a, kw, st, SELF, n, stmt)
        if t.op == "cls":
            c = self.p.cls(t.args[0])
            return self.construct(c, a, kw, n)
        if t.op == "lam" and t in self.closures:
            return self.call_closure(t, a, kw, st, n)
        if t.op == "ext":
            name = t.args[0]
            if name.startswith("builtins."):
                name = name[9:]
            r = self.extcall(name, a, kw, st, n)
            if stmt and r is not None:
                self.emit(st, "call", r, n)
            return simp(r, st.pc)
        r = self.liftcall(lambda x, y: mk("callv", t, tuple(x), y), a, kw)
        if stmt:
            self.emit(st, "call", r, n)
        return r

    def call_closure(self, t, a, kw, st, n=None):
        node, env, mod = self.closures[t]
        if len(self.stack) > self.max_depth + 4:
            return self.unknown("closure depth", node)
        names = [x.arg for x in node.args.args]
        e2 = dict(env)
        # free variables are late-bound: prefer current values
        for k in env:
            if k in st.env:
                e2[k] = st.env[k]
        ad = node.args
        for x, d in list(zip(ad.args[len(ad.args) - len(ad.defaults):],
                             ad.defaults)) + \
                [(x, d) for x, d in zip(ad.kwonlyargs, ad.kw_defaults) if d]:
            e2[x.arg] = self.ev(d, st)
        for k, v in zip(names, a):
            e2[k] = v
        for k, v in kw:
            e2[k] = v
        s1 = new_state(e2, st.heap, self.eff(st))
        self.stack.append(self.stack[-1])
        om = self.mod
        self.mod = mod
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, s1)
            self.exec_block(node.body, s1)
        finally:
            self.stack.pop()
            self.mod = om
        st.heap = s1.heap
        # captured variables and arguments changed in place
        local = {x.id for x in _own(node) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)}
        free = {y for x in _own(node) if isinstance(x, ast.Nonlocal)
                for y in x.names}
        for k in env:
            if k in free or k not in local and k not in names:
                if k in st.env and s1.env.get(k, e2[k]) is not e2[k]:
                    st.env[k] = s1.env[k]
        if n is not None:
            srcs = dict(zip(names, n.args))
            srcs.update((x.arg, x.value) for x in n.keywords if x.arg)
            for k, x in srcs.items():
                if k not in local and k in e2 and \
                        s1.env.get(k, e2[k]) is not e2[k] and \
                        isinstance(x, (ast.Name, ast.Attribute)):
                    self.assign(x, s1.env[k], st, inplace=True)
        return detuple(mapleaf(s1.ret, lambda x: NONE if x is UNSET else x))

    def bind(self, fn, a, kw):
        """-> (ordered dict name->T, ok)."""
        node = fn.node.args
        names = fn.params()
        out = {}
        extra = []
        if any(x.op == "star" for x in a) or any(k == "**" for k, _ in kw):
            return None
        for i, v in enumerate(a):
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kwo = {x.arg for x in node.kwonlyargs}
        kextra = []
        for k, v in kw:
            if k in names or k in kwo:
                out[k] = v
            else:
                kextra.append((k, v))
        if extra and not node.vararg:
            return None
        if kextra and not node.kwarg:
            return None
        if node.vararg:
            out["*" + node.vararg.arg] = mk("tuple", tuple(extra))
        if node.kwarg:
            out["**" + node.kwarg.arg] = mk("dict", tuple(
                sorted(((const(k), v) for k, v in kextra),
                       key=lambda q: q[0].h)))
        return out

    def fill_defaults(self, fn, b):
        for k, d in fn.defaults().items():
            if k not in b:
                om = self.mod
                self.mod = fn.module
                try:
                    b[k] = self.ev(d, new_state())
                finally:
                    self.mod = om
        return b

    def construct(self, c, a, kw, n):
        init = self.p.method(c, "__init__")
        if init is None:
            return self.liftcall(lambda x, y: mk(
                "new", c.id, tuple(("%d" % i, v) for i, v in enumerate(x)) +
                y), [gate(x) for x in a], tuple((k, gate(v)) for k, v in kw))
        b = self.bind(init, a, kw)
        if b is None:
            return mk("new", c.id, tuple(
                ("%d" % i, gate(v)) for i, v in enumerate(a)) +
                tuple((k, gate(v)) for k, v in kw))
        b = self.fill_defaults(init, b)
        return mk("new", c.id, tuple(sorted(
            ((k, gate(v)) for k, v in b.items()), key=lambda q: q[0])))

    def invoke(self, fn, a, kw, st, selfv, n, stmt=False, force=False):
        b = self.bind(fn, a, kw)
        opaque = b is None or self.boundary(fn) or \
            len(self.stack) > self.max_depth or fn in self.stack
        if fn.id in self.overrides:
            opaque = True
        if force and b is not None and fn not in self.stack and \
                fn.name == "__init__":
            opaque = self.boundary(fn)
        if opaque:
            if fn not in self.stack and not self.boundary(fn):
                self.missed.add(fn.id)
            if b is None:
                r = self.liftcall(lambda x, y: mk(
                    "call", fn.id, tuple(x), y), a, kw)
            else:
                b = self.fill_defaults(fn, b)
                if selfv is SELF and self.cls is not None:
                    # memory dependence: attributes assigned here and read
                    # by the callee
                    p, f2, c2 = self.memory(fn)
                    for x in p.reads(f2, c2):
                        v = st.heap.get((SELF, x))
                        if v is not None:
                            b["@" + x] = simp(v, self.eff(st))
                items = tuple(sorted(b.items()))
                r = self.liftcall(lambda x, y: mk("call", fn.name
                                                  if selfv is SELF
                                                  else fn.id, (), y),
                                  [], items)
            chain = selfv is SELF and self.cls is not None and \
                not fn.deco and always_self(fn, self.p, self.cls)
            void = not stmt and not chain and self.returns_none(fn)
            if stmt or chain or void:
                self.emit(st, "call", r, n)
            if selfv is SELF and self.cls is not None:
                self.havoc(fn, gate(r), st)
            if chain:
                return SELF
            if void:
                return NONE
            return simp(r, st.pc)
        return self.inline(fn, a, kw, st, selfv, b, n)

    def returns_none(self, fn):
        """No function of this name returns a value."""
        if fn._void is None:
            def void(f):
                b = [x for x in f.node.body if not (
                    isinstance(x, ast.Expr) and
                    isinstance(x.value, ast.Constant))]
                return not f.deco and bool(b) and not isinstance(
                    b[-1], (ast.Pass, ast.Raise)) and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) or
                    isinstance(x, ast.Return) and x.value is not None and
                    not (isinstance(x.value, ast.Constant) and
                         x.value.value is None)
                    for x in _own(f.node))
            fs = [fn]
            if fn.cls is not None:
                fs = [f for f in self.p.all_funcs()
                      if f.cls is not None and f.name == fn.name]
            fn._void = fn.name != "__init__" and all(void(f) for f in fs)
        return fn._void

    def memory(self, fn):
        """Project, function and class whose attribute accesses describe a
        call (those of the reference model, for known functions)."""
        if self.ref is not None:
            f2 = self.ref.func(fn.id)
            c2 = self.ref.cls(self.cls.id)
            if f2 is not None and c2 is not None:
                return self.ref, f2, c2
        return self.p, fn, self.cls

    def havoc(self, fn, r, st):
        """A call that writes attributes of self gives them new versions."""
        p, f2, c2 = self.memory(fn)
        for x in p.writes(f2, c2):
            st.heap[(SELF, x)] = mk("after", r, x)

    def inline(self, fn, a, kw, st, selfv, b=None, n=None):
        self.inlined.add(fn.id)
        if b is None:
            b = self.bind(fn, a, kw) or {}
        b = self.fill_defaults(fn, b)
        env = {k.lstrip("*"): v for k, v in b.items()}
        node = fn.node.args
        pos = [x.arg for x in node.posonlyargs + node.args]
        if fn.cls is not None and "staticmethod" not in fn.deco and pos:
            env[pos[0]] = selfv if selfv is not None else mk("ext", "cls")
        s1 = new_state(env, dict(st.heap), self.eff(st))
        # reference semantics for mutated arguments
        s1.env.update({"@" + k: TRUE for k in b})
        om = self.mod
        self.mod = fn.module
        self.stack.append(fn)
        try:
            self.exec_block(fn.node.body, s1)
        finally:
            self.stack.pop()
            self.mod = om
        if s1.raised:
            st.raised = True
            return mk("unbound")
        st.heap = s1.heap
        # write back mutated parameters
        if n is not None:
            names = fn.params()
            srcs = {}
            for i, x in enumerate(n.args):
                if i < len(names):
                    srcs[names[i]] = x
            for k in n.keywords:
                if k.arg:
                    srcs[k.arg] = k.value
            for k, x in srcs.items():
                if k in b and ("@" + k) in s1.env and \
                        s1.env.get(k) is not b[k] and \
                        isinstance(x, (ast.Name, ast.Attribute)):
                    v = s1.env[k]
                    if v is not b[k]:
                        self.assign(x, v, st, inplace=True)
        return detuple(mapleaf(s1.ret, lambda x: NONE if x is UNSET else x))

    def mutate(self, f, b, a, kw, st, n, stmt):
        name = f.attr
        tgt = f.value
        if name in ("append",) and len(a) == 1:
            nv = lift(lambda x: cat(x, mk("list", (gate(a[0]),))), arg(b))
        elif name == "extend" and len(a) == 1:
            nv = lift(lambda x, y: tm.extend(x, self.aslist(y)), arg(b), a[0])
        elif name == "update" and len(a) <= 1 and (
                b.op == "dict" or b.op == "v" and
                all(x.op == "dict" for x in leaves(b)) or
                b.op == "call" and b.args[0] == "dict" or a and
                a[0].op == "dict" or kw) and not (
                    a and a[0].op not in ("dict", "v", "sym", "attr", "mut")):
            nv = b
            if a:
                nv = self.dmerge(nv, a[0])
            for k, v in kw:
                if k == "**":
                    nv = self.dmerge(nv, v)
                else:
                    nv = lift(lambda x: self.store(x, const(k), gate(v)), nv)
        else:
            nv = mk("mut", name, gate(arg(b)), tuple(gate(x) for x in a),
                    tuple((k, gate(v)) for k, v in kw))
        r = NONE
        if name in ("pop", "setdefault", "popitem"):
            r = mk("mcall", gate(arg(b)), name, tuple(gate(x) for x in a),
                   kw)
        elif not stmt:
            r = mk("mcall", gate(arg(b)), name, tuple(gate(x) for x in a),
                   kw)
        if isinstance(tgt, (ast.Name, ast.Attribute, ast.Subscript)):
            root = tgt
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            self.assign(tgt, nv, st, inplace=True) if not (
                isinstance(tgt, ast.Attribute) and
                self.ev(tgt.value, st) is not SELF) else \
                self.emit(st, "call", nv, n)
        else:
            self.emit(st, "call", nv, n)
        return r

    def dmerge(self, b, d):
        """Dictionary b updated with dictionary d."""
        def f(x, y):
            if y.op == "dict" and all(isconst(k) for k, _ in y.args[0]):
                for k, v in y.args[0]:
                    x = self.store(x, k, v)
                return x
            if x.op == "dict" and not x.args[0]:
                return y
            if x.op == "call" and x.args[0] == "dict" and \
                    len(x.args[1]) == 1 and not x.args[2]:
                x = ungate(x.args[1][0])
            return mk("mut", "update", x, (y,), ())
        return lift(f, b, d)

    def aslist(self, x):
        if x.op == "tuple":
            return mk("list", x.args[0])
        if x.op in ("list", "flat", "cat"):
            return x
        return x

    def mcall(self, b, name, a, kw, st):
        if name in NPMETH and b.op not in ("ext", "new", "cls"):
            return self.extcall("numpy." + name, [b] + list(a), kw, st, None)
        if b.op == "new":
            # arguments by name, with the defaults
            c = self.p.cls(b.args[0])
            m = self.p.method(c, name) if c is not None else None
            k2 = self.bind(m, a, kw) if m is not None else None
            if k2 is not None and not any(x.startswith("*") for x in k2):
                k2 = self.fill_defaults(m, k2)
                a, kw = [], tuple(sorted(
                    ((k, gate(v)) for k, v in k2.items()),
                    key=lambda q: q[0]))
        if name == "keys" and not a:
            return b
        if name == "items" and not a:
            return mk("items", b)
        if name == "values" and not a:
            return mk("values", b)
        if name == "count" and len(a) == 1 and not kw and (
                b.op in ("list", "flat", "cat", "values") or b.op == "call"
                and b.args[0] == "list"):
            i = mk("idx", self.fresh())
            d, e = self.domain(b, i)
            return self.close("sum", d, i, FALSE, [
                ite(eq(ungate(e), a[0]), ONE, ZERO)])
        if name == "get" and len(a) in (1, 2) and not kw:
            k = a[0]
            d = a[1] if len(a) == 2 else NONE
            if b.op == "dict" and isconst(k) and \
                    all(isconst(x) for x, _ in b.args[0]):
                for kk, v in b.args[0]:
                    if kk is k:
                        return v
                return d
            if b.op == "dict" and all(isconst(x) for x, _ in b.args[0]) \
                    and len(b.args[0]) <= 12:
                r = d
                for kk, v in b.args[0]:
                    r = ite(eq(k, kk), v, r)
                return r
            c = contains(k, b)
            return ite(c, self.getitem(b, k), d)
        if name == "format" and b.op == "const" and \
                isinstance(b.args[0], str):
            parts = fmtparts(b.args[0], a, kw)
            if parts is not None:
                return cat(*parts) if parts else const("")
        if name == "format" and b.op == "const":
            return mk("fmt", (b,) + tuple(gate(x) for x in a) +
                      tuple(gate(v) for _, v in kw))
        if name == "copy" and not a:
            return mk("call", "copy", (b,), ())
        if name == "astype" and len(a) == 1 and not kw and \
                a[0] is mk("ext", "bool") and b.op == "call" and \
                b.args[0] == "numpy.full" and len(b.args[1]) == 2 and \
                b.args[1][1] in (ZERO, ONE):
            return mk("call", "numpy.full", b.args[1], (("dtype", a[0]),))
        if name == "isnull" or name == "isna":
            return mk("call", "pandas.isnull", (b,), ())
        if name == "join" and b.op == "const":
            return mk("fmt", (b,) + tuple(gate(x) for x in a))
        return self.liftcall(lambda x, y: mk(
            "mcall", b, name, tuple(x), y), a, kw)

    def extcall(self, name, a, kw, st, n):
        name = NPALIAS.get(name, name)
        if kw and name in KWDEFAULTS:
            dv = KWDEFAULTS[name]
            kw = tuple((k, flagged(v) if v.op == "bool" and k in dv else v)
                       for k, v in kw)
            for i, (k, v) in enumerate(kw):
                if k in dv and v.op == "v" and nleaves(v) <= 4:
                    return lift(lambda x: self.extcall(
                        name, a, kw[:i] + ((k, x),) + kw[i + 1:], st, n), v)
            kw = tuple((k, v) for k, v in kw
                       if not (k in dv and const(dv[k]) is v))
        kwd = dict(kw)
        A = a
        if name in ("+", "-", "*", "/", "**", ">", "<", ">=", "<=", "==",
                    "!=", "&", "|", "~", "neg", "sq") and not kw:
            if name == "+":
                return add(A[0], A[1])
            if name == "-":
                return sub_(A[0], A[1])
            if name == "*":
                return mul(A[0], A[1])
            if name == "/":
                return div(A[0], A[1])
            if name == "**":
                return power(A[0], A[1])
            if name == "sq":
                return power(A[0], num(2))
            if name == "neg":
                return neg(A[0])
            if name == "&":
                return b_and(A[0], A[1])
            if name == "|":
                return b_or(A[0], A[1])
            if name == "~":
                return b_not(truth(A[0]))
            return {">": lambda: lt(A[1], A[0]), "<": lambda: lt(A[0], A[1]),
                    ">=": lambda: le(A[1], A[0]),
                    "<=": lambda: le(A[0], A[1]),
                    "==": lambda: eq(A[0], A[1]),
                    "!=": lambda: b_not(eq(A[0], A[1]))}[name]()
        if name == "len" and len(a) == 1:
            return self.length(a[0])
        if name == "range" and a and not kw:
            if len(a) == 1:
                x = [ZERO, a[0], ONE]
            elif len(a) == 2:
                x = [a[0], a[1], ONE]
            else:
                x = list(a)
            return lift(lambda p, q, r: mk("range", p, q, r), *x)
        if name == "slice" and not kw and 1 <= len(a) <= 3:
            lo, hi, sp = ([NONE] + list(a) + [NONE] if len(a) == 1 else
                          list(a) + [NONE])[:3]
            return lift(lambda x, y, z: mk(
                "slice", NONE if x is ZERO else x, y,
                NONE if z is ONE else z), arg(lo), arg(hi), arg(sp))
        if name == "enumerate":
            s = a[1] if len(a) > 1 else kwd.get("start", ZERO)
            return mk("enumerate", gate(a[0]), gate(s))
        if name == "zip":
            if any(x.op == "v" and all(y.op in ("tuple", "list")
                                       for y in leaves(x)) for x in a):
                return lift(lambda *y: mk("zip", y), *a)
            return mk("zip", tuple(gate(x) for x in a))
        if name == "reversed" and len(a) == 1:
            return lift(lambda p: mk("reversed", p), a[0])
        if name == "list" and not kw:
            if not a:
                return mk("list", ())

            def g(x):
                if x.op in ("list", "flat", "cat"):
                    return x
                if x.op == "tuple":
                    return mk("list", x.args[0])
                if x.op in ("range", "zip", "enumerate", "reversed"):
                    i = mk("idx", self.fresh())
                    d, e = self.domain(x, i)
                    return self.close("flat", d, i, FALSE,
                                      [mk("list", (e,))])
                return mk("call", "list", (x,), ())
            return lift(g, a[0])
        if name == "tuple" and len(a) == 1:
            return lift(lambda x: x if x.op == "tuple" else
                        mk("tuple", x.args[0]) if x.op == "list" else
                        mk("call", "tuple", (x,), ()), a[0])
        if name == "dict" and not (len(a) == 1 and not kw):
            d = None
            if not a:
                d = mk("dict", ())
            elif len(a) == 1 and a[0].op in ("dict", "mut"):
                d = a[0]
            elif len(a) == 1:
                d = mk("call", "dict", (gate(a[0]),), ())
            if d is not None:
                for k, v in kw:
                    if k != "**":
                        d = lift(lambda x: self.store(
                            x, const(k), gate(v)), d)
                for k, v in kw:
                    if k == "**":
                        d = self.dmerge(d, v)
                return d
        if name == "dict" and len(a) == 1 and a[0].op == "dict":
            return a[0]
        if name == "set" and not a:
            return mk("set", ())
        if name == "bool" and len(a) == 1:
            return truth(a[0])
        if name in ("sum", "numpy.sum") and len(a) >= 1 and not kw:
            def g(x):
                if x.op == "call" and x.args[0] in EACH and len(
                        x.args[1]) == 1 and not x.args[2] and \
                        x.args[1][0].op in ("flat", "list"):
                    return g(each(x.args[0], x.args[1][0]))
                if x.op == "flat":
                    body = x.args[2]
                    b2 = body.args[0] if body.op == "gate" else body
                    ls = leaves(b2)
                    if all(l.op == "list" for l in ls):
                        def s(l):
                            r = ZERO
                            for y in l.args[0]:
                                r = add(r, y)
                            return r
                        return self.mksum(x.args[0], x.args[1],
                                          mapleaf(b2, s))
                    if all(l.op in ("list", "flat") for l in ls):
                        return self.mksum(x.args[0], x.args[1],
                                          mapleaf(b2, lambda l: g(l)))
                    return None
                if x.op == "list":
                    r = ZERO
                    for y in x.args[0]:
                        r = add(r, y)
                    return r
                return None
            if len(a) == 1 or name == "sum":
                x = a[0]
                if x.op in ("flat", "list", "call"):
                    r = g(x)
                    if r is not None:
                        if len(a) == 2:
                            r = add(r, a[1])
                        return r
        if name in ("any", "all") and len(a) == 1 and not kw:
            x = a[0]
            if x.op == "flat" and x.args[1].op == "dom":
                body = x.args[2]
                b2 = body.args[0] if body.op == "gate" else body
                if all(l.op == "list" and len(l.args[0]) <= 1
                       for l in leaves(b2)):
                    if name == "any":
                        c = mapleaf(b2, lambda l: truth(l.args[0][0])
                                    if l.args[0] else FALSE)
                        if c is FALSE:
                            return FALSE
                        return atom(mk("exists", x.args[0], x.args[1],
                                       gate(c)))
                    c = mapleaf(b2, lambda l: b_not(truth(l.args[0][0]))
                                if l.args[0] else FALSE)
                    if c is FALSE:
                        return TRUE
                    return b_not(atom(mk("exists", x.args[0], x.args[1],
                                         gate(c))))
            if x.op in ("list", "tuple"):
                return b_or(*x.args[0]) if name == "any" else \
                    b_and(*x.args[0])
        if name == "isinstance" and len(a) == 2:
            cl = a[1]
            cs = cl.args[0] if cl.op in ("tuple", "list") else (cl,)
            r = FALSE
            for c in cs:
                r = b_or(r, lift(lambda x: atom(mk(
                    "call", "isinstance", (x, c), ()))
                    if not (isconst(x) and x is NONE) else FALSE, a[0]))
            return r
        if name == "getattr" and len(a) == 2 and a[1].op == "const":
            return self.getattr(gate(a[0]), a[1].args[0], st)
        if name == "setattr" and len(a) == 3 and a[1].op == "const":
            if a[0] is SELF:
                st.heap[(SELF, a[1].args[0])] = a[2]
                return NONE
        if name in ("min", "max") and len(a) >= 2 and not kw:
            xs = []
            for x in a:
                x = gate(x)
                if x.op == "call" and x.args[0] == name and \
                        len(x.args[1]) > 1:
                    xs.extend(x.args[1])
                else:
                    xs.append(x)
            return mk("call", name, tuple(sorted(set(xs))), ())
        if name == "map" and len(a) == 2:
            x = a[1]
            i = mk("idx", self.fresh())
            d, e = self.domain(gate(x), i)
            v = self.apply(a[0], [e], (), st, n)
            return self.close("flat", d, i, FALSE,
                              [mk("list", (gate(arg(v)),))])
        if name == "numpy.diff" and len(a) == 1 and not kw:
            return sub_(self.getitem(a[0], mk("slice", ONE, NONE, NONE)),
                        self.getitem(a[0], mk("slice", NONE, num(-1), NONE)))
        if name in ("numpy.zeros", "numpy.ones") and len(a) == 1:
            # numpy.full of a float, unless told otherwise
            kd = dict(kw)
            kd.setdefault("dtype", mk("ext", "float"))
            return self.liftcall(
                lambda x, y: mk("call", "numpy.full", tuple(x), y),
                [a[0], ZERO if name == "numpy.zeros" else ONE],
                tuple(sorted(kd.items())))
        if name == "numpy.full" and len(a) == 2 and not kw and (
                a[1].op == "bool" or a[1] in (TRUE, FALSE) or
                a[1].op == "v" and isbool(a[1])):
            kw = (("dtype", mk("ext", "bool")),)
            kwd = dict(kw)
        if name == "numpy.full" and len(a) == 2 and \
                kwd.get("dtype") is mk("ext", "bool"):
            x = flagged(a[1]) if a[1].op == "bool" else a[1]
            a = [a[0], mapleaf(x, lambda x: ONE if x is TRUE else
                               ZERO if x is FALSE else x)]
        if name == "numpy.sum" and len(a) == 1 and not kw and (
                a[0].op == "bool" or a[0].op == "v" and isbool(a[0])):
            name = "numpy.count_nonzero"
        if name == "numpy.append" and len(a) == 2 and not kw:
            return mk("call", "numpy.concatenate",
                      (mk("list", (gate(a[0]), gate(a[1]))),), ())
        if name == "numpy.concatenate" and a and a[0].op == "tuple":
            a = [mk("list", a[0].args[0])] + list(a[1:])
        if name in ("str",) and len(a) == 1:
            return lift(lambda x: x if x.op == "const" and
                        isinstance(x.args[0], str) else
                        mk("fstr", x, ""), a[0])
        if name in ("numpy.dot", "numpy.count_nonzero") and False:
            pass
        if name == "numpy.array" and len(a) == 1 and not kw and \
                a[0].op == "call" and a[0].args[0] == "numpy.array":
            return a[0]
        if name == "copy.copy" or name == "copy.deepcopy":
            return mk("call", "copy", (gate(a[0]),), ())
        if name == "numpy.where" and len(a) == 1 and not kw:
            name = "numpy.nonzero"
        if name == "numpy.flatnonzero" and len(a) == 1 and not kw:
            return self.getitem(self.extcall("numpy.nonzero", a, kw, st, n),
                                ZERO)
        if name == "numpy.copy":
            return mk("call", "copy", (gate(a[0]),), ())
        return self.liftcall(lambda x, y: mk("call", name, tuple(x), y),
                             a, kw)


def flagged(x):
    """A yes/no option computed from scalars, as a choice of constants."""
    f = x.args[0]
    if f.op == "v" and nleaves(f) <= 6 and all(
            c.op == "is" or c.op == "call" and c.args[0] == "isinstance"
            or c.op == "eq" and c.args[1].op == "const" and
            isinstance(c.args[1].args[0], str) for c in atoms_of(f)):
        return f
    return x


def pick(c, a, b):
    """ite(c, a, b); lists of one shape are chosen element by element."""
    if a.op == "list" and b.op == "list" and a.args[0] and \
            len(a.args[0]) == len(b.args[0]):
        return mk("list", tuple(
            x if x is y else gate(ite(c, ungate(x), ungate(y)))
            for x, y in zip(a.args[0], b.args[0])))
    if a.op == "cat" and b.op == "cat" and \
            len(a.args[0]) == len(b.args[0]) and \
            a.args[0][:-1] == b.args[0][:-1]:
        x, y = a.args[0][-1], b.args[0][-1]
        if x.op == "list" and y.op == "list" and \
                len(x.args[0]) == len(y.args[0]):
            return cat(*(a.args[0][:-1] + (pick(c, x, y),)))
    return extremum(c, a, b) or ite(c, a, b)


def detuple(r):
    """Tuples of one length are chosen element by element."""
    if r.op != "v" or nleaves(r) > 8:
        return r
    ls = leaves(r)
    n = {len(x.args[0]) if x.op == "tuple" else None for x in ls}
    if len(n) != 1 or None in n or n == {0}:
        return r
    return mk("tuple", tuple(
        gate(mapleaf(r, lambda x: ungate(x.args[0][i])))
        for i in range(n.pop())))


NUMERIC = {"sym", "attr", "num", "poly", "sub", "call", "mcall", "len", "bv",
           "idx", "carry", "sum"}


def extremum(c, a, b):
    """a if a < b else b  ==  min(a, b)"""
    if c.op != "v" or a.op not in NUMERIC or b.op not in NUMERIC or a is b:
        return None
    t = c.args[0]
    if t.op not in ("lt", "le") or t.args[1].op != "num":
        return None
    if c.args[1] is TRUE and c.args[2] is FALSE:
        pass
    elif c.args[1] is FALSE and c.args[2] is TRUE:
        a, b = b, a
    else:
        return None
    k, q, c0 = tm._split(sub_(a, b))
    if k is None or q is not t.args[0] or -c0 / k != t.args[1].args[0]:
        return None
    xs = []
    name = "min" if k > 0 else "max"
    for x in (a, b):
        if x.op == "call" and x.args[0] == name and len(x.args[1]) > 1:
            xs.extend(x.args[1])
        else:
            xs.append(x)
    return mk("call", name, tuple(sorted(set(xs))), ())


def always_self(fn, p, cls):
    """Every path of the method, called on an object of the class, returns
    its first parameter."""
    if fn._always_self is None:
        fn._always_self = {}
    k = None if cls is None else cls.id
    if k not in fn._always_self:
        fn._always_self[k] = False
        a = fn.node.args.args
        rets = [x for x in _own(fn.node) if isinstance(x, ast.Return)]

        def ok(v):
            if isinstance(v, ast.Name):
                return v.id == a[0].arg
            if isinstance(v, ast.Call) and isinstance(
                    v.func, ast.Attribute) and ok(v.func.value):
                m = p.method(cls, v.func.attr)
                return m is not None and not m.deco and \
                    always_self(m, p, cls)
            return False
        fn._always_self[k] = bool(
            a and rets and cls is not None and
            isinstance(fn.node.body[-1], ast.Return) and
            all(x.value is not None and ok(x.value) for x in rets))
    return fn._always_self[k]


def _own(node):
    """Nodes of a function, nested functions excluded."""
    st = list(node.body)
    while st:
        x = st.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(x))


class Summary:
    failed = False        # the analysis gave up


class _Bind(ast.stmt):
    _fields = ()

    def __init__(self, target, v):
        self.target = target
        self.v = v
        self.lineno = getattr(target, "lineno", 0)


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t


def _plainhash(t, m):
    """Order-insensitive structural hash after replacing leaves."""
    memo = {}

    def h(x):
        if isinstance(x, tuple):
            return hashlib.md5("|".join(
                [h(y) for y in x]).encode()).hexdigest()
        if not isinstance(x, T):
            return str(x)
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x].h if isinstance(m[x].h, str) else str(m[x].h)
        elif x.op == "v":
            # canonical order of the tests depends on the leaves' hashes:
            # use the multiset of root-to-leaf paths instead
            r = "v" + ",".join(sorted(
                h(a) for a in tm.atoms_of(x))) + ";" + ",".join(
                    sorted(h(l) for l in leaves(x)))
        elif x.op == "poly":
            r = "poly" + ",".join(sorted(
                str(abs(c)) + ",".join(sorted(h(y[0]) + str(y[1])
                                              for y in mono))
                for mono, c in x.args[0]))
        elif x.op in ("lt", "le", "eq") and x.args[0].op == "poly":
            # the canonical sign of a comparison depends on the order of
            # its leaves
            r = "cmp" + ",".join(sorted(
                str(abs(c)) + ",".join(sorted(h(y[0]) + str(y[1])
                                              for y in mono))
                for mono, c in x.args[0].args[0] if mono))
        elif x.op in ("fold", "foldat") and len(x.args[2]) > 1:
            r = "fold" + h(x.args[1]) + ",".join(sorted(
                h(a) + h(b) for a, b in zip(x.args[2], x.args[3])))
        elif x.op == "set" or x.op == "call" and \
                x.args[0] in ("min", "max"):
            r = x.op + ",".join(sorted(h(y) for a in x.args
                                       for y in (a if isinstance(a, tuple)
                                                 else (a,))))
        elif not x.args:
            r = x.op
        else:
            r = x.op + "(" + ",".join(h(y) for y in x.args) + ")"
        r = hashlib.md5(r.encode()).hexdigest()
        memo[x] = r
        return r
    return h(t)


def anon(t):
    """Loop-carried values without a closed form lose their local name."""
    cs = collect(t, lambda x: x.op == "carry")
    if not cs:
        return t
    return subst(t, {c: mk("carryx", c.args[1] if c.args[1].startswith(".")
                           else "") for c in cs})


def ungate(t):
    return t.args[0] if t.op in ("gate", "bool") else t


def always_raises(body):
    """Every path through the block ends in a raise."""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If):
        return always_raises(s.body) and always_raises(s.orelse)
    return False


def fmtparts(tmpl, args, kw):
    """'...'.format(...) as a concatenation; None if not understood."""
    import string
    parts = []
    n = 0
    kwd = dict(kw)
    try:
        items = list(string.Formatter().parse(tmpl))
    except ValueError:
        return None
    for lit, f, spec, conv in items:
        if lit:
            parts.append(const(lit))
        if f is None:
            continue
        if conv not in (None, "s"):
            return None
        if f == "":
            if n >= len(args):
                return None
            x = args[n]
            n += 1
        elif f.isdigit():
            if int(f) >= len(args):
                return None
            x = args[int(f)]
        elif f in kwd:
            x = kwd[f]
        else:
            return None
        if "{" in (spec or ""):
            ps = fmtparts(spec, args[n:] if f == "" else args, kw)
            if ps is None or f == "" and "{}" in spec:
                return None
            spec = cat(*ps)
        parts.append(fstr(x, spec or ""))
    return parts


def fstr(x, spec):
    if spec == "" and x.op == "const" and isinstance(x.args[0], str):
        return x
    return mk("fstr", gate(x), spec)


def mapleaf(f, fn):
    memo = {}

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op != "v":
            r = fn(x)
        else:
            a, hi, lo = x.args
            h, l = rec(hi), rec(lo)
            r = ite(atom(a), h, l) if (h.op == "v" or l.op == "v") \
                else vmk(a, h, l)
        memo[x] = r
        return r
    return rec(f)


def _walk_loop(body):
    """Nodes of a loop body excluding nested loops/functions."""
    st = list(body)
    while st:
        x = st.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, (ast.For, ast.While, ast.FunctionDef,
                              ast.Lambda)):
                continue
            st.append(c)


# functions applied to every element
EACH = {"numpy.rint", "numpy.abs", "numpy.exp", "numpy.sqrt", "numpy.floor",
        "numpy.ceil", "numpy.round", "numpy.log", "numpy.square",
        "numpy.sign"}


def each(name, x):
    """An elementwise function of a list."""
    def f(b):
        if b.op == "list":
            return mk("list", tuple(mk("call", name, (y,), ())
                                    for y in b.args[0]))
        if b.op == "flat":
            return each(name, b)
        return mk("call", name, (b,), ())
    if x.op == "list":
        return f(x)
    return mk(x.op, *(x.args[:2] + (gate(mapleaf(ungate(x.args[2]), f)),) +
                      x.args[3:]))


def local_aliases(node):
    """Local names that stand for one attribute or item throughout a function:
    {name: path}."""
    stores, src = {}, {}
    paths = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            paths.add(ast.unparse(n))
        elif isinstance(n, ast.arg):
            stores[n.arg] = stores.get(n.arg, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and isinstance(
                    n.value, (ast.Attribute, ast.Subscript)):
            src[n.targets[0].id] = n.value
    out = {}
    for name, e in src.items():
        if stores.get(name) != 1:
            continue
        x, ok = e, True
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            if isinstance(x, ast.Subscript) and not isinstance(
                    x.slice, (ast.Name, ast.Constant)) or \
                    ast.unparse(x) in paths:
                ok = False
            x = x.value
        if ok and isinstance(x, ast.Name) and x.id != name and \
                stores.get(x.id, 0) <= 1 and (
                    x.id == "self" or isinstance(e, ast.Subscript)):
            out[name] = e
    return out


def assigned_names(body):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            r = t
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name) and r.id != "self":
                if isinstance(t, ast.Subscript):
                    out.add(r.id)
    for s in body:
        if isinstance(s, _Bind):
            tgt(s.target)
            continue
        for x in ast.walk(s):
            if isinstance(x, _Bind):
                tgt(x.target)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tgt(x.target)
            elif isinstance(x, (ast.For,)):
                tgt(x.target)
            elif isinstance(x, ast.With):
                for i in x.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
            elif isinstance(x, ast.NamedExpr):
                tgt(x.target)
            elif isinstance(x, ast.FunctionDef):
                out.add(x.name)
            elif isinstance(x, ast.Call) and \
                    isinstance(x.func, ast.Attribute) and \
                    x.func.attr in MUTATORS:
                r = x.func.value
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                if isinstance(r, ast.Name) and r.id != "self":
                    out.add(r.id)
    return out
