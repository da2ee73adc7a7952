"""Comparison of an implementation summary with its reference summary."""
import re

from .terms import *
from . import terms as tm
from .evalr import mapleaf, simp, SELF

REWRITE_OPS = {"flat", "mapst", "fold", "foldat", "first", "until", "exists",
               "lam", "unknown", "callv", "mut", "bigmul",
               "excraised", "lenslice", "loopover"}
REWRITE_CALLS = {
    "numpy.dot", "numpy.where", "zip", "map", "filter", "numpy.array",
    "numpy.concatenate", "numpy.vstack", "numpy.hstack",
    "numpy.column_stack", "numpy.fromiter", "numpy.vectorize", "list",
    "tuple", "dict", "numpy.zeros", "numpy.ones", "numpy.empty",
    "numpy.full", "numpy.sum", "sum", "numpy.einsum", "numpy.matmul",
    "numpy.outer", "numpy.select", "numpy.piecewise", "numpy.vdot",
    "numpy.inner", "numpy.flatnonzero", "numpy.nonzero", "numpy.in1d",
    "numpy.isin", "numpy.count_nonzero", "numpy.add.reduce",
    "numpy.transpose", "set", "frozenset", "numpy.stack", "numpy.r_",
    "copy", "numpy.repeat", "numpy.tile", "numpy.put", "numpy.take",
    "numpy.compress", "numpy.add.at", "numpy.ix_", "numpy.full_like",
    "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "next",
    "iter", "numpy.ravel", "numpy.atleast_1d", "numpy.squeeze", "type",
    "vars", "numpy.nditer", "numpy.ndenumerate", "divmod", "numpy.extract",
    "numpy.choose", "numpy.logical_and.reduce", "numpy.logical_or.reduce"}
REWRITE_PREFIX = ("itertools.", "functools.", "operator.", "collections.",
                  "more_itertools.", "dataclasses.", "typing.", "contextlib.")
REWRITE_METHODS = {"dot", "tolist", "to_numpy", "transpose", "items", "get",
                   "squeeze", "flatten", "copy", "where", "mask", "apply",
                   "map", "assign", "take", "nonzero", "setdefault"}


REWRITE_WORDS = {n.split(".")[-1] for n in REWRITE_CALLS} | \
    REWRITE_METHODS | {"for", "while", "lambda", "def", "reduce", "range",
                       "enumerate", "any", "all", "max", "min", "sorted",
                       "values", "sum", "len", "append", "extend"}


def vocab(t):
    """Operator kinds, call names and method names occurring in a term."""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "call":
            out.add("call:" + x.args[0])
        elif x.op == "mcall":
            out.add("meth:" + x.args[1])
        elif x.op == "ext":
            out.add("ext:" + x.args[0])
        elif x.op == "new":
            out.add("new:" + x.args[0])
        elif x.op == "bin":
            out.add("op:" + x.args[0])
        else:
            out.add("op:" + x.op)
            if x.op == "len" and x.args[0].op == "sub" and \
                    x.args[0].args[1].op == "slice":
                out.add("op:lenslice")
        st.extend(x.args)
    return out


def rewriteish(v, known):
    k, n = v.split(":", 1)
    if k == "op":
        return n in REWRITE_OPS
    if k == "call":
        if n in REWRITE_CALLS or n.startswith(REWRITE_PREFIX):
            return True
        if ":" in n and n not in known:      # unresolved new package callable
            return True
        return False
    if k == "ext":
        return n.startswith(REWRITE_PREFIX)
    if k == "meth":
        return n in REWRITE_METHODS
    if k == "new":
        return n not in known
    return False


class Pair(tuple):
    """A differing (expected, found) pair; ctx: names of the enclosing calls
    and keywords, outermost first."""
    ctx = ()


def _pair(a, b, path):
    p = Pair((a, b))
    p.ctx = path
    return p


def overelements(s, m):
    a, b = s.args[1], m.args[1]
    if a is b or a.op != "dom" or b.op != "dom" or a.args[0].op in (
            "poly", "num") or b.args[0].op != "len":
        return False
    x = b.args[0].args[0]

    def uses(t):
        return any(tm.contains_term(p, lambda y: y.op == "sub" and
                                    y.args[0] is x and y.args[1].op in
                                    ("bv", "idx"))
                   for p in flatargs(t.args[2:]))
    return uses(s) and uses(m)


def flatargs(t):
    for x in t:
        if isinstance(x, tuple):
            yield from flatargs(x)
        elif isinstance(x, T):
            yield x


def tdiff(s, m, path=(), out=None, depth=0):
    """Minimal differing sub-term pairs."""
    if out is None:
        out = []
    if s is m or len(out) > 6:
        return out
    if isinstance(s, tuple) and isinstance(m, tuple):
        if len(s) == len(m):
            if len(s) == 2 and isinstance(s[0], str) and s[0] == m[0]:
                path = path + (s[0],)
            for a, b in zip(s, m):
                if a is not b and a != b:
                    tdiff(a, b, path, out, depth + 1)
            return out
        out.append(_pair(s, m, path))
        return out
    for x, y in ((s, m), (m, s)):
        if isinstance(x, T) and isinstance(y, T) and x.op == "call" and \
                x.args[0] == y.op and y.op in ("list", "tuple") and \
                len(x.args[1]) == 1 and len(y.args[0]) > 1 and all(
                    z.op == "sub" and z.args[0] is x.args[1][0] and
                    z.args[1] is num(i) for i, z in enumerate(y.args[0])):
            # a sequence and its elements, presumably all of them
            out.append(_pair(s, mk("loopover", m), path))
            return out
    a, b = memberof(s), memberof(m)
    if a and b and s.op != m.op and (a[0] is b[0] or a[1] is b[1]) and a != b:
        # the same membership test by another library
        for x, y in zip(a, b):
            tdiff(x, y, path, out, depth + 1)
        out.append(_pair(s, m, path))
        return out
    if isinstance(s, T) and isinstance(m, T) and s.op == m.op and \
            depth < 60 and len(s.args) == len(m.args):
        if s.op == "v":
            if s.args[0] is m.args[0] or all(
                    isinstance(y, T) and y.op == "loopover" for _, y in
                    tdiff(s.args[0], m.args[0], path, [], depth + 1)):
                tdiff(s.args[0], m.args[0], path, out, depth + 1)
                tdiff(s.args[1], m.args[1], path, out, depth + 1)
                tdiff(s.args[2], m.args[2], path, out, depth + 1)
                return out
            out.append(_pair(s, m, path))
            return out
        if s.op in ("sym", "num", "const", "ext", "func", "cls", "method",
                    "mod") or s.op == "attr" and s.args[1] != m.args[1]:
            out.append(_pair(s, m, path))
            return out
        if s.op == "poly":
            ds, dm = dict(s.args[0]), dict(m.args[0])
            only_s = {k: v for k, v in ds.items() if dm.get(k) != v}
            only_m = {k: v for k, v in dm.items() if ds.get(k) != v}
            if len(only_s) == 1 and len(only_m) == 1:
                (k1, c1), = only_s.items()
                (k2, c2), = only_m.items()
                if c1 == c2 and len(k1) == len(k2):
                    r1 = [x for x in k1 if x not in k2]
                    r2 = [x for x in k2 if x not in k1]
                    if len(r1) == 1 and len(r2) == 1 and r1[0][1] == r2[0][1]:
                        return tdiff(r1[0][0], r2[0][0], path, out,
                                     depth + 1)
            out.append(_pair(tm._frompoly(only_s), tm._frompoly(only_m),
                             path))
            return out
        if s.op in ("call", "new"):
            if s.args[0] != m.args[0]:
                out.append(_pair(s, m, path))
                return out
            path = path + (s.args[0],)
        elif s.op == "mcall":
            if s.args[1] != m.args[1]:
                out.append(_pair(s, m, path))
                return out
            path = path + ("." + s.args[1],)
        elif s.op in tm.BINDERS and len(s.args) > 2 and \
                overelements(s, m):
            # a loop over a sequence whose elements the loop over another
            # one of (presumably) the same length used
            out.append(_pair(s.args[1], mk("loopover", m.args[1]), path))
            tdiff(s.args[2:], m.args[2:], path, out, depth + 1)
            return out
        for a, b in zip(s.args, m.args):
            if a is not b and a != b:
                tdiff(a, b, path, out, depth + 1)
        return out
    out.append(_pair(s, m, path))
    return out


def memberof(t):
    """(values, members) of an element-wise membership test."""
    if not isinstance(t, T):
        return None
    if t.op == "attr" and t.args[1] == "values":
        t = t.args[0]
    if t.op == "mcall" and t.args[1] == "isin" and len(t.args[2]) == 1:
        x = t.args[0]
        if x.op == "call" and x.args[0] == "pandas.Series" and \
                len(x.args[1]) == 1:
            x = x.args[1][0]
        return x, t.args[2][0]
    if t.op == "call" and t.args[0] in ("numpy.isin", "numpy.in1d") and \
            len(t.args[1]) == 2:
        return t.args[1]
    return None


def vocab_cached(t, _c={}):
    r = _c.get(t)
    if r is None:
        r = vocab(t)
        _c[t] = r
    return r


class Verdict:
    def __init__(self, status, what, detail="", line=0, pairs=()):
        self.status = status      # ok / violation / undecided / gone
        self.what = what
        self.detail = detail
        self.line = line
        self.pairs = list(pairs)  # differing (expected, found) terms
        self.hard = False         # evidence that no rewriting can explain


def multifold(t):
    return bool(collect(t, lambda y: y.op in ("fold", "foldat") and
                        len(y.args[2]) > 1))


def weak(t):
    """Hash of a term up to the numbering of loop-carried variables."""
    from .evalr import _plainhash
    m = {y: mk("bvx") for y in collect(t, lambda y: y.op == "bv")}
    return _plainhash(t, m)


def inputs(t):
    """Inputs a value depends on, other than through sizes and types."""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("len", "dom"):
            continue
        if x.op == "attr" and x.args[1] in ("shape", "size", "dtype",
                                            "ndim"):
            continue
        if x.op == "call" and x.args[0] in ("isinstance", "type", "numpy.empty",
                                            "numpy.size", "numpy.shape"):
            continue
        if x.op == "sym" and x is not SELF:
            out.add(x)
        elif x.op == "attr" and x.args[0] is SELF:
            out.add(x)
        st.extend(x.args)
    return out


def other_inputs(d):
    """Some aligned pair of sub-values depends on different inputs: no
    rewriting of one into the other is possible."""
    for a, b in d:
        if not isinstance(a, T) or not isinstance(b, T):
            continue
        if a.op in ("bv", "ix") or b.op in ("bv", "ix"):
            continue
        if inputs(a) - inputs(b) and not tm.contains_term(
                b, lambda y: y.op == "len" and y.args[0].op == "sub" and
                y.args[0].args[1].op == "slice" and
                y.args[0].args[1].args[1] is a):
            return True
    return False


OPTIONS = {}        # option name -> constants it is compared with


def keyerr_free(k, path, s):
    """No value the option is compared with reaches the missing key."""
    if not any(a.op == "eq" and a.args[0] is k and v for a, v in path) and \
            any(a.op == "eq" and a.args[0] is k for a, v in path) and \
            not collect(s, lambda y: y.op == "eq" and y.args[0] is k):
        return True        # the reference distinguishes no other value
    n = k.args[-1] if k.op == "attr" else k.args[0].lstrip("$") \
        if k.op == "sym" else None
    vals = OPTIONS.get(n, set())
    seen = {a.args[1].args[0] for a, v in path if a.op == "eq" and
            a.args[0] is k and not v and a.args[1].op == "const"}
    return bool(vals) and vals <= seen


def same_but_keyerr(s, m, memo, path=()):
    if s is m or isinstance(s, T) and s.op == "unbound":
        return True
    if not isinstance(s, T) or not isinstance(m, T):
        if isinstance(s, tuple) and isinstance(m, tuple):
            return len(s) == len(m) and all(
                same_but_keyerr(a, b, memo) for a, b in zip(s, m))
        return s == m
    if s.op == "v" or m.op == "v":
        if len(path) > 40 or len(memo) > 20000:
            return False
        key = (s, m, tuple(p for p in path if p[0].op == "eq"))
        if key in memo:
            return memo[key]
        top = min((x.args[0] for x in (s, m) if x.op == "v"),
                  key=lambda a: a.oh)
        r = all(same_but_keyerr(tm.restrict(s, top, v),
                                tm.restrict(m, top, v), memo,
                                path + ((top, v),)) for v in (True, False))
        memo[key] = r
        return r
    if m.op == "keyerr":
        return keyerr_free(m.args[0], path, s)
    return s.op == m.op and s.op not in ("sym", "const", "num") and \
        len(s.args) == len(m.args) and all(
            same_but_keyerr(a, b, memo) for a, b in zip(s.args, m.args))


ASSEMBLERS = {"call:numpy.column_stack", "call:numpy.vstack",
              "call:numpy.hstack", "call:numpy.concatenate",
              "call:numpy.stack", "ext:numpy.c_", "ext:numpy.r_"}


def firm(d):
    """A differing pair outside the loops depends on different inputs."""
    return other_inputs([(a, b) for a, b in d if all(
        isinstance(x, T) and not tm.contains_term(
            x, lambda y: y.op in ("bv", "ix", "fold", "foldat", "mapst"))
        for x in (a, b))])


LOOP_OPS = {"fold", "foldat", "mapst", "flat", "last", "first"}

SAME_VALUE = {"numpy.array", "numpy.asarray", "list", "tuple", "copy",
              "dict", "numpy.ravel", "numpy.atleast_1d", "numpy.squeeze",
              "numpy.flatnonzero", "numpy.nonzero", "numpy.where", "set",
              "frozenset", "pandas.Series", "numpy.unique", "sorted",
              "bool", "float", "int", "numpy.argwhere", "numpy.asanyarray",
              "numpy.ascontiguousarray", "iter", "zip", "numpy.transpose"}


def wrapped(d):
    """Some value is replaced by a computation on that very value that does
    not merely convert or copy it."""
    for a, b in d:
        if not isinstance(a, T) or not isinstance(b, T):
            continue
        if a.op in ("bv", "ix", "v", "const", "num", "bool") or \
                not inputs(a) or inputs(a) != inputs(b):
            continue
        if not tm.contains_term(b, lambda y: y is a):
            continue
        x = b
        ok = False
        while x is not a:
            if x.op == "call" and x.args[0] in SAME_VALUE and x.args[1]:
                x = x.args[1][0]
            elif x.op == "mcall" and x.args[1] in REWRITE_METHODS:
                x = x.args[0]
            elif x.op == "attr" and x.args[1] in ("values", "T"):
                x = x.args[0]
            elif x.op == "sub" and x.args[0].op == "call" and \
                    x.args[0].args[0] in ("numpy.nonzero", "numpy.where"):
                x = x.args[0]
            else:
                ok = True
                break
        if ok:
            return True
    return False


CONVERTED = {"numpy.array", "numpy.asarray", "numpy.asanyarray", "list",
             "tuple", "copy", "numpy.ravel", "numpy.atleast_1d",
             "pandas.Series", "numpy.ascontiguousarray"}


def unconverted(t):
    while True:
        if t.op == "call" and t.args[0] in CONVERTED and t.args[1]:
            t = t.args[1][0]
        elif t.op == "mcall" and t.args[1] in ("tolist", "to_numpy", "copy",
                                               "flatten"):
            t = t.args[0]
        elif t.op == "attr" and t.args[1] == "values":
            t = t.args[0]
        else:
            return t


def reloop(a, b):
    """Loops of one kind replaced by loops of another kind."""
    la = collect(a, lambda y: y.op in LOOP_OPS)
    lb = collect(b, lambda y: y.op in LOOP_OPS)
    ka = {y.op for y in la if y not in lb}
    kb = {y.op for y in lb if y not in la}
    if ka and kb and ka != kb:
        return {"loop " + o for o in ka ^ kb}
    return set()


def filtering(s, m):
    """The positions where a mask holds replaced by a filter over the mask,
    or the other way round."""
    def idx(t):
        return set(collect(t, lambda y: y.op == "call" and
                           y.args[0] == "numpy.nonzero"))

    def flt(t):
        return set(collect(t, lambda y: y.op == "flat" and any(
            x.op == "list" and not x.args[0]
            for x in tm.leaves(_ungated(y.args[2])))))
    for x, y in ((s, m), (m, s)):
        if idx(x) - idx(y) and flt(y) - flt(x):
            return {"filter for positions"}
    return set()


def _ungated(t):
    return t.args[0] if t.op == "gate" else t


def judge(s, m, known, what, line=0):
    """Compare two terms."""
    if s is m:
        return Verdict("ok", what)
    mf = multifold(s) and multifold(m)
    if mf and weak(s) == weak(m):
        return Verdict("ok", what)
    if collect(m, lambda y: y.op == "keyerr") and \
            not collect(s, lambda y: y.op == "keyerr") or \
            collect(s, lambda y: y.op == "unbound"):
        # a dictionary subscripted by an option: keys the option cannot have
        if same_but_keyerr(s, m, {}):
            return Verdict("ok", what)
    d = tdiff(s, m)
    if mf and not firm(d):
        return Verdict("undecided", what, "loop with several variables "
                       "without a closed form", line)
    vs = vocab_cached(s)
    novel = set()
    for a, b in d:
        if isinstance(a, T) and isinstance(b, T):
            x = unconverted(b)
            if x is not b and unconverted(a) is not x and inputs(x) and \
                    tm.contains_term(a, lambda y: y is x):
                b = x        # the operand of what was computed, converted
        vb = vocab(b) if isinstance(b, T) or isinstance(b, tuple) else set()
        novel |= {v for v in vb - vs if rewriteish(v, known)}
        if isinstance(a, T):
            novel |= ASSEMBLERS & vocab_cached(a) - vocab_cached(m)
            if isinstance(b, T):
                novel |= reloop(a, b)
    novel |= filtering(s, m)
    txt = "; ".join("expected %s, found %s" % (
        _short(a), _short(b)) for a, b in d[:3])
    if novel and not other_inputs(d) and not wrapped(d):
        return Verdict("undecided", what, "unrecognised rewriting (%s): %s"
                       % (", ".join(sorted(novel)[:4]), txt), line, d)
    v = Verdict("violation", what, txt, line, d)
    v.hard = bool(inputs(s) - inputs(m))
    return v


def lost_call(t, vocab_found):
    """The call an effect makes does not occur any more."""
    while t.op == "eff":
        t = t.args[3]
    n = {"call": "call:", "new": "new:"}.get(t.op)
    if n is not None:
        return n + t.args[0] not in vocab_found
    if t.op == "mcall":
        return "meth:" + t.args[1] not in vocab_found
    return False


def _short(t, n=420):
    s = show(t, 0, 9) if isinstance(t, (T, tuple)) else str(t)
    return s if len(s) <= n else s[:n] + "…"


LOGNAMES = ("logger", "_logger", "logging")


def ignorable(e):
    t = e.term
    while t.op == "eff":
        t = t.args[3]
    s = t
    if t.op == "mcall":
        b = t.args[0]
        nm = show(b, 0, 3).lower()
        if "logger" in nm or "logging" in nm:
            return True
        if t.args[1] in ("info", "debug", "warning", "error", "critical",
                         "close") and "log" in nm:
            return True
    if t.op == "call":
        n = t.args[0]
        if n in ("print", "warnings.warn") or n.startswith("logging.") or \
                n.startswith("time.") or n.startswith("gc."):
            return True
    if t.op == "v":
        return False
    return False


def split_effects(log, kinds=("call", "setattr", "store", "del"),
                  keep=None):
    """term -> guard, with conditional terms split per leaf."""
    out = {}
    lines = {}

    def put(t, g, line, chain=()):
        """Guards are pushed into the innermost quantifier."""
        if g is FALSE or t.op == "unbound":
            return
        if t.op == "v":
            for l in leaves(t):
                c = mapleaf(t, lambda x: TRUE if x is l else FALSE)
                put(l, b_and(g, c), line, chain)
            return
        if t.op == "gate":
            put(t.args[0], g, line, chain)
            return
        if t.op == "setattr" and t.args[2].op == "v":
            t2 = tm.rebuild(t.op, t.args)
            if t2.op == "v":
                put(t2, g, line, chain)
                return
        if t.op == "eff":
            lv, d, ig, inner = t.args
            put(inner, b_and(g, tm.truth(ig)), line, chain + ((lv, d),))
            return
        chain = list(chain)
        for j in range(len(chain) - 1):
            # for i in range(n - 1): for j in range(i + 1)
            #   ==  for i in range(n): for j in range(i), one higher
            lv, d = chain[j]
            bv = mk("bv", lv)
            e = chain[j + 1][1]
            if d.op == "dom" and e.op == "dom" and \
                    e.args[0] is tm.add(bv, tm.ONE):
                m = {bv: tm.add(bv, tm.num(-1))}
                chain[j] = (lv, mk("dom", tm.add(d.args[0], tm.ONE)))
                chain[j + 1:] = [(l, tm.subst(x, m))
                                 for l, x in chain[j + 1:]]
                t = tm.subst(t, m)
                g = tm.subst(g, m)
        for lv, d in reversed(chain):
            t = mk("eff", lv, d, TRUE, t)
        out[t] = b_or(out[t], g) if t in out else g
        lines.setdefault(t, line)
    for e in log:
        if e.kind not in kinds:
            continue
        if keep(e) if keep is not None else not ignorable(e):
            put(e.term, e.guard, e.line)
    return out, lines


def compare_effects(ref, imp, known, kinds=("call", "setattr", "store",
                                            "del"), keep=None):
    a, _ = split_effects(ref.log, kinds, keep)
    b, lines = split_effects(imp.log, kinds, keep)
    res = []
    missing = [t for t in a if t not in b]
    extra = [t for t in b if t not in a]
    mf = any(multifold(t) for t in missing) and any(
        multifold(t) for t in extra)
    if missing and extra and mf:
        ws = {}
        for t in missing:
            ws.setdefault(weak(t), []).append(t)
        for u in list(extra):
            l = ws.get(weak(u))
            if l:
                missing.remove(l.pop())
                extra.remove(u)
    vs = set()
    for t in a:
        vs |= vocab_cached(t)
    novel = set()
    for t in extra:
        novel |= {v for v in vocab_cached(t) - vs if rewriteish(v, known)}
    if extra:
        vi = set()
        for t in b:
            vi |= vocab_cached(t)
        for t in missing:
            novel |= ASSEMBLERS & vocab_cached(t) - vi
    for t in a:
        if t in b and a[t] is not b[t]:
            v = judge(a[t], b[t], known, "condition of effect %s"
                      % _short(t, 160), lines.get(t, 0))
            if v.status != "ok":
                res.append(v)
    st = "undecided" if novel or mf else "violation"
    found = set()
    allin = set()
    for t in b:
        found |= vocab_cached(t)
        allin |= inputs(t)
    found |= vocab_cached(imp.ret)
    for t in imp.heap.values():
        found |= vocab_cached(t)
    # pair missing with the closest extra to make the report readable
    for t in missing:
        best = None
        for u in extra:
            d = tdiff(t, u)
            sc = sum(1 for _ in d)
            if u.op == t.op and (best is None or sc < best[0]):
                best = (sc, u, d)
        if best:
            extra.remove(best[1])
            txt = "; ".join("expected %s, found %s" % (_short(x), _short(y))
                            for x, y in best[2][:3])
            s1 = st
            if novel and not mf and (other_inputs(best[2]) or
                                     wrapped(best[2])):
                s1 = "violation"
            if mf and firm(best[2]):
                s1 = "violation"
            if best[2] and all(isinstance(y, T) and y.op == "loopover"
                               for _, y in best[2]):
                s1 = "undecided"
            v = Verdict(s1, "effect %s" % _short(t, 200), txt,
                        lines.get(best[1], 0), best[2])
            v.hard = s1 == "violation" and bool(inputs(t) - allin)
            res.append(v)
        else:
            v = Verdict(st, "missing effect %s" % _short(t, 300), "",
                        0, [(t, ())])
            v.hard = lost_call(t, found)
            res.append(v)
    for u in extra:
        if simple_benign(u):
            continue
        res.append(Verdict(st, "unexpected effect %s" % _short(u, 300), "",
                           lines.get(u, 0), [((), u)]))
    n = len(a)
    return n, res


def simple_benign(t):
    return False


# ---------------------------------------------------------------- raises

def raise_list(summ, exclude=()):
    out = []
    for e in summ.log:
        if e.kind != "raise":
            continue
        g, t = e.guard, e.term
        if t.op == "eff":
            # exists i in dom: guard
            lv, d, ig, inner = t.args
            c = tm.truth(ig)
            if c is FALSE:
                continue
            g = b_and(g, atom(mk("exists", lv, d, gate(c))))
        if g is not FALSE:
            out.append((g, e.line))
    return out


def support(g):
    """Input symbols a guard depends on."""
    def leafsym(x):
        return (x.op == "sym" and x is not SELF) or \
            (x.op == "attr" and x.args[0] is SELF)
    out = set()
    for a in tm.atoms_of(g):
        for x in collect(a, leafsym):
            out.add(x)
    return out


COUNTS = re.compile(r"_?n_[a-z_]+$")


def integral(f):
    """Comparisons of a value where it is known to be a whole number, with
    whole numbers."""
    for t in sorted({a for a in tm.atoms_of(f) if a.op == "call" and
                     a.args[0] == "isinstance" and
                     a.args[1][1].op == "ext" and a.args[1][1].args[0] in
                     ("numbers.Integral", "int")}):
        x = t.args[1][0]
        m = {x: mk("len", mk("whole", x))}
        for y in collect(f, lambda y: y.op == "attr" and
                         COUNTS.match(y.args[1]) or y.op == "sym" and
                         COUNTS.match(y.args[0].lstrip("$"))):
            m[y] = mk("len", mk("whole", y))
        hi = tm.restrict(f, t, True)
        # whole numbers of any sign: shifted comparisons only
        ren = {}
        for a in tm.atoms_of(hi):
            if a.op == "lt" and a.args[1].op == "num" and \
                    a.args[1].args[0].denominator == 1 and \
                    tm._integer(tm.subst(a.args[0], m)):
                ren[a] = tm.atom(mk("le", a.args[0], tm.num(
                    a.args[1].args[0] - 1)))
        if ren:
            hi = tm.subst(hi, ren)
            f = tm.ite(atom(t), hi, tm.restrict(f, t, False))
    return f


def compare_raises(ref, imp, known):
    ra, rb = raise_list(ref), raise_list(imp)
    # union-find over support symbols
    par = {}

    def find(x):
        par.setdefault(x, x)
        while par[x] is not x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    items = []
    for side, l in (("r", ra), ("i", rb)):
        for g, line in l:
            ats = tuple(tm.atoms_of(g))
            key = ats[0] if ats else TRUE
            for x in ats:
                r1, r2 = find(key), find(x)
                if r1 is not r2:
                    par[r1] = r2
            # atoms about the same single option are grouped
            for x in ats:
                gk = tm._group(x)
                if gk is not None:
                    r1, r2 = find(x), find(gk)
                    if r1 is not r2:
                        par[r1] = r2
            items.append((side, g, line, key))
    comp = {}
    for side, g, line, key in items:
        comp.setdefault(find(key), []).append((side, g, line))
    res = []
    n = 0
    for root, l in comp.items():
        a = FALSE
        b = FALSE
        n += 1
        la = [g for s, g, _ in l if s == "r"]
        lb = [g for s, g, _ in l if s == "i"]
        line = max([ln for s, _, ln in l if s == "i"] + [0])
        if set(la) == set(lb):
            continue
        for g in la:
            a = b_or(a, g)
        for g in lb:
            b = b_or(b, g)
        if a is b:
            continue
        a, b = integral(a), integral(b)
        if a is b:
            continue
        v = judge(a, b, known, "rejection condition on %s" % ", ".join(
            sorted(show(x) for x in (support(a) | support(b)))[:4]), line)
        v.hard = v.hard or b is FALSE
        # a rejection for each element, of restated elements
        v.gone = b is FALSE and all(any(
            y.op == "exists" for y in tm.atoms_of(x)) for x in la)
        v.new = a is FALSE and any(any(
            y.op == "exists" for y in tm.atoms_of(x)) for x in lb)
        res.append(v)
    if any(v.new for v in res):
        for v in res:
            if v.gone and v.status == "violation":
                v.status, v.hard = "undecided", False
    return n, res
