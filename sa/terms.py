"""Canonical value terms (hash-consed), polynomials and decision diagrams.

Every value computed by the analysed program is mapped to a term.  Two
syntactically different computations that differ only by naming, statement
order, commutativity/associativity of arithmetic, De Morgan, if/else
orientation, loop-vs-comprehension or helper extraction get the *same* term.

Conditional values are multi-terminal binary decision diagrams (op 'v')
over canonical atoms; booleans are the special case with TRUE/FALSE leaves.
"""
import hashlib
import sys
from fractions import Fraction

sys.setrecursionlimit(200000)

_table = {}


class T:
    __slots__ = ("op", "args", "h", "oh", "bh", "_sz", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.h < o.h


def _dig(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        m = hashlib.blake2b(digest_size=12)
        m.update(b"(")
        for y in x:
            m.update(_dig(y))
        m.update(b")")
        return m.digest()
    return (type(x).__name__ + ":" + repr(x)).encode()


def _odig(x):
    """Digest up to the names of loop indices (orders diagram tests)."""
    if isinstance(x, T):
        return x.oh[0]
    if isinstance(x, tuple):
        m = hashlib.blake2b(digest_size=12)
        m.update(b"(")
        for y in x:
            m.update(_odig(y))
        m.update(b")")
        return m.digest()
    return (type(x).__name__ + ":" + repr(x)).encode()


def _bh(x):
    if isinstance(x, T):
        return x.bh
    if isinstance(x, tuple):
        r = 0
        for y in x:
            b = _bh(y)
            if b > r:
                r = b
        return r
    return 0


BINDERS = {"flat", "sum", "exists", "first", "mapst", "eff", "fold", "until",
           "lam", "prod", "foldat"}


class TooLarge(Exception):
    """The terms of one function grow beyond any use."""


class Limit:
    made = 0
    top = 0          # number of terms after which TooLarge is raised
    room = 1500000   # terms one summary or comparison may build


def mk(op, *args):
    Limit.made += 1
    if Limit.made > Limit.top > 0:
        raise TooLarge()
    key = (op,) + args
    # distinguish True/1 and Fraction/int
    if op == "const":
        key = (op, type(args[0]).__name__, args[0])
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    m = hashlib.blake2b(digest_size=12)
    m.update(op.encode())
    for a in args:
        m.update(b"|")
        m.update(_dig(a))
    t.h = m.digest()
    if op in ("bv", "idx"):
        t.oh = (b"idx", t.h)
    else:
        m = hashlib.blake2b(digest_size=12)
        m.update(op.encode())
        for a in args:
            m.update(b"|")
            m.update(_odig(a))
        t.oh = (m.digest(), t.h)
    b = 0
    for a in args:
        c = _bh(a)
        if c > b:
            b = c
    if op == "bv":
        b = 0
    if op in BINDERS:
        b = max(b, args[0])
    t.bh = b
    t._sz = None
    _table[key] = t
    return t


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) \
            or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, int):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", repr(v))
        return num(Fraction(repr(v)))
    return mk("const", repr(v))


_nums = {}


def num(v):
    f = Fraction(v)
    t = _nums.get(f)
    if t is None:
        t = mk("num", f)
        _nums[f] = t
    return t


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = num(0)
ONE = num(1)


def isconst(t):
    return t.op in ("const", "num")


# --------------------------------------------------------------------------
# decision diagrams

_ite_memo = {}
_restrict_memo = {}


def _group(a):
    """Theory key of an atom: atoms with equal keys may imply each other."""
    if a.op == "eq" and (isconst(a.args[1]) or a.args[1].op == "ext"):
        return a.args[0]
    if a.op in ("lt", "le"):
        return a.args[0]
    if a.op == "is" and a.args[1] is NONE:
        return a.args[0]
    if a.op == "truth":
        return a.args[0]
    if a.op == "call" and a.args[0] == "isinstance" and a.args[1]:
        return a.args[1][0]
    return None


def _implied(a, val, b):
    """Truth of atom b given atom a has truth val (None = unknown)."""
    if a is b:
        return val
    ga = _group(a)
    if ga is None or ga is not _group(b):
        return None
    ao, bo = a.op, b.op
    if ao in ("eq", "lt", "le") and bo in ("eq", "lt", "le") and \
            a.args[1].op == "num" and b.args[1].op == "num":
        c, d = a.args[1].args[0], b.args[1].args[0]
        if ao == "eq":
            if val:
                if bo == "eq":
                    return c == d
                if bo == "lt":
                    return c < d
                return c <= d
            return None
        if val:   # q < c or q <= c
            if bo == "eq":
                if d > c or (d == c and ao == "lt"):
                    return False
                return None
            if bo == "lt":
                if d > c or (d == c and ao == "lt"):
                    return True
                return None
            if d >= c:
                return True
            return None
        # q >= c (ao lt) or q > c (ao le)
        if bo == "eq":
            if d < c or (d == c and ao == "le"):
                return False
            return None
        if bo == "lt":
            if d <= c:
                return False
            return None
        if d < c or (d == c and ao == "le"):
            return False
        return None
    if ao == "eq" and a.args[1].op == "ext" or \
            bo == "eq" and b.args[1].op == "ext":
        # two members of one enumeration differ
        if ao == bo and val and b.args[1].op == "ext" and \
                a.args[1].op == "ext" and a.args[1] is not b.args[1] and \
                a.args[1].args[0].rpartition(".")[0] == \
                b.args[1].args[0].rpartition(".")[0]:
            return False
        return None
    if ao == "eq" and val:
        if bo == "eq":
            return False if a.args[1] is not b.args[1] else True
        if bo == "is":
            return False
        if bo == "truth":
            k = a.args[1]
            return bool(k.args[0])
        if bo == "call":
            return None
    if ao == "is":
        if val:
            if bo in ("eq",):
                return False
            if bo == "truth":
                return False
            if bo == "call":
                return False
    if ao == "truth" and val:
        if bo == "is":
            return False
        if bo == "eq" and not b.args[1].args[0]:
            return False
    if ao == "call" and val:
        if bo == "is":
            return False
    if ao == "truth" and not val:
        if bo == "eq" and b.args[1].args[0]:
            return False
    return None


def restrict(f, a, val):
    if f.op != "v":
        return f
    key = (f, a, val)
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    b, hi, lo = f.args
    k = _implied(a, val, b)
    if k is True:
        r = restrict(hi, a, val)
    elif k is False:
        r = restrict(lo, a, val)
    else:
        h2, l2 = restrict(hi, a, val), restrict(lo, a, val)
        r = f if (h2 is hi and l2 is lo) else _mkraw(b, h2, l2)
    _restrict_memo[key] = r
    return r


def _mkraw(a, hi, lo):
    if hi is lo:
        return hi
    return mk("v", a, hi, lo)


_known_memo = {}


def known_leaf(f, a):
    """x has become the constant wherever x == constant holds."""
    key = (f, a)
    r = _known_memo.get(key)
    if r is not None:
        return r
    x, c = a.args
    if f.op == "v":
        h, l = known_leaf(f.args[1], a), known_leaf(f.args[2], a)
        r = f if h is f.args[1] and l is f.args[2] else \
            vmk(f.args[0], h, l)
    elif f is x:
        r = c
    elif f.op in ("cat", "call") and a.op == "eq" and any(
            y is x or y.op == "cat" and x in y.args[0]
            for y in (f.args[0] if f.op == "cat" else
                      f.args[1] + tuple(v for _, v in f.args[2]))):
        r = subst(f, {x: c})
    elif f.op == "flat" and c.op == "num" and c.args[0] == 1 and \
            f.args[1].op == "dom" and f.args[1].args[0] is x:
        r = subst(f.args[2], {mk("bv", f.args[0]): mk("num", c.args[0] * 0)})
    else:
        r = f
    _known_memo[key] = r
    return r


def vmk(a, hi, lo):
    if hi is lo:
        return hi
    if _group(a) is not None:
        hi = restrict(hi, a, True)
        lo = restrict(lo, a, False)
        if a.op in ("is", "eq") and (a.args[1].op == "const" or
                                     a.args[1].op == "num" and
                                     a.args[1].args[0] == 1):
            hi = known_leaf(hi, a)
        if hi is lo:
            return hi
        # the test is redundant if the other branch already agrees with
        # this one wherever the atom holds (mutually exclusive atoms)
        if lo.op == "v" and restrict(lo, a, True) is hi:
            return lo
        if hi.op == "v" and restrict(hi, a, False) is lo:
            return hi
        # None if x is None else x
        if a.op in ("is", "eq") and lo is a.args[0] and \
                hi is a.args[1] and hi.op == "const":
            return lo
    return mk("v", a, hi, lo)


def atom(a):
    return mk("v", a, TRUE, FALSE)


def _cof(f, a, val):
    if f.op == "v" and f.args[0] is a:
        return f.args[1] if val else f.args[2]
    return f


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != "v":
        c = truth(c)
        return ite(c, a, b)
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    top = c.args[0]
    if a.op == "v" and a.args[0].oh < top.oh:
        top = a.args[0]
    if b.op == "v" and b.args[0].oh < top.oh:
        top = b.args[0]
    hi = ite(_cof(c, top, 1), _cof(a, top, 1), _cof(b, top, 1))
    lo = ite(_cof(c, top, 0), _cof(a, top, 0), _cof(b, top, 0))
    r = vmk(top, hi, lo)
    _ite_memo[key] = r
    return r


def nleaves(f, cap=10 ** 6):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.op == "v":
            if x in seen:
                continue
            seen.add(x)
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            seen.add(x)
    return len(seen)


def leaves(f):
    out = []
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "v":
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            out.append(x)
    return out


def atoms_of(f):
    out = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x in seen or x.op != "v":
            continue
        seen.add(x)
        out.add(x.args[0])
        st.append(x.args[2])
        st.append(x.args[1])
    return out


def isbool(f):
    """All leaves TRUE/FALSE."""
    if f is TRUE or f is FALSE:
        return True
    if f.op != "v":
        return False
    return all(x is TRUE or x is FALSE for x in leaves(f))


class Budget:
    hit = 0


def lift(fn, *args):
    """Apply fn over the leaves of decision-diagram arguments."""
    if not any(a.op == "v" for a in args):
        return fn(*args)
    n = 1
    for a in args:
        if a.op == "v":
            n *= nleaves(a)
    if n > 400:
        Budget.hit += 1
        return fn(*[gate(a) for a in args])
    memo = {}

    def rec(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        top = None
        for a in xs:
            if a.op == "v" and (top is None or a.args[0].oh < top.oh):
                top = a.args[0]
        if top is None:
            r = fn(*xs)
        else:
            hi = rec(tuple(_cof(a, top, 1) for a in xs))
            lo = rec(tuple(_cof(a, top, 0) for a in xs))
            # leaves computed by fn may themselves contain diagrams
            if hi.op == "v" or lo.op == "v":
                r = ite(atom(top), hi, lo)
            else:
                r = vmk(top, hi, lo)
        memo[xs] = r
        return r
    return rec(tuple(args))


def gate(f):
    """Reify a diagram as a plain leaf."""
    if f.op != "v":
        return f
    if isbool(f):
        return reify(f)
    return mk("gate", f)


def reify(f):
    if f.op != "v":
        return f
    a, hi, lo = f.args
    if a.op == "truth" and hi is TRUE and lo is FALSE:
        return a.args[0]
    return mk("bool", f)


def arg(f):
    """Value used as an operand/argument: booleans are reified."""
    if f.op == "v" and isbool(f):
        return reify(f)
    return f


def unbool(t):
    if t.op == "bool":
        return t.args[0]
    return t


def truth0(t):
    if t.op == "const":
        return TRUE if t.args[0] else FALSE
    if t.op == "num":
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == "bool":
        return t.args[0]
    if t.op == "gate":
        return truth(t.args[0])
    if t.op in ("list", "tuple", "set"):
        return TRUE if t.args[0] else FALSE
    if t.op == "dict":
        return TRUE if t.args[0] else FALSE
    if t.op == "cat":
        for p in t.args[0]:
            if p.op == "list" and p.args[0]:
                return TRUE
    if t.op == "len" or t.op == "call" and \
            t.args[0] == "numpy.count_nonzero":
        return b_not(eq(t, ZERO))
    return atom(mk("truth", t))


def truth(f):
    if f.op != "v":
        return truth0(f)
    if isbool(f):
        return f
    a, hi, lo = f.args
    return ite(atom(a), truth(hi), truth(lo))


def b_not(f):
    return ite(truth(f), FALSE, TRUE)


def b_and(*fs):
    r = TRUE
    for f in fs:
        r = ite(r, truth(f), FALSE)
    return r


def b_or(*fs):
    r = FALSE
    for f in fs:
        r = ite(r, TRUE, truth(f))
    return r


def implies(a, b):
    return ite(a, b, TRUE) is TRUE


# --------------------------------------------------------------------------
# polynomials

def _terms(t):
    """dict mono->coeff for a leaf term."""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def _monokey(m):
    return (sum(abs(e) for _, e in m), tuple((t.h, e) for t, e in m))


def _frompoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _monokey(mc[0])))
    return mk("poly", items)


SEQ = {"list", "cat", "flat", "fmt", "setv"}


SEQCALL = {"list", "sorted"}


def isseq(t):
    if t.op == "call" and t.args[0] in SEQCALL or t.op == "fstr":
        return True
    return t.op in SEQ or (t.op == "const" and isinstance(t.args[0], str)) \
        or t.op == "tuple"


def _add(a, b):
    if isseq(a) or isseq(b):
        return cat(a, b)
    d = _terms(a)
    for m, c in _terms(b).items():
        d[m] = d.get(m, 0) + c
    return _frompoly(d)


def cat(*parts):
    out = []
    for p in parts:
        ps = p.args[0] if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "list" and not q.args[0]:
                continue
            if q.op == "const" and q.args[0] == "":
                continue
            if out and out[-1].op == "list" and q.op == "list":
                out[-1] = mk("list", out[-1].args[0] + q.args[0])
            elif out and out[-1].op == "tuple" and q.op == "tuple":
                out[-1] = mk("tuple", out[-1].args[0] + q.args[0])
            elif out and _isstr(out[-1]) and _isstr(q):
                out[-1] = const(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return mk("list", ())
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def unlist(t):
    """Iterating list(x) is iterating x."""
    while t.op == "call" and t.args[0] == "list" and len(t.args[1]) == 1 \
            and not t.args[2]:
        t = t.args[1][0]
    return t


def extend(a, b):
    if b.op == "cat":
        return cat(a, *[unlist(x) for x in b.args[0]])
    return cat(a, unlist(b))


def _isstr(t):
    return t.op == "const" and isinstance(t.args[0], str)


def add(a, b):
    return lift(_add, _numarg(a), _numarg(b))


def _numarg(a):
    return arg(a)


def neg(a):
    return mul(num(-1), a)


def sub_(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    for t, e in m1 + m2:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0),
                        key=lambda te: (te[0].h, te[1])))


def _mul(a, b):
    if (isseq(a) and a.op != "flat") or (isseq(b) and b.op != "flat"):
        if isseq(b) and not isseq(a):
            a, b = b, a
        return mk("rep", a, b)
    da, db = _terms(a), _terms(b)
    if len(da) * len(db) > 200:
        x, y = sorted((a, b))
        return mk("bigmul", x, y)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _frompoly(d)


def mul(a, b):
    return lift(_mul, _numarg(a), _numarg(b))


def _inv(b):
    if b.op == "num":
        if b.args[0] == 0:
            return mk("divzero")
        return num(1 / b.args[0])
    d = _terms(b)
    if len(d) == 1:
        (m, c), = d.items()
        return _frompoly({tuple((t, -e) for t, e in m): 1 / c})
    lead = b.args[0][0][1]
    base = _frompoly({m: c / lead for m, c in d.items()})
    return _frompoly({((base, -1),): 1 / lead})


def div(a, b):
    return mul(a, lift(_inv, _numarg(b)))


def power(a, b):
    def f(x, y):
        if y.op == "num" and y.args[0].denominator == 1:
            n = int(y.args[0])
            if n == 0:
                return ONE
            if 0 < n <= 4:
                r = x
                for _ in range(n - 1):
                    r = _mul(r, x)
                return r
            if -4 <= n < 0:
                r = x
                for _ in range(-n - 1):
                    r = _mul(r, x)
                return _inv(r)
        if x.op == "num" and y.op == "num":
            return mk("pow", x, y)
        return mk("pow", x, y)
    return lift(f, _numarg(a), _numarg(b))


def binop(name, a, b, comm=False):
    def f(x, y):
        if comm and y.h < x.h:
            x, y = y, x
        return mk("bin", name, x, y)
    return lift(f, _numarg(a), _numarg(b))


# --------------------------------------------------------------------------
# comparisons

def _integer(t):
    """Term known to be integer-valued."""
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.op in ("len", "bv", "idx"):
        return True
    if t.op == "poly":
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for x, e in m:
                if e < 0 or not _integer(x):
                    return False
        return True
    return False


def _split(p):
    """p = k*q + c0  (q leading coeff 1, no constant)."""
    d = _terms(p)
    c0 = d.pop((), Fraction(0))
    if not d:
        return None, None, c0
    items = sorted(d.items(), key=lambda mc: _monokey(mc[0]))
    k = items[0][1]
    q = _frompoly({m: c / k for m, c in d.items()})
    return k, q, c0


def _isnn(q):
    return q.op == "len"


def _ord(q, c, strict):
    """Atom q < c / q <= c."""
    if _integer(q) :
        if c.denominator != 1:
            c = Fraction(c.numerator // c.denominator)
            strict = False
        elif strict:
            c, strict = c - 1, False
        if _isnn(q):
            if c < 0:
                return FALSE
            if c == 0:
                return atom(mk("eq", q, ZERO))
    return atom(mk("lt" if strict else "le", q, num(c)))


def _minmax(d, strict):
    """d < 0 where d contains a single +-min(..)/max(..) term."""
    if d.op == "call" and d.args[0] in ("min", "max"):
        items = ((((d, 1),), Fraction(1)),)
    elif d.op == "poly":
        items = d.args[0]
    else:
        return None
    hit = [(m, c) for m, c in items if len(m) == 1 and m[0][1] == 1 and
           m[0][0].op == "call" and m[0][0].args[0] in ("min", "max") and
           len(m[0][0].args[1]) > 1 and not m[0][0].args[2]]
    if len(hit) != 1:
        return None
    (m, c), = hit
    t = m[0][0]
    rest = dict(items)
    del rest[m]
    rest = _frompoly(rest)
    some = (t.args[0] == "min") == (c > 0)
    out = FALSE if some else TRUE
    for x in t.args[1]:
        v = lift(lambda y: _add(rest, _mul(num(c), y)), arg(ungate(x)))
        g = lift(lambda y: _lt(y, ZERO, strict), v)
        out = b_or(out, g) if some else b_and(out, g)
    return out


def ungate(x):
    return x.args[0] if x.op == "gate" else x


def _distinct(d):
    """Sign of d if it is the difference between the numbers of elements
    and of different elements of one sequence."""
    if d.op != "poly" or len(d.args[0]) != 2:
        return None
    (m1, c1), (m2, c2) = d.args[0]
    if c1 + c2 != 0 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1 or \
            m1[0][1] != 1 or m2[0][1] != 1:
        return None
    for x, y, c in ((m1[0][0], m2[0][0], c1), (m2[0][0], m1[0][0], c2)):
        if x.op == "len" and y.op == "len" and x.args[0].op == "call" and \
                x.args[0].args[0] == "set" and \
                x.args[0].args[1] == (y.args[0],):
            return -1 if c > 0 else 1
    return None


def _lt(a, b, strict):
    if a.op == "const" or b.op == "const":
        if not (a.op == "const" and isinstance(a.args[0], bool)) and \
           not (b.op == "const" and isinstance(b.args[0], bool)):
            return atom(mk("cmp", "lt" if strict else "le", a, b))
    if a.op in ("tuple", "list") or b.op in ("tuple", "list"):
        return atom(mk("cmp", "lt" if strict else "le", a, b))
    d = _add(a, _mul(num(-1), b))
    r = _minmax(d, strict)
    if r is not None:
        return r
    r = _distinct(d)
    if r is not None:
        if strict:
            return b_not(_eq(d, ZERO)) if r < 0 else FALSE
        return TRUE if r < 0 else _eq(d, ZERO)
    k, q, c0 = _split(d)
    if k is None:
        r = c0 < 0 if strict else c0 <= 0
        return TRUE if r else FALSE
    if k > 0:      # q < -c0/k
        return _ord(q, -c0 / k, strict)
    # q > -c0/k  => not (q <= -c0/k)
    return b_not(_ord(q, -c0 / k, not strict))


def lt(a, b):
    return lift(lambda x, y: _lt(x, y, True), arg(a), arg(b))


def le(a, b):
    return lift(lambda x, y: _lt(x, y, False), arg(a), arg(b))


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("unbound", "keyerr") or b.op in ("unbound", "keyerr"):
        return FALSE           # evaluating the comparison raises
    if a.op == "const" or b.op == "const":
        if a.op == "const":
            a, b = b, a
        if isconst(a):
            return TRUE if (a.args[0] == b.args[0]) else FALSE
        if b is NONE:
            return is_(a, b)
        if b is TRUE or b is FALSE:
            return atom(mk("is", a, b))
        return atom(mk("eq", a, b))
    if a.op in ("tuple", "list", "dict", "set") or \
            b.op in ("tuple", "list", "dict", "set") or isseq(a) or isseq(b):
        x, y = sorted((a, b))
        return atom(mk("eq", x, y))
    if (a.op == "ext") != (b.op == "ext") and not isconst(a) and \
            not isconst(b):
        if a.op == "ext":
            a, b = b, a
        return atom(mk("eq", a, b))
    k, q, c0 = _split(_add(a, _mul(num(-1), b)))
    if k is None:
        return TRUE if c0 == 0 else FALSE
    c = -c0 / k
    if _isnn(q) and (c < 0 or c.denominator != 1):
        return FALSE
    return atom(mk("eq", q, num(c)))


def eq(a, b):
    return lift(_eq, arg(a), arg(b))


NOTNONE = {"num", "list", "tuple", "dict", "set", "poly", "flat", "new",
           "fmt", "len", "bool", "sum", "cat", "mapst", "store", "lam",
           "range", "bin", "func"}


def _is(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        return FALSE
    if b is NONE and a.op in NOTNONE:
        return FALSE
    if a is NONE and b.op in NOTNONE:
        return FALSE
    if isconst(a):
        a, b = b, a
    return atom(mk("is", a, b))


def is_(a, b):
    return lift(_is, arg(a), arg(b))


def contains(a, c):
    def f(x, y):
        if y.op in ("list", "tuple", "set") and \
                (len(y.args[0]) <= 12 or all(isconst(k) for k in y.args[0])):
            return b_or(*[_eq(x, k) for k in y.args[0]])
        if y.op == "dict" and all(isconst(k) for k, _ in y.args[0]):
            return b_or(*[_eq(x, k) for k, _ in y.args[0]])
        return atom(mk("in", x, y))
    return lift(f, arg(a), arg(c))


# --------------------------------------------------------------------------
# substitution (rebuilds canonical forms)

def subst(t, m):
    """Replace leaf terms per dict m, re-canonicalising."""
    memo = {}

    def s(x):
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("const", "num", "bv", "sym"):
            r = x
        else:
            na = tuple(s(y) for y in x.args)
            if all(p is q or p == q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
        memo[x] = r
        return r
    return s(t)


_rebuilders = {}


def _regate(x):
    if isinstance(x, tuple):
        return tuple(_regate(y) for y in x)
    if isinstance(x, T) and x.op == "v":
        return gate(x)
    return x


def rebuild(op, na):
    f = _rebuilders.get(op)
    if f is not None:
        return f(*na)
    na = tuple(_regate(a) if isinstance(a, tuple) else a for a in na)
    # plain constructor; lift diagrams out of T args
    ts = [a for a in na if isinstance(a, T)]
    if any(a.op == "v" for a in ts) and op not in BINDERS and \
            op not in ("bool", "gate"):
        def f(*xs):
            it = iter(xs)
            return mk(op, *[next(it) if isinstance(a, T) else a for a in na])
        return lift(f, *[arg(a) for a in ts])
    return mk(op, *na)


def _rb_v(a, hi, lo):
    # atom may have been turned into something simplified
    return ite(rebuild_atom(a), hi, lo)


def rebuild_atom(a):
    if a.op == "v" or a is TRUE or a is FALSE:
        return a
    o = a.op
    if o == "truth":
        return truth(a.args[0])
    if o == "eq":
        return eq(*a.args)
    if o == "lt":
        return lt(*a.args)
    if o == "le":
        return le(*a.args)
    if o == "is":
        return is_(*a.args)
    if o == "in":
        return contains(*a.args)
    return atom(a)


def _rb_poly(items):
    r = ZERO
    for mono, c in items:
        t = num(c)
        for b, e in mono:
            t = mul(t, power(b, num(e)))
        r = add(r, t)
    return r


_rebuilders["v"] = _rb_v
_rebuilders["poly"] = _rb_poly
_rebuilders["eq"] = lambda a, b: mk("eq", a, b) if a.op != "v" and b.op != "v" \
    else mk("eq", gate(a), gate(b))
_rebuilders["lt"] = lambda a, b: mk("lt", gate(a), gate(b))
_rebuilders["le"] = lambda a, b: mk("le", gate(a), gate(b))
_rebuilders["is"] = lambda a, b: mk("is", gate(a), gate(b))
_rebuilders["in"] = lambda a, b: mk("in", gate(a), gate(b))
_rebuilders["truth"] = lambda a: mk("truth", gate(a))
_rebuilders["bool"] = lambda a: reify(a) if isbool(a) else mk("bool", a)
_rebuilders["gate"] = lambda a: a
_rebuilders["cat"] = lambda ps: lift(lambda *x: cat(*x), *[arg(p) for p in ps])


def contains_term(t, pred):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(x.args)
    return False


def collect(t, pred):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(x.args)
    return out


def has(t, leaf):
    return contains_term(t, lambda x: x is leaf)


# --------------------------------------------------------------------------
# printing

def show(t, depth=0, limit=14):
    if depth > limit:
        return "…"
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1, limit) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    S = lambda x: show(x, depth + 1, limit)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "num":
        f = a[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if o == "sym":
        return a[0]
    if o == "attr":
        return "%s.%s" % (S(a[0]), a[1])
    if o == "sub":
        return "%s[%s]" % (S(a[0]), S(a[1]))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(
            [S(x) for x in a[1]] + ["%s=%s" % (k, S(v)) for k, v in a[2]]))
    if o == "mcall":
        return "%s.%s(%s)" % (S(a[0]), a[1], ", ".join(
            [S(x) for x in a[2]] + ["%s=%s" % (k, S(v)) for k, v in a[3]]))
    if o == "new":
        return "%s(%s)" % (a[0], ", ".join(
            "%s=%s" % (k, S(v)) for k, v in a[1]))
    if o == "poly":
        out = []
        for m, c in a[0]:
            ms = "*".join(S(b) if e == 1 else "%s^%d" % (S(b), e)
                          for b, e in m)
            if c == 1 and ms:
                out.append(ms)
            elif ms:
                out.append("%s*%s" % (show(num(c)), ms))
            else:
                out.append(show(num(c)))
        return "(" + " + ".join(out) + ")"
    if o == "v":
        if isbool(t):
            if a[1] is TRUE and a[2] is FALSE:
                return S(a[0])
            if a[1] is FALSE and a[2] is TRUE:
                return "!(%s)" % S(a[0])
        return "{%s ? %s : %s}" % (S(a[0]), S(a[1]), S(a[2]))
    if o in ("lt", "le", "eq", "is", "in"):
        return "%s %s %s" % (S(a[0]), {"lt": "<", "le": "<=", "eq": "==",
                                      "is": "is", "in": "in"}[o], S(a[1]))
    if o == "truth":
        return "bool(%s)" % S(a[0])
    if o == "bool":
        return S(a[0])
    if o == "len":
        return "len(%s)" % S(a[0])
    if o == "list":
        return "[%s]" % ", ".join(S(x) for x in a[0])
    if o == "tuple":
        return "(%s)" % ", ".join(S(x) for x in a[0])
    if o == "bin":
        return "(%s %s %s)" % (S(a[1]), a[0], S(a[2]))
    if o == "bv":
        return "i%d" % a[0] if len(a) == 1 else "i%d_%s" % (a[0], a[1])
    if o == "flat":
        return "[%s for i%d<%s]" % (S(a[2]), a[0], S(a[1]))
    return "%s(%s)" % (o, ", ".join(S(x) for x in a))
