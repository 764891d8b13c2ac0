"""Hash-consed bit-vector expression DAG with simplification.

Width 1 expressions are Booleans.  Everything here is exact (no approximation);
simplifications only rewrite to equivalent terms.
"""

LEAF_LIMIT = 128
PUSH_PRODUCT = 400


class E:
    __slots__ = ("op", "w", "a", "id", "leaves", "sz", "gm", "hi", "lo", "neg", "lits", "cls", "dis")

    def __repr__(self):
        return show(self)


_table = {}
_nodes = []
_mapmemo = {}


def reset():
    _table.clear()
    _nodes.clear()
    _mapmemo.clear()
    RANGES.clear()
    LEMMAS.clear()
    _init()


def _mk(op, w, a, leaves=None):
    key = (op, w) + a
    n = _table.get(key)
    if n is not None:
        return n
    n = E()
    n.op = op
    n.w = w
    n.a = a
    n.id = len(_nodes)
    n.leaves = leaves
    n.sz = 0
    n.gm = None
    n.neg = None
    n.lits = None
    n.cls = None
    n.dis = None
    n.hi = None
    n.lo = None
    _nodes.append(n)
    _table[key] = n
    return n


def const(v, w):
    v &= (1 << w) - 1
    key = ("const", w, v)
    n = _table.get(key)
    if n is not None:
        return n
    return _mk("const", w, (v,), frozenset((v,)))


def _init():
    global TRUE, FALSE
    TRUE = const(1, 1)
    FALSE = const(0, 1)


_init()


# name -> (lo, hi): side conditions on variables, asserted in every query they occur in
RANGES = {}
# (comparison term, claimed value): every comparison folded with the help of RANGES;
# discharged by the solver at the end of the run
LEMMAS = {}


def var(name, w, lo=None, hi=None):
    if lo is not None:
        assert 0 <= lo <= hi < (1 << w)
        if RANGES.setdefault(name, (lo, hi)) != (lo, hi):
            raise ValueError("two ranges for " + name)
    return _mk("var", w, (name,))


def is_const(e):
    return e.op == "const"


def boolc(b):
    return TRUE if b else FALSE


def not_(a):
    n = a.neg
    if n is None:
        if a.op == "const":
            n = FALSE if a is TRUE else TRUE
        else:
            n = _mk("not", 1, (a,))
        a.neg = n
        n.neg = a
    return n


def is_neg(a, b):
    return a.neg is b


LITS = 48


def lits(a):
    """literals of a (possibly truncated) conjunction, as a frozenset of nodes"""
    l = a.lits
    if l is None:
        l = a.lits = frozenset((a,))
    return l


def dlits(a):
    """literals of a disjunction: negations of the literals of its complement"""
    return lits(not_(a))


def and_(a, b):
    if a is b:
        return a
    if a.op == "const":
        return b if a is TRUE else FALSE
    if b.op == "const":
        return a if b is TRUE else FALSE
    if a.neg is b:
        return FALSE
    la, lb = lits(a), lits(b)
    if len(la) < len(lb):
        a, b, la, lb = b, a, lb, la
    # la is the larger set
    sub = True
    for x in lb:
        if x not in la:
            sub = False
            n = x.neg
            if n is not None and n in la:
                return FALSE
    if sub:
        return a
    # unit resolution one level: x & (y | ~x) -> x & y, x & (x | y) -> x
    if b.op == "or":
        for i in (0, 1):
            x = b.a[i]
            if x in la:
                return a
            if x.neg is not None and x.neg in la:
                return and_(a, b.a[1 - i])
    if a.op == "or":
        for i in (0, 1):
            x = a.a[i]
            if x in lb:
                return b
            if x.neg is not None and x.neg in lb:
                return and_(a.a[1 - i], b)
    # unit propagation of the clauses among the literals
    ca, cb = clauses(a, la), clauses(b, lb)
    if ca or cb:
        u = la | lb
        for x in ca + cb:
            rest = None
            n = 0
            for d in disjuncts(x):
                k = d.neg
                if k is None or k not in u:
                    n += 1
                    rest = d
                    if n > 1:
                        break
            if n == 0:
                return FALSE
            if n == 1:
                return conj((u - {x}) | {rest})
    if a.id > b.id:
        a, b = b, a
    r = _mk("and", 1, (a, b))
    if r.lits is None and len(la) + len(lb) <= LITS:
        r.lits = la | lb
        r.cls = ca + tuple(x for x in cb if x not in la)
    return r


def clauses(a, la):
    """the literals of `a` that are (small) disjunctions"""
    c = a.cls
    if c is None:
        c = a.cls = tuple(x for x in la if disjuncts(x))
    return c


def disjuncts(x):
    """flattened disjunction, () if it is none or too long"""
    d = x.dis
    if d is None:
        d = ()
        if x.op == "or" or x.op == "not" and x.a[0].op == "and":
            out, todo = [], [x]
            while todo and len(out) + len(todo) <= 10:
                y = todo.pop()
                if y.op == "or":
                    todo += y.a
                elif y.op == "not" and y.a[0].op == "and":
                    todo += [not_(z) for z in y.a[0].a]
                else:
                    out.append(y)
            if not todo:
                d = tuple(out)
        x.dis = d
    return d


def conj(ls):
    r = TRUE
    for x in sorted(ls, key=lambda n: n.id):
        r = and_(r, x)
    return r


def or_(a, b):
    if a is b:
        return a
    if a.op == "const":
        return TRUE if a is TRUE else b
    if b.op == "const":
        return TRUE if b is TRUE else a
    if a.neg is b:
        return TRUE
    la, lb = lits(a), lits(b)
    d1 = la - lb
    if not d1:
        return a
    d2 = lb - la
    if not d2:
        return b
    if len(d1) == 1 and len(d2) == 1:
        (x,), (y,) = d1, d2
        if x.neg is y:  # (p & q) | (p & ~q) -> p
            return conj(la & lb)
    # (p & q) | ~p -> q | ~p
    if len(lb) == 1 and b.neg is not None and b.neg in la:
        return or_(conj(la - {b.neg}), b)
    if len(la) == 1 and a.neg is not None and a.neg in lb:
        return or_(a, conj(lb - {a.neg}))
    if a.op == "or":
        if a.a[0] is b or a.a[1] is b:
            return a
        if a.a[0].neg is b or a.a[1].neg is b:
            return TRUE
    if b.op == "or":
        if b.a[0] is a or b.a[1] is a:
            return b
        if b.a[0].neg is a or b.a[1].neg is a:
            return TRUE
    if a.id > b.id:
        a, b = b, a
    return _mk("or", 1, (a, b))


def xor1(a, b):
    if a is b:
        return FALSE
    if a.op == "const":
        return b if a is FALSE else not_(b)
    if b.op == "const":
        return a if b is FALSE else not_(a)
    if is_neg(a, b):
        return TRUE
    if a.op == "not" and b.op == "not":
        a, b = a.a[0], b.a[0]
    elif a.op == "not":
        return not_(xor1(a.a[0], b))
    elif b.op == "not":
        return not_(xor1(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", 1, (a, b))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c.op == "const":
        return a if c is TRUE else b
    if a is b:
        return a
    if c.op == "not":
        c = c.a[0]
        a, b = b, a
    w = a.w
    assert w == b.w, (a.w, b.w)
    if w == 1:
        if a.op == "const":
            return or_(c, b) if a is TRUE else and_(not_(c), b)
        if b.op == "const":
            return or_(not_(c), a) if b is TRUE else and_(c, a)
        if c is a:
            return or_(c, b)
        if c is b:
            return and_(c, a)
        if is_neg(a, b):
            return not_(xor1(c, a))
    if a.op == "ite":
        if a.a[0] is c:
            a = a.a[1]
            return ite(c, a, b)
        # ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
        if a.a[2] is b:
            return ite(and_(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(and_(c, not_(a.a[0])), a.a[2], b)
    if b.op == "ite":
        if b.a[0] is c:
            b = b.a[2]
            return ite(c, a, b)
        if b.a[1] is a:
            return ite(or_(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(or_(c, not_(b.a[0])), a, b.a[1])
    leaves = None
    if a.leaves is not None and b.leaves is not None and w > 1:
        l = a.leaves | b.leaves
        if len(l) <= LEAF_LIMIT:
            leaves = l
            sz = 1 + a.sz + b.sz
            if sz > 2 * len(l) + 4:
                return from_gmap(w, merge_gmap(c, gmap(a), gmap(b)))
            r = _mk("ite", w, (c, a, b), leaves)
            r.sz = sz
            return r
    return _mk("ite", w, (c, a, b), leaves)


# Guard maps: a term that takes finitely many constant values, as {value: condition}
# with exclusive and exhaustive conditions.  Terms whose if-then-else tree outgrows the
# number of values are rebuilt from their guard map, so their size stays bounded.

def gmap(e):
    g = e.gm
    if g is None:
        if e.op == "const":
            g = {e.a[0]: TRUE}
        else:
            g = merge_gmap(e.a[0], gmap(e.a[1]), gmap(e.a[2]))
        e.gm = g
    return g


def merge_gmap(c, A, B):
    n = not_(c)
    out = {}
    for v, g in A.items():
        h = B.get(v)
        if h is None:
            r = and_(c, g)
        elif h is g:
            r = g
        else:
            r = or_(and_(c, g), and_(n, h))
        if r is not FALSE:
            out[v] = r
    for v, h in B.items():
        if v not in A:
            r = and_(n, h)
            if r is not FALSE:
                out[v] = r
    return out


def from_gmap(w, G):
    """G: exclusive, exhaustive"""
    if w == 1:
        return G.get(1, FALSE)
    if len(G) > LEAF_LIMIT:
        raise Exception("guard map too large")
    vs = sorted(G)
    if not vs:
        return const(0, w)  # unreachable
    for v in vs:
        if G[v] is TRUE:
            return const(v, w)
    acc = const(vs[-1], w)
    ls = {vs[-1]}
    for v in reversed(vs[:-1]):
        ls.add(v)
        k = acc.sz + 1
        acc = _mk("ite", w, (G[v], const(v, w), acc), frozenset(ls))
        acc.sz = k
    if acc.gm is None:
        acc.gm = {v: G[v] for v in vs}
    return acc


def disj(gs):
    gs = list(gs)
    if not gs:
        return FALSE
    while len(gs) > 1:
        gs = [or_(gs[i], gs[i + 1]) if i + 1 < len(gs) else gs[i] for i in range(0, len(gs), 2)]
    return gs[0]


def gmap_apply(G, f):
    """{value: guard} -> {f(value): guard}"""
    out = {}
    for v, g in G.items():
        out.setdefault(f(v), []).append(g)
    return out


def map_const(e, f, w, key):
    """f : int -> int over a finite-valued term"""
    k = (e.id, key)
    r = _mapmemo.get(k)
    if r is not None:
        return r
    m = (1 << w) - 1
    if e.gm is None and e.sz <= 24:
        r = _map(e, lambda x: const(f(x), w), {})
    else:
        H = gmap_apply(gmap(e), lambda v: f(v) & m)
        if w == 1:
            t, z = H.get(1, []), H.get(0, [])
            r = disj(t) if len(t) <= len(z) else not_(disj(z))
        else:
            r = from_gmap(w, {v: disj(gs) for v, gs in H.items()})
    _mapmemo[k] = r
    return r


def map2_const(a, b, f, w):
    """f : int x int -> int over two finite-valued terms (product is small enough)"""
    m = (1 << w) - 1
    out = {}
    for x, g in gmap(a).items():
        for y, h in gmap(b).items():
            c = and_(g, h)
            if c is not FALSE:
                out.setdefault(f(x, y) & m, []).append(c)
    if w == 1:
        return disj(out.get(1, []))
    if len(out) > LEAF_LIMIT:
        return None
    return from_gmap(w, {v: disj(gs) for v, gs in out.items()})


def _map(e, f, memo):
    # iterative post-order to avoid deep recursion
    stack = [e]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.op == "const":
            memo[x.id] = f(x.a[0])
            stack.pop()
            continue
        a, b = x.a[1], x.a[2]
        ra = memo.get(a.id)
        rb = memo.get(b.id)
        if ra is not None and rb is not None:
            memo[x.id] = ite(x.a[0], ra, rb)
            stack.pop()
        else:
            if ra is None:
                stack.append(a)
            if rb is None:
                stack.append(b)
    return memo[e.id]


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def maxval(e):
    """A sound upper bound for the unsigned value of e (cached)."""
    h = e.hi
    if h is not None:
        return h
    m = (1 << e.w) - 1
    op = e.op
    if op == "const":
        h = e.a[0]
    elif op == "var":
        h = RANGES.get(e.a[0], (0, m))[1]
    elif e.leaves is not None:
        h = max(e.leaves)
    elif op == "zext":
        h = maxval(e.a[0])
    elif op == "and":
        h = min(maxval(e.a[0]), maxval(e.a[1]))
    elif op == "ite":
        h = max(maxval(e.a[1]), maxval(e.a[2]))
    elif op == "lshr" and e.a[1].op == "const":
        h = maxval(e.a[0]) >> min(e.a[1].a[0], e.w)
    elif op == "udiv" and e.a[1].op == "const" and e.a[1].a[0]:
        h = maxval(e.a[0]) // e.a[1].a[0]
    elif op == "urem" and e.a[1].op == "const" and e.a[1].a[0]:
        h = min(maxval(e.a[0]), e.a[1].a[0] - 1)
    elif op == "add":
        s = maxval(e.a[0]) + maxval(e.a[1])
        h = s if s <= m else m
    elif op == "mul":
        s = maxval(e.a[0]) * maxval(e.a[1])
        h = s if s <= m else m
    elif op in ("or", "xor"):
        s = maxval(e.a[0]) | maxval(e.a[1])
        h = min(m, (1 << s.bit_length()) - 1)
    elif op == "shl" and e.a[1].op == "const":
        s = maxval(e.a[0]) << min(e.a[1].a[0], e.w)
        h = s if s <= m else m
    else:
        h = m
    e.hi = h
    return h


def minval(e):
    """A sound lower bound for the unsigned value of e (cached)."""
    l = e.lo
    if l is not None:
        return l
    m = (1 << e.w) - 1
    op = e.op
    l = 0
    if op == "const":
        l = e.a[0]
    elif op == "var":
        l = RANGES.get(e.a[0], (0, m))[0]
    elif e.leaves is not None:
        l = min(e.leaves)
    elif op == "zext":
        l = minval(e.a[0])
    elif op == "ite":
        l = min(minval(e.a[1]), minval(e.a[2]))
    elif op == "add" and maxval(e.a[0]) + maxval(e.a[1]) <= m:
        l = minval(e.a[0]) + minval(e.a[1])
    elif op == "mul" and maxval(e.a[0]) * maxval(e.a[1]) <= m:
        l = minval(e.a[0]) * minval(e.a[1])
    elif op == "udiv" and e.a[1].op == "const" and e.a[1].a[0]:
        l = minval(e.a[0]) // e.a[1].a[0]
    elif op == "lshr" and e.a[1].op == "const":
        l = minval(e.a[0]) >> min(e.a[1].a[0], e.w)
    e.lo = l
    return l


def lemma(op, a, b, value):
    """Record that `a op b` was folded to `value` by range reasoning."""
    if RANGES:
        LEMMAS[_mk(op, 1, (a, b))] = value
    return boolc(value)


def bounded(a, v):
    """a <= v for certain (recorded as a lemma when variable ranges may be involved)"""
    if maxval(a) > v:
        return False
    if v < (1 << a.w) - 1:
        lemma("ule", a, const(v, a.w), True)
    return True


COMM = {"add", "mul", "and", "or", "xor"}


def _fold(op, x, y, w):
    m = (1 << w) - 1
    if op == "add":
        return (x + y) & m
    if op == "sub":
        return (x - y) & m
    if op == "mul":
        return (x * y) & m
    if op == "and":
        return x & y
    if op == "or":
        return x | y
    if op == "xor":
        return x ^ y
    if op == "shl":
        return (x << y) & m if y < w else 0
    if op == "lshr":
        return x >> y if y < w else 0
    if op == "ashr":
        return (sgn(x, w) >> min(y, w - 1)) & m
    if op == "udiv":
        return x // y if y else m
    if op == "urem":
        return x % y if y else x
    if op in ("sdiv", "srem"):
        sx, sy = sgn(x, w), sgn(y, w)
        if sy == 0:
            return (m if sx >= 0 else 1) if op == "sdiv" else x
        q = abs(sx) // abs(sy)
        if (sx < 0) != (sy < 0):
            q = -q
        return (q if op == "sdiv" else sx - q * sy) & m
    raise Exception(op)


def bin_(op, a, b):
    if a.op != "const" and b.op == "const" and a.op == "ite":
        k = (a.id, op, b.id)
        r = _mapmemo.get(k)
        if r is None:
            r = _bin(op, a, b)
            _mapmemo[k] = r
        return r
    return _bin(op, a, b)


def _bin(op, a, b):
    w = a.w
    assert b.w == w, (op, a.w, b.w)
    if w == 1:
        if op == "and" or op == "mul":
            return and_(a, b)
        if op == "or":
            return or_(a, b)
        if op in ("xor", "add", "sub"):
            return xor1(a, b)
        if op in ("shl", "lshr"):
            return and_(a, not_(b))
        raise Exception("bool op " + op)
    ac, bc = a.op == "const", b.op == "const"
    if ac and bc:
        return const(_fold(op, a.a[0], b.a[0], w), w)
    if bc:
        v = b.a[0]
        if v == 0:
            if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if op in ("mul", "and"):
                return b
        if v == (1 << w) - 1:
            if op == "and":
                return a
            if op == "or":
                return b
        if v == 1 and op in ("mul", "udiv"):
            return a
        if v == 1 and op == "urem":
            return const(0, w)
        if op in ("lshr", "udiv") and v < (1 << w):
            if op == "lshr" and v >= w:
                return const(0, w)
            if op == "udiv" and v and bounded(a, v - 1):
                return const(0, w)
            if op == "lshr" and v < a.w and bounded(a, (1 << v) - 1):
                return const(0, w)
        if op == "urem" and v and bounded(a, v - 1):
            return a
        if op == "and" and (v & (v + 1)) == 0 and bounded(a, v):
            return a
    elif ac:
        v = a.a[0]
        if v == 0:
            if op in ("add", "or", "xor"):
                return b
            if op in ("mul", "and", "shl", "lshr", "ashr", "udiv", "urem"):
                if op in ("udiv", "urem") :
                    pass
                else:
                    return a
        if v == (1 << w) - 1:
            if op == "and":
                return b
            if op == "or":
                return a
        if v == 1 and op == "mul":
            return b
        if op in COMM:
            return bin_(op, b, a)
    if a is b:
        if op in ("and", "or"):
            return a
        if op in ("xor", "sub"):
            return const(0, w)
    # power-of-two strength reductions
    if bc:
        v = b.a[0]
        if v and v & (v - 1) == 0:
            k = v.bit_length() - 1
            if op == "mul":
                return bin_("shl", a, const(k, w))
            if op == "udiv":
                return bin_("lshr", a, const(k, w))
            if op == "urem":
                return bin_("and", a, const(v - 1, w))
    # push through terms with finitely many values
    if bc and a.leaves is not None:
        v = b.a[0]
        return map_const(a, lambda x: _fold(op, x, v, w), w, (op, "r", v, w))
    if ac and b.leaves is not None:
        v = a.a[0]
        return map_const(b, lambda x: _fold(op, v, x, w), w, (op, "l", v, w))
    if a.leaves is not None and b.leaves is not None and len(a.leaves) * len(b.leaves) <= PUSH_PRODUCT:
        k = (a.id, op, b.id)
        r = _mapmemo.get(k)
        if r is None:
            r = map2_const(a, b, lambda x, y: _fold(op, x, y, w), w)
            if r is not None:
                _mapmemo[k] = r
        if r is not None:
            return r
    # reassociation of constants
    if bc:
        if op == "add" and a.op == "add" and a.a[1].op == "const":
            return bin_("add", a.a[0], const(a.a[1].a[0] + b.a[0], w))
        if op == "sub":
            return bin_("add", a, const(-b.a[0], w))
        if op in ("and", "or", "xor") and a.op == op and a.a[1].op == "const":
            return bin_(op, a.a[0], const(_fold(op, a.a[1].a[0], b.a[0], w), w))
        if op in ("shl", "lshr") and a.op == op and a.a[1].op == "const":
            s = a.a[1].a[0] + b.a[0]
            return const(0, w) if s >= w else bin_(op, a.a[0], const(s, w))
        if op == "and" and a.op == "shl" and a.a[1].op == "const":
            if (b.a[0] >> a.a[1].a[0]) == 0:
                return const(0, w)
        if op in ("lshr", "shl") and a.op == "ite" and (a.a[1].op == "const" or a.a[2].op == "const"):
            return ite(a.a[0], bin_(op, a.a[1], b), bin_(op, a.a[2], b))
        if op == "and" and a.op == "ite" and (a.a[1].op == "const" or a.a[2].op == "const"):
            return ite(a.a[0], bin_(op, a.a[1], b), bin_(op, a.a[2], b))
    if op in COMM and not bc and a.id > b.id:
        a, b = b, a
    return _mk(op, w, (a, b))


def add(a, b):
    return bin_("add", a, b)


def sub(a, b):
    return bin_("sub", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 1:
        return not_(xor1(a, b))
    ac, bc = a.op == "const", b.op == "const"
    if ac and bc:
        return FALSE
    if ac:
        a, b = b, a
        ac, bc = bc, ac
    if bc:
        v = b.a[0]
        if a.leaves is not None:
            if v not in a.leaves:
                return FALSE
            return map_const(a, lambda x: int(x == v), 1, ("eq", v))
        if v > maxval(a) or v < minval(a):
            return lemma("eq", a, b, False)
        if a.op == "zext":
            return eq(a.a[0], const(v, a.a[0].w))
        if a.op == "ite":
            c, x, y = a.a
            if x.leaves is not None or y.leaves is not None or x.op == "ite" or y.op == "ite":
                k = (a.id, ("eq", v))
                r = _mapmemo.get(k)
                if r is None:
                    r = ite(c, eq(x, b), eq(y, b))
                    _mapmemo[k] = r
                return r
        if a.op == "add" and a.a[1].op == "const":
            return eq(a.a[0], const(v - a.a[1].a[0], a.w))
        if a.op == "xor" and a.a[1].op == "const":
            return eq(a.a[0], const(v ^ a.a[1].a[0], a.w))
        if a.op == "concat":
            hi, lo = a.a
            return and_(eq(hi, const(v >> lo.w, hi.w)), eq(lo, const(v, lo.w)))
    else:
        if a.leaves is not None and b.leaves is not None:
            if not (a.leaves & b.leaves):
                return FALSE
            k = (min(a.id, b.id), max(a.id, b.id), "eqg")
            r = _mapmemo.get(k)
            if r is None:
                A, B = gmap(a), gmap(b)
                r = disj(and_(A[v], B[v]) for v in A if v in B)
                _mapmemo[k] = r
            return r
        if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
            return eq(a.a[0], b.a[0])
    if not bc and a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def _cmp(op, a, b):
    w = a.w
    assert w == b.w
    if a is b:
        return boolc(op in ("ule", "sle"))
    ac, bc = a.op == "const", b.op == "const"

    def f(x, y):
        if op == "ult":
            return x < y
        if op == "ule":
            return x <= y
        if op == "slt":
            return sgn(x, w) < sgn(y, w)
        return sgn(x, w) <= sgn(y, w)

    if ac and bc:
        return boolc(f(a.a[0], b.a[0]))
    if w == 1:
        if op == "ult":
            return and_(not_(a), b)
        if op == "ule":
            return or_(not_(a), b)
        if op == "slt":
            return and_(a, not_(b))
        return or_(a, not_(b))
    if bc and a.leaves is not None:
        v = b.a[0]
        return map_const(a, lambda x: int(f(x, v)), 1, (op, "r", v))
    if ac and b.leaves is not None:
        v = a.a[0]
        return map_const(b, lambda x: int(f(v, x)), 1, (op, "l", v))
    if op == "ult":
        if bc and b.a[0] == 0:
            return FALSE
        if maxval(a) < minval(b):
            return lemma(op, a, b, True)
        if maxval(b) <= minval(a):
            return lemma(op, a, b, False)
        if bc and b.a[0] == 1:
            return eq(a, const(0, w))
        if ac and a.a[0] == 0:
            return not_(eq(b, a))
    if op == "ule":
        if ac and a.a[0] == 0:
            return TRUE
        if maxval(a) <= minval(b):
            return lemma(op, a, b, True)
        if maxval(b) < minval(a):
            return lemma(op, a, b, False)
        if bc and b.a[0] == 0:
            return eq(a, b)
    if op in ("slt", "sle"):
        # both known non-negative -> unsigned
        half = 1 << (w - 1)
        if bounded(a, half - 1) and bounded(b, half - 1):
            return (ult if op == "slt" else ule)(a, b)
    if (bc and a.op == "ite") or (ac and b.op == "ite"):
        k = (a.id, (op, b.id))
        r = _mapmemo.get(k)
        if r is None:
            if bc:
                r = ite(a.a[0], _cmp(op, a.a[1], b), _cmp(op, a.a[2], b))
            else:
                r = ite(b.a[0], _cmp(op, a, b.a[1]), _cmp(op, a, b.a[2]))
            _mapmemo[k] = r
        return r
    if a.leaves is not None and b.leaves is not None and len(a.leaves) * len(b.leaves) <= 1024:
        k = (a.id, op, b.id, "g")
        r = _mapmemo.get(k)
        if r is None:
            r = map2_const(a, b, lambda x, y: int(f(x, y)), 1)
            _mapmemo[k] = r
        return r
    if op in ("ult", "ule"):
        # normalise constant comparisons to strict/non strict on var
        if a.op == "zext" and b.op == "zext" and a.a[0].w == b.a[0].w:
            return _cmp(op, a.a[0], b.a[0])
        if a.op == "zext" and bc and b.a[0] < (1 << a.a[0].w):
            return _cmp(op, a.a[0], const(b.a[0], a.a[0].w))
        if b.op == "zext" and ac and a.a[0] < (1 << b.a[0].w):
            return _cmp(op, const(a.a[0], b.a[0].w), b.a[0])
    if op == "ule":
        if ac:  # k <= x  <=>  not (x < k) ; canonical: ult(k-1, x)
            if a.a[0] == 0:
                return TRUE
            return not_(_cmp("ule", b, const(a.a[0] - 1, w)))
        if bc:
            if b.a[0] == (1 << w) - 1:
                return TRUE
            return _mk("ule", 1, (a, b))
    if op == "ult" and bc:
        # x < k  -> x <= k-1
        return _mk("ule", 1, (a, const(b.a[0] - 1, w)))
    if op == "ult":
        return not_(_mk("ule", 1, (b, a)))
    if op == "slt":
        return not_(_mk("sle", 1, (b, a)))
    return _mk(op, 1, (a, b))


def ult(a, b):
    return _cmp("ult", a, b)


def ule(a, b):
    return _cmp("ule", a, b)


def slt(a, b):
    return _cmp("slt", a, b)


def sle(a, b):
    return _cmp("sle", a, b)


def bool_to_bv(a, w):
    return ite(a, const(1, w), const(0, w))


def zext(a, w):
    if a.w == w:
        return a
    assert w > a.w
    if a.op == "const":
        return const(a.a[0], w)
    if a.w == 1:
        return bool_to_bv(a, w)
    if a.leaves is not None:
        return map_const(a, lambda x: x, w, ("zext", w))
    if a.op == "zext":
        return zext(a.a[0], w)
    return _mk("zext", w, (a,))


def sext(a, w):
    if a.w == w:
        return a
    aw = a.w
    if a.op == "const":
        return const(sgn(a.a[0], aw), w)
    if aw == 1:
        return ite(a, const(-1, w), const(0, w))
    if a.leaves is not None:
        return map_const(a, lambda x: sgn(x, aw), w, ("sext", w))
    if bounded(a, (1 << (aw - 1)) - 1):
        return zext(a, w)
    return _mk("sext", w, (a,))


def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w:
        return a
    if a.op == "const":
        return const(a.a[0] >> lo, w)
    k = (a.id, hi, lo)
    r = _mapmemo.get(k)
    if r is None:
        r = _extract(a, hi, lo, w)
        _mapmemo[k] = r
    return r


def _extract(a, hi, lo, w):
    if a.leaves is not None:
        return map_const(a, lambda x: x >> lo, w, ("ext", hi, lo))
    if a.op == "extract":
        l0 = a.a[2]
        return extract(a.a[0], hi + l0, lo + l0)
    if a.op in ("zext", "sext"):
        iw = a.a[0].w
        if hi < iw:
            return extract(a.a[0], hi, lo)
        if a.op == "zext":
            if lo >= iw:
                return const(0, w)
            if lo == 0:
                return zext(a.a[0], w)
            return zext(extract(a.a[0], iw - 1, lo), w)
    if a.op == "concat":
        h, l = a.a
        if hi < l.w:
            return extract(l, hi, lo)
        if lo >= l.w:
            return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if w == 1 and lo == 0 and a.op in ("and", "or", "xor"):
        return bin_(a.op, extract(a.a[0], 0, 0), extract(a.a[1], 0, 0))
    if w == 1 and a.op in ("and", "or", "xor"):
        return bin_(a.op, extract(a.a[0], lo, lo), extract(a.a[1], lo, lo))
    if a.op == "ite":
        return ite(a.a[0], extract(a.a[1], hi, lo), extract(a.a[2], hi, lo))
    if a.op == "lshr" and a.a[1].op == "const":
        s = a.a[1].a[0]
        if hi + s < a.w:
            return extract(a.a[0], hi + s, lo + s)
        if lo + s >= a.w:
            return const(0, w)
    if a.op == "shl" and a.a[1].op == "const":
        s = a.a[1].a[0]
        if lo >= s:
            return extract(a.a[0], hi - s, lo - s)
        if hi < s:
            return const(0, w)
    if a.op in ("and", "or", "xor") and (a.a[1].op == "const"):
        return bin_(a.op, extract(a.a[0], hi, lo), const(a.a[1].a[0] >> lo, w))
    if lo == 0 and a.op in ("add", "mul", "sub") and w > 1:
        return bin_(a.op, extract(a.a[0], hi, 0), extract(a.a[1], hi, 0))
    return _mk("extract", w, (a, hi, lo))


def trunc(a, w):
    if a.w == w:
        return a
    return extract(a, w - 1, 0)


def concat(hi, lo):
    w = hi.w + lo.w
    if hi.op == "const" and lo.op == "const":
        return const(hi.a[0] << lo.w | lo.a[0], w)
    if hi.op == "const" and hi.a[0] == 0:
        return zext(lo, w)
    if hi.op == "extract" and lo.op == "extract" and hi.a[0] is lo.a[0] and hi.a[2] == lo.a[1] + 1:
        return extract(hi.a[0], hi.a[1], lo.a[2])
    if hi.leaves is not None and lo.leaves is not None and len(hi.leaves) * len(lo.leaves) <= 64:
        a, b = hi, lo
        return bin_("or", bin_("shl", zext(a, w), const(lo.w, w)), zext(b, w))
    return _mk("concat", w, (hi, lo))


def show(e, d=4):
    if e.op == "const":
        return str(e.a[0])
    if e.op == "var":
        return e.a[0]
    if d == 0:
        return "#%d" % e.id
    return "(%s %s)" % (e.op, " ".join(show(x, d - 1) if isinstance(x, E) else str(x) for x in e.a))


# ---------------------------------------------------------------- SMT-LIB output

OPN = {
    "add": "bvadd", "sub": "bvsub", "mul": "bvmul", "udiv": "bvudiv", "urem": "bvurem",
    "sdiv": "bvsdiv", "srem": "bvsrem", "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr",
    "and": "bvand", "or": "bvor", "xor": "bvxor",
    "ult": "bvult", "ule": "bvule", "slt": "bvslt", "sle": "bvsle",
}


def topo(roots):
    seen = set()
    order = []
    for r in roots:
        if r.id in seen:
            continue
        stack = [(r, 0)]
        while stack:
            n, i = stack.pop()
            if i == 0:
                if n.id in seen:
                    continue
                seen.add(n.id)
            kids = [x for x in n.a if isinstance(x, E)]
            if i < len(kids):
                stack.append((n, i + 1))
                k = kids[i]
                if k.id not in seen:
                    stack.append((k, 0))
            else:
                order.append(n)
    return order


def sort(w):
    return "Bool" if w == 1 else "(_ BitVec %d)" % w


def sname(s):
    return "|v:%s|" % s


def to_smt(roots):
    """-> (list of declaration/definition lines, {id: ref}, [vars])"""
    order = topo(roots)
    ref = {}
    lines = []
    vs = []

    def asbv(n):  # Bool as 1-bit vector
        return "(ite %s #b1 #b0)" % ref[n.id]

    for n in order:
        op = n.op
        if op == "const":
            if n.w == 1:
                ref[n.id] = "true" if n.a[0] else "false"
            else:
                ref[n.id] = "(_ bv%d %d)" % (n.a[0], n.w)
            continue
        if op == "var":
            vs.append(n)
            lines.append("(declare-const %s %s)" % (sname(n.a[0]), sort(n.w)))
            ref[n.id] = sname(n.a[0])
            continue
        if op == "zext":
            t = "((_ zero_extend %d) %s)" % (n.w - n.a[0].w, ref[n.a[0].id])
        elif op == "sext":
            t = "((_ sign_extend %d) %s)" % (n.w - n.a[0].w, ref[n.a[0].id])
        elif op == "extract":
            t = "((_ extract %d %d) %s)" % (n.a[1], n.a[2], ref[n.a[0].id])
            if n.w == 1:
                t = "(= %s #b1)" % t
        elif op == "concat":
            t = "(concat %s)" % " ".join(asbv(x) if x.w == 1 else ref[x.id] for x in n.a)
        elif op == "eq":
            t = "(= %s %s)" % (ref[n.a[0].id], ref[n.a[1].id])
        elif op == "ite":
            t = "(ite %s %s %s)" % tuple(ref[x.id] for x in n.a)
        elif op == "not":
            t = "(not %s)" % ref[n.a[0].id]
        elif n.w == 1 and op in ("and", "or", "xor"):
            t = "(%s %s %s)" % (op, ref[n.a[0].id], ref[n.a[1].id])
        else:
            t = "(%s %s)" % (OPN[op], " ".join(ref[x.id] for x in n.a))
        nm = "n%d" % n.id
        lines.append("(define-fun %s () %s %s)" % (nm, sort(n.w), t))
        ref[n.id] = nm
    return lines, ref, vs


def evaluate(roots, model):
    """Concrete evaluation under model {var name: int} (missing -> 0)."""
    val = {}
    for n in topo(roots):
        op = n.op
        if op == "const":
            v = n.a[0]
        elif op == "var":
            v = model.get(n.a[0], 0) & ((1 << n.w) - 1)
        elif op == "ite":
            v = val[n.a[1].id] if val[n.a[0].id] else val[n.a[2].id]
        elif op == "not":
            v = 1 - val[n.a[0].id]
        elif op == "eq":
            v = int(val[n.a[0].id] == val[n.a[1].id])
        elif op in ("ult", "ule", "slt", "sle"):
            x, y = val[n.a[0].id], val[n.a[1].id]
            if op[0] == "s":
                x, y = sgn(x, n.a[0].w), sgn(y, n.a[0].w)
            v = int(x < y if op[1:] == "lt" else x <= y)
        elif op == "zext":
            v = val[n.a[0].id]
        elif op == "sext":
            v = sgn(val[n.a[0].id], n.a[0].w) & ((1 << n.w) - 1)
        elif op == "extract":
            v = (val[n.a[0].id] >> n.a[2]) & ((1 << n.w) - 1)
        elif op == "concat":
            v = val[n.a[0].id] << n.a[1].w | val[n.a[1].id]
        elif n.w == 1:
            x, y = val[n.a[0].id], val[n.a[1].id]
            v = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
        else:
            v = _fold(op, val[n.a[0].id], val[n.a[1].id], n.w)
        val[n.id] = v
    return [val[r.id] for r in roots]
