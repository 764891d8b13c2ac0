"""Symbolic executor for LLVM IR with full path merging (bounded model construction).

Every path of the entry function is executed; states meeting at the same block
(and same loop iteration) are merged into one with if-then-else values, so the
result is a single set of verification conditions over the symbolic inputs.
"""
import heapq
import re

import expr as X
from expr import E, TRUE, FALSE
from llir import (Unsupported, parse_function, size_of, layout, PTR, VOID, Module)


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "Ptr(%r,%r)" % (self.obj, self.off)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class PC:
    __slots__ = ("parent", "lit", "depth", "_full")

    def __init__(self, parent, lit):
        self.parent = parent
        self.lit = lit
        self.depth = parent.depth + 1 if parent is not None else 0
        self._full = None


def pc_expr(pc):
    """Conjunction of all literals (cached, iterative)."""
    chain = []
    n = pc
    while n is not None and n._full is None:
        chain.append(n)
        n = n.parent
    acc = n._full if n is not None else TRUE
    for n in reversed(chain):
        if n.lit is not None:
            acc = X.and_(acc, n.lit)
        n._full = acc
    return acc


class State:
    __slots__ = ("pc", "env", "mem", "owned")

    def __init__(self, pc, env, mem):
        self.pc = pc
        self.env = env
        self.mem = mem
        self.owned = set()


class BoundExceeded(Exception):
    pass


C64 = lambda v: X.const(v, 64)
ZERO64 = C64(0)


class Engine:
    def __init__(self, module, feasible=None, log=None, max_iter=200000):
        self.m = module
        self.feasible = feasible
        self.log = log or (lambda *a: None)
        self.max_iter = max_iter
        self.nobj = 1
        self.objsize = {0: 0}
        self.objbase = {0: 0}
        self.nextbase = 0x10000
        self.globobj = {}
        self.fnobj = {}
        self.objfn = {}
        self.checks = []     # (id, guard-of-violation, kind)
        self.covers = []     # (id, guard)
        self.observes = []   # (id, guard, value)
        self.vars = {}       # name -> E
        self.draws = {}      # tag name -> [(path condition, E)]
        self.widths = {}
        self.var_order = []
        self.functions = {}
        self.instrs = 0
        self.merges = 0
        self.assumes = 0
        self.depth = 0
        self.root_mem = {}
        self.undef_n = 0

    # ------------------------------------------------------------ objects
    def new_obj(self, size):
        o = self.nobj
        self.nobj += 1
        self.objsize[o] = size
        b = self.nextbase
        self.objbase[o] = b
        self.nextbase = (b + size + 64 + 15) // 16 * 16
        return o

    def fn_ptr(self, name):
        o = self.fnobj.get(name)
        if o is None:
            o = self.new_obj(16)
            self.fnobj[name] = o
            self.objfn[o] = name
        return Ptr(o, ZERO64)

    def resolve_alias(self, name):
        while name in self.m.aliases:
            name = self.m.aliases[name]
        return name

    def global_ptr(self, name, mod, st):
        name = self.resolve_alias(name)
        if name in self.m.funcs or name in self.m.decls and (mod, name) not in self.m.globals:
            return self.fn_ptr(name)
        key = (mod, name)
        if key in self.m.globals and re.search(r'\bexternal\b', self.m.globals[key].split('constant')[0].split('global')[0]):
            key = (self.m.extern_globals.get(name), name)
        if key not in self.m.globals:
            key = (self.m.extern_globals.get(name), name)
            if key not in self.m.globals:
                raise Unsupported('unknown global ' + name)
        o = self.globobj.get(key)
        if o is None:
            is_const, ty, v = self.m.parse_global(key)
            if v is None:
                raise Unsupported('external global ' + name)
            o = self.new_obj(size_of(ty))
            self.globobj[key] = o
            cells = {}
            self.init_cells(cells, 0, ty, v, key[0], st)
            self.root_mem[o] = cells
            if not is_const:
                raise Unsupported('mutable global ' + name)
        return Ptr(o, ZERO64)

    def init_cells(self, cells, off, ty, v, mod, st):
        k = v[0]
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, X.const(b, 8))
            return
        if k == 'zero':
            n = size_of(ty)
            if n:
                cells[off] = (n, X.const(0, 8 * n))
            return
        if k == 'undef':
            return
        if k == 'agg':
            if ty[0] == 's':
                offs, _ = layout(ty)
                for o, (t, x) in zip(offs, v[1]):
                    self.init_cells(cells, off + o, t, x, mod, st)
            elif ty[0] == 'a':
                sz = size_of(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.init_cells(cells, off + i * sz, t, x, mod, st)
            else:
                raise Unsupported('global vector')
            return
        val = self.const_value(ty, v, mod, st)
        n = size_of(ty)
        if isinstance(val, E) and val.w != n * 8:
            val = X.zext(val, n * 8)
        cells[off] = (n, val)

    # ------------------------------------------------------------ values
    def const_value(self, ty, v, mod, st):
        k = v[0]
        if k == 'int':
            return X.const(v[1], ty[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return UNDEF
        if k == 'glob':
            return self.global_ptr(v[1], mod, st)
        if k == 'cgep':
            base = self.const_value(PTR, v[2], mod, st)
            return self.gep(v[1], base, [(t, self.const_value(t, x, mod, st)) for t, x in v[3]])
        if k == 'ccast':
            x = self.const_value(v[2], v[3], mod, st)
            return self.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            a = self.const_value(v[2], v[3], mod, st)
            b = self.const_value(v[2], v[4], mod, st)
            return X.bin_(v[1], a, b)
        if k == 'agg':
            return tuple(self.const_value(t, x, mod, st) for t, x in v[1])
        if k == 'splat':
            x = self.const_value(v[1], v[2], mod, st)
            return tuple([x] * ty[1])
        if k == 'bytes':
            return tuple(X.const(b, 8) for b in v[1])
        raise Unsupported('const %r' % (v,))

    def zero(self, ty):
        k = ty[0]
        if k == 'i':
            return X.const(0, ty[1])
        if k == 'ptr':
            return Ptr(0, ZERO64)
        if k == 's':
            return tuple(self.zero(t) for t in ty[2])
        if k in ('a', 'v'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %r' % (ty,))

    def ev(self, st, ty, v, mod):
        k = v[0]
        if k == 'loc':
            return st.env[v[1]]
        if k == 'int':
            return X.const(v[1], ty[1])
        return self.const_value(ty, v, mod, st)

    def as_int(self, v, w):
        if v is UNDEF:
            return X.const(0, w)
        if isinstance(v, E):
            return v
        if isinstance(v, (Ptr, PIte)):
            return self.ptr_int(v)
        raise Unsupported('as_int %r' % (v,))

    def ptr_int(self, p):
        if isinstance(p, PIte):
            return X.ite(p.c, self.ptr_int(p.a), self.ptr_int(p.b))
        if p is UNDEF:
            return ZERO64
        if isinstance(p, E):
            return p
        return X.add(C64(self.objbase[p.obj]), p.off)

    def int_ptr(self, e):
        if isinstance(e, (Ptr, PIte)):
            return e
        if e.op == 'const':
            v = e.a[0]
            if v < 0x10000:
                return Ptr(0, e)
            for o, b in self.objbase.items():
                if o and b <= v <= b + self.objsize[o]:
                    return Ptr(o, C64(v - b))
            return Ptr(0, e)
        if e.op == 'ite':
            return self.merge_val(e.a[0], self.int_ptr(e.a[1]), self.int_ptr(e.a[2]))
        return Ptr(0, e)

    def as_ptr(self, v):
        if v is UNDEF:
            return Ptr(0, ZERO64)
        if isinstance(v, E):
            return self.int_ptr(v)
        return v

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        ea, eb = isinstance(a, E), isinstance(b, E)
        if ea and eb:
            return X.ite(c, a, b)
        if isinstance(a, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if ea:
            a = self.int_ptr(a)
        if eb:
            b = self.int_ptr(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if a.off is b.off:
                return a
            return Ptr(a.obj, X.ite(c, a.off, b.off))
        return self.merge_ptr(c, a, b)

    def merge_ptr(self, c, a, b):
        """Choice between pointers, kept as a chain with one alternative per object."""
        if a is UNDEF or b is UNDEF or isinstance(a, E) or isinstance(b, E):
            return PIte(c, a, b)
        fa, fb = self.flat_ptr(a), self.flat_ptr(b)
        if fa is None or fb is None:
            return PIte(c, a, b)
        alts = {}
        for g, p in fa:
            alts[p.obj] = [g, p, FALSE, None]
        for g, p in fb:
            e = alts.get(p.obj)
            if e is None:
                alts[p.obj] = [FALSE, None, g, p]
            else:
                e[2], e[3] = g, p
        lst = []
        for ga, pa, gb, pb in alts.values():
            if pa is None:
                lst.append((X.and_(X.not_(c), gb), pb))
            elif pb is None:
                lst.append((X.and_(c, ga), pa))
            else:
                p = pa if pa.off is pb.off else Ptr(pa.obj, X.ite(c, pa.off, pb.off))
                lst.append((X.ite(c, ga, gb), p))
        r = lst[-1][1]
        for g, p in reversed(lst[:-1]):
            r = PIte(g, p, r)
        return r

    def flat_ptr(self, p):
        """[(absolute guard, Ptr)] with distinct objects, or None"""
        out = []
        acc = TRUE
        seen = set()
        while isinstance(p, PIte):
            if not isinstance(p.a, Ptr) or p.a.obj in seen:
                return None
            seen.add(p.a.obj)
            out.append((X.and_(acc, p.c), p.a))
            acc = X.and_(acc, X.not_(p.c))
            p = p.b
        if not isinstance(p, Ptr) or p.obj in seen:
            return None
        out.append((acc, p))
        return out

    # ------------------------------------------------------------ memory
    def cells(self, st, o):
        c = st.mem.get(o)
        if c is None:
            c = self.root_mem.get(o)
            if c is None:
                raise Unsupported('access to dead or null object %r (size %r)' % (o, self.objsize.get(o)))
        return c

    def wcells(self, st, o):
        if o in st.owned:
            return st.mem[o]
        if o not in st.mem:
            raise Unsupported('write to constant/dead object')
        c = dict(st.mem[o])
        st.mem[o] = c
        st.owned.add(o)
        return c

    def piece(self, v, size, lo, n):
        """bytes [lo, lo+n) of a cell value of `size` bytes"""
        if lo == 0 and n == size:
            return v
        if v is UNDEF:
            return UNDEF
        if not isinstance(v, E):
            v = self.ptr_int(v)
        return X.extract(v, (lo + n) * 8 - 1, lo * 8)

    def read_cells(self, cells, off, n):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []
        pos = off
        end = off + n
        cand = sorted(o for o in cells if o < end and o + cells[o][0] > off)
        anydef = False
        for o in cand:
            s, v = cells[o]
            if o > pos:
                parts.append((o - pos, UNDEF))
                pos = o
            lo = pos - o
            m = min(o + s, end) - pos
            pv = self.piece(v, s, lo, m)
            if pv is not UNDEF:
                anydef = True
            parts.append((m, pv))
            pos += m
        if pos < end:
            parts.append((end - pos, UNDEF))
        if not anydef:
            return UNDEF
        acc = None
        for m, v in parts:
            if v is UNDEF:
                v = X.const(0, 8 * m)
            elif not isinstance(v, E):
                v = self.ptr_int(v)
            acc = v if acc is None else X.concat(v, acc)
        return acc

    def write_cells(self, cells, off, n, val):
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, val)
            return
        end = off + n
        if len(cells) < 32:
            cand = [o for o in cells if o < end and o + cells[o][0] > off]
        else:
            cand = [o for o in cells if o < end and o + cells[o][0] > off]
        for o in cand:
            s, v = cells.pop(o)
            if o < off:
                cells[o] = (off - o, self.piece(v, s, 0, off - o))
            if o + s > end:
                cells[end] = (o + s - end, self.piece(v, s, end - o, o + s - end))
        cells[off] = (n, val)

    def offsets(self, st, obj, off, n):
        """candidate constant offsets for a symbolic offset: list of ints"""
        size = self.objsize[obj]
        if off.leaves is not None:
            return [v for v in sorted(off.leaves) if v + n <= size]
        # known alignment of the offset
        tz, base = self.stride(off)
        out = []
        v = base % tz if tz else 0
        while v + n <= size:
            out.append(v)
            v += tz
        if len(out) > 4096:
            raise Unsupported('symbolic offset with %d candidates' % len(out))
        return out

    def stride(self, e):
        memo = self.__dict__.setdefault('stride_memo', {})
        r = memo.get(e)
        if r is None:
            r = memo[e] = self.stride_(e)
        return r

    def stride_(self, e):
        """(step, residue): e = residue mod step (step a power of two)"""
        if e.op == 'const':
            return (1 << 20, e.a[0])
        if e.op == 'add':
            s1, r1 = self.stride(e.a[0])
            s2, r2 = self.stride(e.a[1])
            s = min(s1, s2)
            return (s, (r1 + r2) % s)
        if e.op == 'shl' and e.a[1].op == 'const':
            s1, r1 = self.stride(e.a[0])
            k = e.a[1].a[0]
            return (min(s1 << k, 1 << 20), (r1 << k) % min(s1 << k, 1 << 20))
        if e.op == 'mul' and e.a[1].op == 'const':
            v = e.a[1].a[0]
            low = v & -v
            return (low, 0)
        if e.op == 'ite':
            s1, r1 = self.stride(e.a[1])
            s2, r2 = self.stride(e.a[2])
            s = min(s1, s2)
            while s > 1 and r1 % s != r2 % s:
                s //= 2
            return (s, r1 % s)
        if e.op == 'and' and e.a[1].op == 'const':
            m = e.a[1].a[0]
            if m:
                low = m & -m
                return (low, 0)
        if e.op == 'zext':
            s, r = self.stride(e.a[0])
            s = min(s, 1 << (e.a[0].w - 1)) if s > (1 << (e.a[0].w - 1)) else s
            return (s, r % s)
        return (1, 0)

    def load_raw(self, st, p, n):
        if isinstance(p, PIte):
            a = self.load_try(st, p.a, n)
            b = self.load_try(st, p.b, n)
            return self.merge_val(p.c, a, b)
        if p.off.op == 'const':
            return self.read_cells(self.cells(st, p.obj), p.off.a[0], n)
        cells = self.cells(st, p.obj)
        cand = self.offsets(st, p.obj, p.off, n)
        r = UNDEF
        for v in reversed(cand):
            c = X.eq(p.off, C64(v))
            if c is FALSE:
                continue
            x = self.read_cells(cells, v, n)
            r = self.merge_val(c, x, r)
        return r

    def load_try(self, st, p, n):
        # alternatives pointing at null / one-past objects are infeasible
        if isinstance(p, Ptr) and (p.obj == 0 or p.obj in self.objfn):
            return UNDEF
        return self.load_raw(st, p, n)

    def store_raw(self, st, p, n, val, guard=TRUE):
        if isinstance(p, PIte):
            self.store_raw(st, p.a, n, val, X.and_(guard, p.c))
            self.store_raw(st, p.b, n, val, X.and_(guard, X.not_(p.c)))
            return
        if guard is not TRUE and (p.obj == 0):
            return
        if guard is FALSE:
            return
        cells = self.wcells(st, p.obj)
        if p.off.op == 'const':
            o = p.off.a[0]
            if guard is not TRUE:
                val = self.merge_val(guard, val, self.read_cells(cells, o, n))
            self.write_cells(cells, o, n, val)
            return
        for v in self.offsets(st, p.obj, p.off, n):
            c = X.and_(guard, X.eq(p.off, C64(v)))
            if c is FALSE:
                continue
            self.write_cells(cells, v, n, self.merge_val(c, val, self.read_cells(cells, v, n)))

    def load(self, st, ty, p):
        p = self.as_ptr(p)
        k = ty[0]
        if k == 'i':
            n = size_of(ty)
            v = self.load_raw(st, p, n)
            if v is UNDEF:
                return UNDEF
            if not isinstance(v, E):
                v = self.ptr_int(v)
            return X.trunc(v, ty[1]) if v.w != ty[1] else v
        if k == 'ptr':
            v = self.load_raw(st, p, 8)
            if v is UNDEF:
                return UNDEF
            return self.as_ptr(v)
        if k == 's':
            offs, _ = layout(ty)
            return tuple(self.load(st, t, self.padd(p, o)) for t, o in zip(ty[2], offs))
        if k in ('a', 'v'):
            if k == 'v' and (ty[2][0] == 'i' and ty[2][1] % 8):
                raise Unsupported('vector of odd ints')
            s = size_of(ty[2])
            return tuple(self.load(st, ty[2], self.padd(p, i * s)) for i in range(ty[1]))
        raise Unsupported('load %r' % (ty,))

    def store(self, st, ty, v, p):
        p = self.as_ptr(p)
        k = ty[0]
        if k == 'i' or k == 'ptr':
            n = size_of(ty)
            if isinstance(v, E) and v.w != n * 8:
                v = X.zext(v, n * 8)
            self.store_raw(st, p, n, v)
            return
        if k == 's':
            offs, _ = layout(ty)
            for i, (t, o) in enumerate(zip(ty[2], offs)):
                self.store(st, t, v if v is UNDEF else v[i], self.padd(p, o))
            return
        if k in ('a', 'v'):
            if k == 'v' and (ty[2][0] == 'i' and ty[2][1] % 8):
                raise Unsupported('vector of odd ints')
            s = size_of(ty[2])
            for i in range(ty[1]):
                self.store(st, ty[2], v if v is UNDEF else v[i], self.padd(p, i * s))
            return
        raise Unsupported('store %r' % (ty,))

    def padd(self, p, n):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, n), self.padd(p.b, n))
        e = n if isinstance(n, E) else C64(n)
        return Ptr(p.obj, X.add(p.off, e))

    def gep(self, bt, base, idx):
        base = self.as_ptr(base)
        off = ZERO64
        ty = bt
        for i, (t, v) in enumerate(idx):
            v = self.as_int(v, t[1])
            v = X.sext(v, 64) if v.w < 64 else X.trunc(v, 64)
            if i == 0:
                off = X.add(off, X.bin_('mul', v, C64(size_of(ty))))
            elif ty[0] == 's':
                k = v.a[0]
                offs, _ = layout(ty)
                off = X.add(off, C64(offs[k]))
                ty = ty[2][k]
            else:
                ty = ty[2]
                off = X.add(off, X.bin_('mul', v, C64(size_of(ty))))
        return self.padd(base, off)

    def memcpy(self, st, dst, src, n):
        dst = self.as_ptr(dst)
        src = self.as_ptr(src)
        if n == 0:
            return
        if isinstance(src, Ptr) and src.off.op == 'const' and isinstance(dst, Ptr) and dst.off.op == 'const':
            sc = self.cells(st, src.obj)
            so, do = src.off.a[0], dst.off.a[0]
            items = []
            for o in sorted(o for o in sc if o < so + n and o + sc[o][0] > so):
                s, v = sc[o]
                lo = max(o, so)
                hi = min(o + s, so + n)
                items.append((lo - so, hi - lo, self.piece(v, s, lo - o, hi - lo)))
            dc = self.wcells(st, dst.obj)
            self.write_cells(dc, do, n, UNDEF)
            if n != 0:
                del dc[do]
            for o, s, v in items:
                dc[do + o] = (s, v)
            return
        # general: bytewise-ish copy in chunks
        step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
        vals = [self.load_raw(st, self.padd(src, i), step) for i in range(0, n, step)]
        for i, v in zip(range(0, n, step), vals):
            self.store_raw(st, self.padd(dst, i), step, v)

    # ------------------------------------------------------------ CFG analysis
    def analyse(self, fn):
        if hasattr(fn, 'wto'):
            return
        succ = {}
        for b in fn.order:
            t = fn.blocks[b][-1]
            if t.op == 'br':
                s = [t.x]
            elif t.op == 'cbr':
                s = [t.x[1], t.x[2]]
            elif t.op == 'switch':
                s = [t.x[2]] + [c[1] for c in t.x[3]]
            else:
                s = []
            succ[b] = list(dict.fromkeys(s))
        fn.succ = succ
        # Weak topological order by recursive SCC decomposition
        pos = {}
        comps = {}  # block -> tuple of component heads (outer..inner)
        counter = [0]

        def rpo(nodes, entry):
            seen = set()
            out = []
            stack = [(entry, iter(succ[entry]))]
            seen.add(entry)
            while stack:
                n, it = stack[-1]
                adv = False
                for s in it:
                    if s in nodes and s not in seen:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        adv = True
                        break
                if not adv:
                    out.append(n)
                    stack.pop()
            out.reverse()
            return out

        def sccs(nodes, order, removed):
            # Tarjan restricted to nodes, edges into `removed` head ignored
            idx = {}
            low = {}
            onst = set()
            stk = []
            res = []
            c = [0]
            for r in order:
                if r in idx:
                    continue
                work = [(r, iter(succ[r]))]
                idx[r] = low[r] = c[0]
                c[0] += 1
                stk.append(r)
                onst.add(r)
                while work:
                    n, it = work[-1]
                    adv = False
                    for s in it:
                        if s not in nodes or s == removed:
                            continue
                        if s not in idx:
                            idx[s] = low[s] = c[0]
                            c[0] += 1
                            stk.append(s)
                            onst.add(s)
                            work.append((s, iter(succ[s])))
                            adv = True
                            break
                        elif s in onst:
                            low[n] = min(low[n], idx[s])
                    if not adv:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[n])
                        if low[n] == idx[n]:
                            comp = []
                            while True:
                                y = stk.pop()
                                onst.discard(y)
                                comp.append(y)
                                if y == n:
                                    break
                            res.append(comp)
            res.reverse()  # topological order
            return res

        def process(nodes, entry, removed, ctx):
            order = rpo(nodes, entry)
            rank = {b: i for i, b in enumerate(order)}
            for comp in sccs(set(order), order, removed):
                if len(comp) == 1:
                    b = comp[0]
                    selfloop = b in succ[b] and b != removed
                    if selfloop:
                        comps[b] = ctx + (b,)
                    else:
                        comps[b] = ctx
                    pos[b] = counter[0]
                    counter[0] += 1
                else:
                    head = min(comp, key=lambda b: rank[b])
                    sub = set(comp)
                    pos[head] = counter[0]
                    comps[head] = ctx + (head,)
                    counter[0] += 1
                    rest = sub - {head}
                    # order the rest, starting from successors of head
                    process_rest(rest, head, ctx + (head,))

        def process_rest(nodes, head, ctx):
            # pseudo entry: head, edges back into head removed
            seen = set()
            post = []
            for s0 in succ[head]:
                if s0 not in nodes or s0 in seen:
                    continue
                seen.add(s0)
                stack = [(s0, iter(succ[s0]))]
                while stack:
                    n, it = stack[-1]
                    adv = False
                    for s in it:
                        if s in nodes and s not in seen:
                            seen.add(s)
                            stack.append((s, iter(succ[s])))
                            adv = True
                            break
                    if not adv:
                        post.append(n)
                        stack.pop()
            order = list(reversed(post))
            rank = {b: i for i, b in enumerate(order)}
            for comp in sccs(set(order), order, head):
                if len(comp) == 1 and not (comp[0] in succ[comp[0]]):
                    pos[comp[0]] = counter[0]
                    counter[0] += 1
                    comps[comp[0]] = ctx
                else:
                    h = min(comp, key=lambda b: rank[b])
                    pos[h] = counter[0]
                    counter[0] += 1
                    comps[h] = ctx + (h,)
                    process_rest(set(comp) - {h}, h, ctx + (h,))

        process(set(fn.order), fn.entry, None, ())
        fn.pos = pos
        fn.comps = comps
        fn.wto = True
        # liveness
        use = {}
        defs = {}
        phiuse = {}  # (pred, block) -> set

        def vals(ins):
            op, x = ins.op, ins.x
            if op == 'bin' or op == 'icmp':
                return [x[2], x[3]]
            if op == 'cast':
                return [x[2]]
            if op == 'select':
                return [x[1], x[3], x[4]]
            if op == 'load':
                return [x[1]]
            if op == 'store':
                return [x[1], x[2]]
            if op == 'gep':
                return [x[1]] + [v for _, v in x[2]]
            if op == 'cbr':
                return [x[0]]
            if op == 'switch':
                return [x[1]]
            if op == 'ret':
                return [x[1]] if x else []
            if op == 'extractvalue':
                return [x[1]]
            if op == 'insertvalue':
                return [x[1], x[3]]
            if op == 'call':
                return [x[1]] + [v for _, v in x[2] if v is not None]
            if op in ('extractelement', 'insertelement', 'shufflevector'):
                return [x[1], x[3]] + [v for _, v in x[4]]
            return []

        def locs(v, out):
            if v[0] == 'loc':
                out.add(v[1])
            elif v[0] == 'agg':
                for _, y in v[1]:
                    locs(y, out)
            elif v[0] == 'splat':
                locs(v[2], out)

        for b in fn.order:
            u = set()
            d = set()
            for ins in fn.blocks[b]:
                if ins.op == 'phi':
                    d.add(ins.dst)
                    for v, pred in ins.x[1]:
                        s = phiuse.setdefault((pred, b), set())
                        locs(v, s)
                    continue
                s = set()
                for v in vals(ins):
                    locs(v, s)
                u |= s - d
                if ins.dst:
                    d.add(ins.dst)
            use[b] = u
            defs[b] = d
        livein = {b: set(use[b]) for b in fn.order}
        changed = True
        rev = sorted(fn.order, key=lambda b: -pos.get(b, 0))
        while changed:
            changed = False
            for b in rev:
                lo = set()
                for s in succ[b]:
                    lo |= livein[s]
                    lo |= phiuse.get((b, s), set())
                ni = use[b] | (lo - defs[b])
                if len(ni) != len(livein[b]):
                    livein[b] = ni
                    changed = True
        # livein includes values live through but not the block's own phis
        phidef = {b: [i for i in fn.blocks[b] if i.op == 'phi'] for b in fn.order}
        fn.phis = phidef
        fn.live = {b: livein[b] - {i.dst for i in phidef[b]} for b in fn.order}
        fn.body_ins = {b: [i for i in fn.blocks[b] if i.op not in ('phi', 'nop')] for b in fn.order}

    # ------------------------------------------------------------ merging
    def merge_states(self, sts):
        if len(sts) == 1:
            return sts[0]
        self.merges += len(sts) - 1
        # LCA
        nodes = [s.pc for s in sts]
        d = min(n.depth for n in nodes)
        for i, n in enumerate(nodes):
            while n.depth > d:
                n = n.parent
            nodes[i] = n
        while any(n is not nodes[0] for n in nodes):
            nodes = [n.parent for n in nodes]
        lca = nodes[0]
        items = []
        for s in sts:
            l = []
            n = s.pc
            while n is not lca:
                l.append(n.lit)
                n = n.parent
            l.reverse()
            items.append((l, s))
        cond, tree = self.build(items, 0)
        pc = lca if cond is TRUE else PC(lca, cond)
        # merge env
        first = sts[0]
        env = {}
        for k, v in first.env.items():
            same = True
            for s in sts[1:]:
                o = s.env.get(k, None)
                if o is not v:
                    same = False
                    break
            if same:
                env[k] = v
            else:
                env[k] = self.tree_val(tree, lambda s: s.env.get(k, UNDEF))
        for s in sts[1:]:
            for k in s.env:
                if k not in env:
                    env[k] = self.tree_val(tree, lambda t: t.env.get(k, UNDEF))
        mem = {}
        allk = set()
        for s in sts:
            allk.update(s.mem)
        for o in allk:
            v = first.mem.get(o)
            if all(s.mem.get(o) is v for s in sts):
                mem[o] = v
            else:
                mem[o] = self.tree_mem(tree, o)
        return State(pc, env, mem)

    def build(self, items, d):
        if len(items) == 1:
            l, s = items[0]
            acc = TRUE
            for x in l[d:]:
                acc = X.and_(acc, x)
            return acc, s
        groups = {}
        ended = []
        for it in items:
            if len(it[0]) <= d:
                ended.append(it)
            else:
                groups.setdefault(it[0][d].id, []).append(it)
        gl = list(groups.values())
        if not ended and len(gl) == 1:
            c, t = self.build(gl[0], d + 1)
            return X.and_(gl[0][0][0][d], c), t
        if not ended and len(gl) == 2 and X.is_neg(gl[0][0][0][d], gl[1][0][0][d]):
            c = gl[0][0][0][d]
            ca, ta = self.build(gl[0], d + 1)
            cb, tb = self.build(gl[1], d + 1)
            return X.ite(c, ca, cb), (c, ta, tb)
        # chain; look for a complementary pair first
        cond = FALSE
        tree = None
        parts = []
        for g in gl:
            c, t = self.build(g, d + 1)
            parts.append((X.and_(g[0][0][d], c), t))
        for it in ended:
            parts.append((TRUE, it[1]))
        cond, tree = parts[-1]
        for c, t in reversed(parts[:-1]):
            cond = X.or_(c, cond)
            tree = (c, t, tree)
        return cond, tree

    def tree_val(self, t, f):
        if isinstance(t, State):
            return f(t)
        return self.merge_val(t[0], self.tree_val(t[1], f), self.tree_val(t[2], f))

    def tree_mem(self, t, o):
        if isinstance(t, State):
            return t.mem.get(o)
        a = self.tree_mem(t[1], o)
        b = self.tree_mem(t[2], o)
        return self.merge_cells(t[0], a, b)

    def merge_cells(self, c, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        bad = set()
        for o, (s, v) in a.items():
            y = b.get(o)
            if y is not None and y[0] == s:
                out[o] = (s, v if v is y[1] else self.merge_val(c, v, y[1]))
            else:
                bad.add(o)
        rest = [o for o in b if o not in out]
        if bad or rest:
            # elementary intervals of the mismatching parts
            pts = set()
            for o in bad:
                pts.add(o)
                pts.add(o + a[o][0])
            for o in rest:
                pts.add(o)
                pts.add(o + b[o][0])
            # cells already matched never overlap the rest
            pts = sorted(pts)
            for s, e in zip(pts, pts[1:]):
                if s in out:
                    continue
                va = self.read_cells(a, s, e - s)
                vb = self.read_cells(b, s, e - s)
                if va is UNDEF and vb is UNDEF:
                    continue
                # skip intervals fully inside matched cells
                if any(m <= s and s < m + out[m][0] for m in out):
                    continue
                if va is not UNDEF and vb is not UNDEF and isinstance(va, E) != isinstance(vb, E) and e - s != 8:
                    va = self.as_int(va, 8 * (e - s))
                    vb = self.as_int(vb, 8 * (e - s))
                out[s] = (e - s, self.merge_val(c, va, vb))
        return out

    # ------------------------------------------------------------ execution
    def run(self, name):
        fn = self.m.funcs['@' + name]
        st = State(PC(None, None), {}, {})
        r = self.call(fn, [], st)
        return r

    def assume_pc(self, st, lit):
        """extend path condition; returns False if infeasible"""
        if lit is TRUE:
            return True
        if lit is FALSE:
            return False
        n = st.pc
        k = 0
        while n is not None and n.lit is not None and k < 48:
            if n.lit is lit:
                return True
            if X.is_neg(n.lit, lit):
                return False
            n = n.parent
            k += 1
        st.pc = PC(st.pc, lit)
        return True

    def call(self, fn, args, st):
        """execute fn; returns (state, value) or None when it never returns. st.env is replaced."""
        parse_function(fn)
        self.analyse(fn)
        self.functions[fn.name] = self.functions.get(fn.name, 0) + 1
        self.depth += 1
        if self.depth > 200:
            raise Unsupported('recursion depth')
        saved_env = st.env
        env = {}
        for (t, n), v in zip(fn.params, args):
            env[n] = v
        st.env = env
        frame = {'allocas': [], 'fn': fn, 'sym': set(), 'rets': []}
        pend = {}
        heap = []

        def key_of(b, iters):
            k = []
            for h, it in zip(fn.comps[b], iters):
                k.append(fn.pos[h])
                k.append(it)
            k.append(fn.pos[b])
            return tuple(k)

        def push(b, iters, s):
            k = key_of(b, iters)
            if k in pend:
                pend[k][2].append(s)
            else:
                pend[k] = (b, iters, [s])
                heapq.heappush(heap, k)

        push(fn.entry, tuple(0 for _ in fn.comps[fn.entry]), st)
        while heap:
            k = heapq.heappop(heap)
            b, iters, sts = pend.pop(k)
            s = self.merge_states(sts)
            comps = fn.comps[b]
            if comps and comps[-1] == b:
                it = iters[-1]
                if it > 2 and (it & (it - 1)) == 0 and b in frame['sym']:
                    if self.feasible is not None and not self.feasible(pc_expr(s.pc)):
                        continue
                if it > self.max_iter:
                    raise BoundExceeded('loop in %s exceeds %d iterations' % (fn.pretty, self.max_iter))
            outs = self.exec_block(fn, b, s, frame)
            multi = len(outs) > 1
            for tgt, ns in outs:
                tc = fn.comps[tgt]
                ni = []
                for j, h in enumerate(tc):
                    if j < len(comps) and comps[j] == h:
                        if tgt == h:
                            ni.append(iters[j] + 1)
                            break
                        ni.append(iters[j])
                    else:
                        break
                while len(ni) < len(tc):
                    ni.append(0)
                push(tgt, tuple(ni), ns)
                if multi:
                    # leaving a loop under a symbolic condition
                    for h in comps:
                        if h not in tc:
                            frame['sym'].add(h)
        self.depth -= 1
        rets = frame['rets']
        if not rets:
            return None
        for s, v in rets:
            s.env = {'ret': v}
        r = self.merge_states([s for s, _ in rets])
        v = r.env['ret']
        for o in frame['allocas']:
            r.mem.pop(o, None)
            r.owned.discard(o)
        r.env = saved_env
        return r, v

    def edge(self, fn, b, tgt, st, last):
        """state for taking edge b->tgt"""
        env = st.env
        live = fn.live[tgt]
        ne = {}
        for k in live:
            v = env.get(k)
            if v is not None:
                ne[k] = v
        for ph in fn.phis[tgt]:
            t, inc = ph.x
            for v, pred in inc:
                if pred == b:
                    ne[ph.dst] = self.ev(st, t, v, fn.mod)
                    break
            else:
                raise Unsupported('phi')
        if last:
            st.env = ne
            return st
        n = State(st.pc, ne, dict(st.mem))
        # both sides now share cells
        st.owned = set()
        return n

    def exec_block(self, fn, b, st, frame):
        mod = fn.mod
        ev = self.ev
        for ins in fn.body_ins[b]:
            self.instrs += 1
            op = ins.op
            x = ins.x
            if op == 'bin':
                o, t, a, c = x
                if t[0] == 'v':
                    va, vb = ev(st, t, a, mod), ev(st, t, c, mod)
                    r = tuple(self.binop(o, t[2], p, q) for p, q in zip(self.vec(va, t), self.vec(vb, t)))
                else:
                    r = self.binop(o, t, ev(st, t, a, mod), ev(st, t, c, mod))
                st.env[ins.dst] = r
            elif op == 'icmp':
                o, t, a, c = x
                if t[0] == 'v':
                    va, vb = ev(st, t, a, mod), ev(st, t, c, mod)
                    r = tuple(self.icmp(o, t[2], p, q) for p, q in zip(self.vec(va, t), self.vec(vb, t)))
                else:
                    r = self.icmp(o, t, ev(st, t, a, mod), ev(st, t, c, mod))
                st.env[ins.dst] = r
            elif op == 'load':
                st.env[ins.dst] = self.load(st, x[0], ev(st, PTR, x[1], mod))
            elif op == 'store':
                self.store(st, x[0], ev(st, x[0], x[1], mod), ev(st, PTR, x[2], mod))
            elif op == 'gep':
                st.env[ins.dst] = self.gep(x[0], ev(st, PTR, x[1], mod), [(t, ev(st, t, v, mod)) for t, v in x[2]])
            elif op == 'cast':
                st.env[ins.dst] = self.cast(x[0], x[1], ev(st, x[1], x[2], mod), x[3])
            elif op == 'select':
                ct, c, t, a, bb = x
                cv = ev(st, ct, c, mod)
                va, vb = ev(st, t, a, mod), ev(st, t, bb, mod)
                if ct[0] == 'v':
                    r = tuple(self.merge_val(self.as_int(p, 1), q, s) for p, q, s in zip(self.vec(cv, ct), self.vec(va, t), self.vec(vb, t)))
                elif cv is UNDEF:
                    r = va
                else:
                    r = self.merge_val(cv, va, vb)
                st.env[ins.dst] = r
            elif op == 'extractvalue':
                v = ev(st, x[0], x[1], mod)
                for i in x[2]:
                    if v is UNDEF:
                        break
                    v = v[i]
                st.env[ins.dst] = v
            elif op == 'insertvalue':
                v = ev(st, x[0], x[1], mod)
                w = ev(st, x[2], x[3], mod)
                st.env[ins.dst] = self.insert(x[0], v, w, x[4])
            elif op == 'call':
                r = self.do_call(fn, ins, st, frame)
                if r is None:
                    return []
                st = r
            elif op == 'alloca':
                o = self.new_obj(x)
                st.mem[o] = {}
                st.owned.add(o)
                frame['allocas'].append(o)
                st.env[ins.dst] = Ptr(o, ZERO64)
            elif op == 'br':
                return [(x, self.edge(fn, b, x, st, True))]
            elif op == 'cbr':
                c = self.as_int(ev(st, ('i', 1), x[0], mod), 1)
                if x[1] == x[2]:
                    return [(x[1], self.edge(fn, b, x[1], st, True))]
                return self.branch(fn, b, st, [(c, x[1])], x[2])
            elif op == 'switch':
                t, v, d, cases = x
                e = ev(st, t, v, mod)
                e = self.as_int(e, t[1])
                if e.op == 'const':
                    tgt = d
                    for k, l in cases:
                        if (k & ((1 << t[1]) - 1)) == e.a[0]:
                            tgt = l
                            break
                    return [(tgt, self.edge(fn, b, tgt, st, True))]
                by = {}
                for k, l in cases:
                    c = X.eq(e, X.const(k, t[1]))
                    if l == d:
                        continue
                    by[l] = X.or_(by[l], c) if l in by else c
                return self.branch(fn, b, st, [(c, l) for l, c in by.items()], d)
            elif op == 'ret':
                frame['rets'].append((st, None if x is None else ev(st, x[0], x[1], mod)))
                return []
            elif op == 'unreachable':
                return []
            elif op in ('extractelement', 'insertelement', 'shufflevector'):
                st.env[ins.dst] = self.vecop(op, x, st, mod)
            else:
                raise Unsupported('op ' + op)
        raise Unsupported('block without terminator')

    def branch(self, fn, b, st, conds, default):
        outs = []
        cur = st
        todo = []
        for c, l in conds:
            todo.append((c, l))
        # sequential binary decisions
        base_pc = st.pc
        pend = []
        pc_state = State(base_pc, None, None)
        alive = True
        for c, l in todo:
            t = State(pc_state.pc, None, None)
            if self.assume_pc(t, c):
                pend.append((l, t.pc))
            if not self.assume_pc(pc_state, X.not_(c)):
                alive = False
                break
        if alive:
            pend.append((default, pc_state.pc))
        for i, (l, pc) in enumerate(pend):
            last = i == len(pend) - 1
            ns = self.edge(fn, b, l, st, last)
            ns.pc = pc
            if len(pend) > 1:
                ns.owned = set()
            outs.append((l, ns))
        return outs

    def vec(self, v, t):
        if v is UNDEF:
            return [UNDEF] * t[1]
        return v

    def insert(self, ty, v, w, idx):
        n = len(ty[2]) if ty[0] == 's' else ty[1]
        if v is UNDEF:
            v = tuple([UNDEF] * n)
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = w
        else:
            sub = ty[2][idx[0]] if ty[0] == 's' else ty[2]
            l[idx[0]] = self.insert(sub, l[idx[0]], w, idx[1:])
        return tuple(l)

    def vecop(self, op, x, st, mod):
        t, a, t2, b, rest = x
        va = self.vec(self.ev(st, t, a, mod), t)
        if op == 'extractelement':
            i = self.ev(st, t2, b, mod)
            if not (isinstance(i, E) and i.op == 'const'):
                raise Unsupported('dynamic vector index')
            return va[i.a[0]]
        if op == 'insertelement':
            i = self.ev(st, rest[0][0], rest[0][1], mod)
            if not (isinstance(i, E) and i.op == 'const'):
                raise Unsupported('dynamic vector index')
            l = list(va)
            l[i.a[0]] = self.ev(st, t2, b, mod)
            return tuple(l)
        vb = self.vec(self.ev(st, t2, b, mod), t2)
        mask = self.ev(st, rest[0][0], rest[0][1], mod)
        allv = list(va) + list(vb)
        out = []
        for k in self.vec(mask, rest[0][0]):
            if k is UNDEF:
                out.append(UNDEF)
            else:
                out.append(allv[k.a[0]])
        return tuple(out)

    def binop(self, o, t, a, b):
        w = t[1]
        if a is UNDEF and b is UNDEF:
            return UNDEF
        return X.bin_(o, self.as_int(a, w), self.as_int(b, w))

    def icmp(self, o, t, a, b):
        if t[0] == 'ptr':
            a, b = self.as_ptr(a), self.as_ptr(b)
            if o in ('eq', 'ne'):
                r = self.ptr_eq(a, b)
                return r if o == 'eq' else X.not_(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                a, b = a.off, b.off
            else:
                a, b = self.ptr_int(a), self.ptr_int(b)
        else:
            a, b = self.as_int(a, t[1]), self.as_int(b, t[1])
        if o == 'eq':
            return X.eq(a, b)
        if o == 'ne':
            return X.ne(a, b)
        if o == 'ult':
            return X.ult(a, b)
        if o == 'ule':
            return X.ule(a, b)
        if o == 'ugt':
            return X.ult(b, a)
        if o == 'uge':
            return X.ule(b, a)
        if o == 'slt':
            return X.slt(a, b)
        if o == 'sle':
            return X.sle(a, b)
        if o == 'sgt':
            return X.slt(b, a)
        if o == 'sge':
            return X.sle(b, a)
        raise Unsupported('icmp ' + o)

    def ptr_eq(self, a, b):
        if isinstance(a, PIte):
            return X.ite(a.c, self.ptr_eq(a.a, b), self.ptr_eq(a.b, b))
        if isinstance(b, PIte):
            return X.ite(b.c, self.ptr_eq(a, b.a), self.ptr_eq(a, b.b))
        if a.obj == b.obj:
            return X.eq(a.off, b.off)
        return FALSE

    def cast(self, op, t, v, t2):
        if t[0] == 'v' or t2[0] == 'v':
            if op in ('zext', 'sext', 'trunc', 'freeze'):
                return tuple(self.cast(op, t[2], p, t2[2]) for p in self.vec(v, t))
            if op == 'bitcast':
                return self.bitcast(t, v, t2)
            raise Unsupported('vector cast')
        if op == 'freeze':
            if v is UNDEF and t[0] == 'i':
                return X.const(0, t[1])
            return v
        if op == 'bitcast':
            return v
        if v is UNDEF:
            return UNDEF
        if op == 'zext':
            return X.zext(v, t2[1])
        if op == 'sext':
            return X.sext(v, t2[1])
        if op == 'trunc':
            return X.trunc(self.as_int(v, t[1]), t2[1])
        if op in ('ptrtoint', 'ptrtoaddr'):
            e = self.ptr_int(v)
            return X.trunc(e, t2[1]) if t2[1] < 64 else X.zext(e, t2[1])
        if op == 'inttoptr':
            return self.int_ptr(X.zext(v, 64) if v.w < 64 else v)
        raise Unsupported('cast ' + op)

    def bitcast(self, t, v, t2):
        # via concatenation
        if t[0] == 'v':
            acc = None
            w = t[2][1]
            if w == 1:
                parts = [X.bool_to_bv(self.as_int(x, 1), t[1]) for x in self.vec(v, t)]
                acc = X.const(0, t[1])
                for i, p in enumerate(parts):
                    acc = X.bin_('or', acc, X.bin_('shl', p, X.const(i, t[1])))
            else:
                for x in self.vec(v, t):
                    x = self.as_int(x, w)
                    acc = x if acc is None else X.concat(x, acc)
        else:
            acc = self.as_int(v, t[1])
        if t2[0] == 'v':
            w = t2[2][1]
            return tuple(X.extract(acc, (i + 1) * w - 1, i * w) for i in range(t2[1]))
        return acc

    # ------------------------------------------------------------ calls
    def cint(self, v, what):
        if isinstance(v, E) and v.op == 'const':
            return v.a[0]
        raise Unsupported('%s is not constant' % what)

    def do_call(self, fn, ins, st, frame):
        rt, cv, args = ins.x
        if cv[0] == 'glob':
            name = self.resolve_alias(cv[1])
        else:
            p = self.ev(st, PTR, cv, fn.mod)
            if not (isinstance(p, Ptr) and p.obj in self.objfn):
                raise Unsupported('indirect call')
            name = self.objfn[p.obj]
        if name.startswith('@llvm.'):
            return self.intrinsic(fn, name, ins, st)
        av = [self.ev(st, t, v, fn.mod) for t, v in args]
        f = self.m.funcs.get(name)
        if f is not None:
            r = self.call(f, av, st)
            if r is None:
                return None
            ns, v = r
            if ins.dst:
                ns.env[ins.dst] = v
            return ns
        if name.startswith('@__sym_'):
            return self.sym(name, ins, av, st)
        base = name[1:]
        if base in ('memcmp', 'bcmp'):
            n = self.cint(av[2], 'memcmp length')
            st.env[ins.dst] = self.memcmp(st, av[0], av[1], n, rt[1], base == 'bcmp')
            return st
        if base in ('memcpy', 'memmove'):
            self.memcpy(st, av[0], av[1], self.cint(av[2], 'memcpy length'))
            if ins.dst:
                st.env[ins.dst] = av[0]
            return st
        d = self.m.decls.get(name, '')
        pretty = self.m.demangled.get(name, name)
        if 'noreturn' in d or 'panicking' in name or 'panic' in name:
            loc = ''
            for (t, v), a in zip(args, av):
                if v is not None and v[0] == 'glob':
                    l = self.location(st, a)
                    if l:
                        loc = l
            self.checks.append(('panic:%s%s' % (pretty.split('::')[-1], (' at ' + loc) if loc else ''), pc_expr(st.pc), 'panic'))
            return None
        raise Unsupported('external call ' + pretty)

    def location(self, st, p):
        """decode a core::panic::Location constant"""
        try:
            f = self.load(st, PTR, p)
            n = self.cint(self.load(st, ('i', 64), self.padd(p, 8)), 'x')
            line = self.cint(self.load(st, ('i', 32), self.padd(p, 16)), 'x')
            s = bytes(self.cint(self.load(st, ('i', 8), self.padd(f, i)), 'x') for i in range(min(n, 200)))
            return '%s:%d' % (s.decode('utf8', 'replace'), line)
        except Exception:
            return ''

    def memcmp(self, st, a, b, n, w, only_eq):
        a, b = self.as_ptr(a), self.as_ptr(b)
        step = 1
        if only_eq:
            step = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
        r = X.const(0, w)
        for i in reversed(range(0, n, step)):
            x = self.as_int(self.load_raw(st, self.padd(a, i), step), 8 * step)
            y = self.as_int(self.load_raw(st, self.padd(b, i), step), 8 * step)
            if only_eq:
                r = X.ite(X.eq(x, y), r, X.const(1, w))
            else:
                r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), X.const(-1, w), X.const(1, w)))
        return r

    def draw(self, st, cond, tag, bits, lo, hi):
        """The symbolic input `tag` (constant, or a choice of constants after LLVM merged
        branches), optionally confined to [lo, hi].  self.draws records what each tag's
        value is on the paths that draw it, for the native replay."""
        for e in (tag, lo, hi):
            if e is not None and e.op == 'ite':
                c = e.a[0]

                def pick(x, i):
                    return x.a[i] if x is not None and x.op == 'ite' and x.a[0] is c else x
                a = self.draw(st, X.and_(cond, c), pick(tag, 1), bits, pick(lo, 1), pick(hi, 1))
                b = self.draw(st, X.and_(cond, X.not_(c)), pick(tag, 2), bits, pick(lo, 2), pick(hi, 2))
                return X.ite(c, a, b)
        if tag.op != 'const':
            raise Unsupported('symbolic variable tag is not constant')
        nm = 't%d' % tag.a[0]
        if lo is not None and lo.op == 'const' and hi.op == 'const':
            l, h = lo.a[0], hi.a[0]
            if cond is FALSE:
                return X.const(0, bits)
            if not l <= h < 1 << bits:
                raise Unsupported('empty range for symbolic variable %s' % nm)
            v = X.var('%s_%d_%d' % (nm, l, h), bits, l, h)
        else:
            v = X.var(nm, bits)
            if lo is not None:
                z = X.zext(v, 64) if bits < 64 else v
                self.assumes += 1
                self.assume_pc(st, X.implies(cond, X.and_(X.ule(lo, z), X.ule(z, hi))))
        if self.widths.setdefault(nm, bits) != bits:
            raise Unsupported('symbolic variable %s has two widths' % nm)
        self.vars[v.a[0]] = v
        self.draws.setdefault(nm, []).append((cond, v))
        return v

    def sym(self, name, ins, av, st):
        n = name[7:]
        if n in ('var', 'range'):
            bits = self.cint(av[1], 'symbolic variable width')
            lo = hi = None
            if len(av) == 4:
                lo, hi = av[2], av[3]
            v = self.draw(st, pc_expr(st.pc), av[0], bits, lo, hi)
            st.env[ins.dst] = X.zext(v, 64) if bits < 64 else v
            return st
        if n == 'assume':
            self.assumes += 1
            c = X.ne(av[0], X.const(0, av[0].w)) if av[0].w > 1 else av[0]
            if not self.assume_pc(st, c):
                return None
            return st
        if n in ('check', 'cover', 'observe'):
            ident = av[1]
            if ident.leaves is None and ident.op != 'const':
                raise Unsupported('%s id is not constant' % n)
            # LLVM may have merged several calls into one with a choice of ids
            for i, g in sorted(X.gmap(ident).items()):
                pc = X.and_(pc_expr(st.pc), g)
                if n == 'observe':
                    self.observes.append((i, pc, self.as_int(av[0], 64)))
                    continue
                c = av[0] if av[0].w == 1 else X.ne(av[0], X.const(0, av[0].w))
                if n == 'check':
                    self.checks.append((i, X.and_(pc, X.not_(c)), 'check'))
                else:
                    self.covers.append((i, X.and_(pc, c)))
            return st
        raise Unsupported(name)

    def intrinsic(self, fn, name, ins, st):
        rt, cv, args = ins.x
        n = name[6:]
        for p in ('lifetime.', 'experimental.noalias', 'dbg.', 'assume', 'donothing', 'sideeffect', 'invariant.', 'var.annotation', 'prefetch'):
            if n.startswith(p):
                if ins.dst:
                    st.env[ins.dst] = UNDEF
                return st
        av = [self.ev(st, t, v, fn.mod) if v is not None else None for t, v in args]
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, av[0], av[1], self.cint(av[2], 'memcpy length'))
            return st
        if n.startswith('memset'):
            k = self.cint(av[2], 'memset length')
            if k:
                b = self.as_int(av[1], 8)
                if b.op == 'const':
                    v = X.const(int.from_bytes(bytes([b.a[0]] * k), 'little'), 8 * k)
                    self.store_raw(st, self.as_ptr(av[0]), k, v)
                else:
                    for i in range(k):
                        self.store_raw(st, self.padd(self.as_ptr(av[0]), i), 1, b)
            return st
        if n.startswith('trap') or n.startswith('ubsantrap'):
            self.checks.append(('panic:trap', pc_expr(st.pc), 'panic'))
            return None
        if n.startswith('load.relative'):
            off = self.as_int(av[1], 64)
            raw = self.load_rel(st, self.as_ptr(av[0]), off)
            st.env[ins.dst] = raw
            return st
        if rt[0] == 'v':
            ww = rt[2]
            res = []
            for i in range(rt[1]):
                lane = [a if not (t[0] == 'v') else self.vec(a, t)[i] for a, (t, _) in zip(av, args)]
                res.append(self.scalar_intr(n, ww, lane, [t[2] if t[0] == 'v' else t for t, _ in args]))
            st.env[ins.dst] = tuple(res)
            return st
        if n.startswith('vector.reduce.'):
            t = args[0][0]
            op = n.split('.')[2]
            acc = None
            for x in self.vec(av[0], t):
                x = self.as_int(x, t[2][1])
                if acc is None:
                    acc = x
                elif op in ('add', 'mul', 'and', 'or', 'xor'):
                    acc = X.bin_(op, acc, x)
                elif op == 'umax':
                    acc = X.ite(X.ult(acc, x), x, acc)
                elif op == 'umin':
                    acc = X.ite(X.ult(x, acc), x, acc)
                else:
                    raise Unsupported(name)
            st.env[ins.dst] = acc
            return st
        st.env[ins.dst] = self.scalar_intr(n, rt, av, [t for t, _ in args])
        return st

    def load_rel(self, st, base, off):
        # table of i32 relative offsets: (target - table)
        raw = self.load_raw(st, self.padd(base, off), 4)
        raw = self.as_int(raw, 32)
        return self.int_ptr(X.add(self.ptr_int(base), X.sext(raw, 64)))

    def scalar_intr(self, n, rt, av, ts):
        if n.startswith('expect') or n.startswith('is.constant') or n.startswith('ssa.copy'):
            if n.startswith('is.constant'):
                return FALSE
            return av[0]
        if n.startswith('ptrmask'):
            raise Unsupported(n)
        w = ts[0][1] if ts and ts[0][0] == 'i' else None
        if w is None:
            raise Unsupported('intrinsic ' + n)
        a = self.as_int(av[0], w)
        b = self.as_int(av[1], ts[1][1]) if len(av) > 1 and av[1] is not None else None
        if n.startswith('umin'):
            return X.ite(X.ule(a, b), a, b)
        if n.startswith('umax'):
            return X.ite(X.ule(b, a), a, b)
        if n.startswith('smin'):
            return X.ite(X.sle(a, b), a, b)
        if n.startswith('smax'):
            return X.ite(X.sle(b, a), a, b)
        if n.startswith('abs'):
            return X.ite(X.slt(a, X.const(0, w)), X.sub(X.const(0, w), a), a)
        if n.startswith('uadd.with.overflow'):
            r = X.add(a, b)
            return (r, X.ult(r, a))
        if n.startswith('usub.with.overflow'):
            return (X.sub(a, b), X.ult(a, b))
        if n.startswith('umul.with.overflow'):
            if X.maxval(a) * X.maxval(b) < (1 << w) and X.bounded(a, X.maxval(a)) and X.bounded(b, X.maxval(b)):
                return (X.bin_('mul', a, b), FALSE)
            # overflow by constant comparison when one side is constant
            for p, q in ((a, b), (b, a)):
                if q.op == 'const':
                    k = q.a[0]
                    if k == 0:
                        return (X.const(0, w), FALSE)
                    return (X.bin_('mul', p, q), X.ult(X.const(((1 << w) - 1) // k, w), p))
            wide = X.bin_('mul', X.zext(a, 2 * w), X.zext(b, 2 * w))
            return (X.bin_('mul', a, b), X.ne(X.extract(wide, 2 * w - 1, w), X.const(0, w)))
        if n.startswith('sadd.with.overflow') or n.startswith('ssub.with.overflow') or n.startswith('smul.with.overflow'):
            o = {'a': 'add', 's': 'sub', 'm': 'mul'}[n[1]] if n[1] != 's' else 'sub'
            x = 2 * w
            wide = X.bin_(o, X.sext(a, x), X.sext(b, x))
            r = X.trunc(wide, w)
            return (r, X.ne(X.sext(r, x), wide))
        if n.startswith('uadd.sat'):
            r = X.add(a, b)
            return X.ite(X.ult(r, a), X.const(-1, w), r)
        if n.startswith('usub.sat'):
            return X.ite(X.ult(a, b), X.const(0, w), X.sub(a, b))
        if n.startswith('sadd.sat') or n.startswith('ssub.sat'):
            x = w + 1
            wide = X.bin_('add' if n[1] == 'a' else 'sub', X.sext(a, x), X.sext(b, x))
            mx, mn = X.const((1 << (w - 1)) - 1, x), X.const(-(1 << (w - 1)), x)
            return X.trunc(X.ite(X.slt(mx, wide), mx, X.ite(X.slt(wide, mn), mn, wide)), w)
        if n.startswith('ctpop'):
            r = X.const(0, w)
            for i in range(w):
                r = X.add(r, X.zext(X.extract(a, i, i), w))
            return r
        if n.startswith('ctlz'):
            r = X.const(w, w)
            for i in range(w):
                r = X.ite(X.extract(a, i, i), X.const(w - 1 - i, w), r)
            return r
        if n.startswith('cttz'):
            r = X.const(w, w)
            for i in reversed(range(w)):
                r = X.ite(X.extract(a, i, i), X.const(i, w), r)
            return r
        if n.startswith('bswap'):
            acc = None
            for i in range(0, w, 8):
                p = X.extract(a, i + 7, i)
                acc = p if acc is None else X.concat(acc, p)
            return acc
        if n.startswith('bitreverse'):
            acc = X.const(0, w)
            for i in range(w):
                acc = X.bin_('or', acc, X.bin_('shl', X.zext(X.extract(a, i, i), w), X.const(w - 1 - i, w)))
            return acc
        if n.startswith('fshl') or n.startswith('fshr'):
            c = self.as_int(av[2], w)
            sh = X.bin_('urem', c, X.const(w, w))
            inv = X.sub(X.const(w, w), sh)
            z = X.eq(sh, X.const(0, w))
            r = X.bin_('or', X.bin_('shl', a, sh if n[3] == 'l' else inv), X.bin_('lshr', b, inv if n[3] == 'l' else sh))
            return X.ite(z, a if n[3] == 'l' else b, r)
        if n.startswith('ucmp') or n.startswith('scmp'):
            lt = (X.ult if n[0] == 'u' else X.slt)(a, b)
            return X.ite(lt, X.const(-1, rt[1]), X.ite(X.eq(a, b), X.const(0, rt[1]), X.const(1, rt[1])))
        raise Unsupported('intrinsic ' + n)
