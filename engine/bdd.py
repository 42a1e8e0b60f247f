"""Reduced ordered binary decision diagrams: the canonical domain of Boolean
functions the abstract interpreter computes with.

Nodes are ints; 0 is false, 1 is true.  A variable's level is an arbitrary
integer fixed when the variable is made (`var`), so variables can be created in
any order and still interleave.
"""
import random
import sys

sys.setrecursionlimit(200000)


LIMIT = 9_000_000     # nodes of one analysis


class Blowup(Exception):
    """The domain grew beyond its budget: the analysis gives no answer."""


class Bdd:
    def __init__(self):
        self.lvl = [1 << 62, 1 << 62]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.ite_c = {}
        self.and_c = {}
        self.xor_c = {}
        self.not_c = {0: 1, 1: 0}
        self.restr_c = {}
        self.names = {}
        self.byname = {}
        self.seq = 0

    # -- construction ------------------------------------------------------
    def mk(self, l, lo, hi):
        if lo == hi:
            return lo
        k = (l, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.lvl)
            if n > LIMIT:
                raise Blowup(f"more than {LIMIT} decision-diagram nodes")
            self.lvl.append(l)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def var(self, name, cls=1, bit=0):
        """The variable called `name` (created on first use)."""
        n = self.byname.get(name)
        if n is None:
            self.seq += 1
            l = (cls << 40) | (bit << 24) | self.seq
            self.names[l] = name
            n = self.mk(l, 0, 1)
            self.byname[name] = n
        return n

    # -- operations ----------------------------------------------------------
    def not_(self, f):
        r = self.not_c.get(f)
        if r is None:
            r = self.mk(self.lvl[f], self.not_(self.lo[f]), self.not_(self.hi[f]))
            self.not_c[f] = r
            self.not_c[r] = f
        return r

    def and_(self, f, g):
        if f == g or g == 1:
            return f
        if f == 1:
            return g
        if f == 0 or g == 0:
            return 0
        if f > g:
            f, g = g, f
        k = (f, g)
        r = self.and_c.get(k)
        if r is None:
            lf, lg = self.lvl[f], self.lvl[g]
            if lf < lg:
                r = self.mk(lf, self.and_(self.lo[f], g), self.and_(self.hi[f], g))
            elif lg < lf:
                r = self.mk(lg, self.and_(f, self.lo[g]), self.and_(f, self.hi[g]))
            else:
                r = self.mk(lf, self.and_(self.lo[f], self.lo[g]), self.and_(self.hi[f], self.hi[g]))
            self.and_c[k] = r
        return r

    def or_(self, f, g):
        if f == g or g == 0:
            return f
        if f == 0:
            return g
        if f == 1 or g == 1:
            return 1
        return self.not_(self.and_(self.not_(f), self.not_(g)))

    def xor(self, f, g):
        if f == g:
            return 0
        if f == 0:
            return g
        if g == 0:
            return f
        if f == 1:
            return self.not_(g)
        if g == 1:
            return self.not_(f)
        if f > g:
            f, g = g, f
        k = (f, g)
        r = self.xor_c.get(k)
        if r is None:
            lf, lg = self.lvl[f], self.lvl[g]
            if lf < lg:
                r = self.mk(lf, self.xor(self.lo[f], g), self.xor(self.hi[f], g))
            elif lg < lf:
                r = self.mk(lg, self.xor(f, self.lo[g]), self.xor(f, self.hi[g]))
            else:
                r = self.mk(lf, self.xor(self.lo[f], self.lo[g]), self.xor(self.hi[f], self.hi[g]))
            self.xor_c[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1:
            return self.or_(f, h)
        if g == 0:
            return self.and_(self.not_(f), h)
        if h == 0:
            return self.and_(f, g)
        if h == 1:
            return self.or_(self.not_(f), g)
        k = (f, g, h)
        r = self.ite_c.get(k)
        if r is None:
            L = self.lvl
            l = min(L[f], L[g], L[h])
            f0, f1 = (self.lo[f], self.hi[f]) if L[f] == l else (f, f)
            g0, g1 = (self.lo[g], self.hi[g]) if L[g] == l else (g, g)
            h0, h1 = (self.lo[h], self.hi[h]) if L[h] == l else (h, h)
            r = self.mk(l, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
            self.ite_c[k] = r
        return r

    def implies(self, f, g):
        return self.and_(f, self.not_(g)) == 0

    def restrict(self, f, c):
        """f simplified where only points in c matter (Coudert-Madre)."""
        if c == 1 or f < 2:
            return f
        if c == 0:
            return 0
        if f == c:
            return 1
        k = (f, c)
        r = self.restr_c.get(k)
        if r is None:
            lf, lc = self.lvl[f], self.lvl[c]
            if lc < lf:
                r = self.restrict(f, self.or_(self.lo[c], self.hi[c]))
            elif lf < lc:
                r = self.mk(lf, self.restrict(self.lo[f], c), self.restrict(self.hi[f], c))
            elif self.lo[c] == 0:
                r = self.restrict(self.hi[f], self.hi[c])
            elif self.hi[c] == 0:
                r = self.restrict(self.lo[f], self.lo[c])
            else:
                r = self.mk(lf, self.restrict(self.lo[f], self.lo[c]), self.restrict(self.hi[f], self.hi[c]))
            self.restr_c[k] = r
        return r

    def support(self, f, out=None):
        seen = set()
        lv = set() if out is None else out
        st = [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            lv.add(self.lvl[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return lv

    def size(self, f):
        seen = set()
        st = [f]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            st.append(self.lo[n])
            st.append(self.hi[n])
        return len(seen)

    def witness(self, f):
        """One satisfying partial assignment {variable name: bool} of f."""
        a = {}
        while f > 1:
            if self.lo[f] != 0:
                a[self.names[self.lvl[f]]] = False
                f = self.lo[f]
            else:
                a[self.names[self.lvl[f]]] = True
                f = self.hi[f]
        return a if f == 1 else None

    def sample(self, f, seed):
        """A satisfying point of f: {level: value} and a rule for the rest."""
        r = random.Random(seed)
        a = {}
        while f > 1:
            lo, hi = self.lo[f], self.hi[f]
            b = 0 if hi == 0 else 1 if lo == 0 else r.getrandbits(1)
            a[self.lvl[f]] = b
            f = hi if b else lo
        return a, seed

    def at(self, f, point):
        """The value of f at a sampled point."""
        a, seed = point
        while f > 1:
            l = self.lvl[f]
            b = a.get(l)
            if b is None:
                b = a[l] = (l * 0x9e3779b97f4a7c15 + seed * 0x632be59bd9b4e019 >> 37) & 1
            f = self.hi[f] if b else self.lo[f]
        return f

    def cofactor(self, f, assign):
        """f with variables fixed: assign maps node-of-variable -> 0/1."""
        lv = {self.lvl[v]: b for v, b in assign.items()}
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                b = lv.get(self.lvl[n])
                if b is None:
                    r = self.mk(self.lvl[n], go(self.lo[n]), go(self.hi[n]))
                else:
                    r = go(self.hi[n] if b else self.lo[n])
                memo[n] = r
            return r
        return go(f)


B = Bdd()


# ---- bit-vectors: tuples of nodes, least significant bit first ---------------
def const(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def is_const(a):
    return all(b < 2 for b in a)


def to_int(a):
    v = 0
    for i, b in enumerate(a):
        if b > 1:
            return None
        v |= b << i
    return v


def fresh(name, w, cls=1):
    return tuple(B.var(f"{name}[{i}]" if w > 1 else name, cls, i) for i in range(w))


def eq(a, b):
    r = 1
    for x, y in zip(a, b):
        r = B.and_(r, B.not_(B.xor(x, y)))
        if r == 0:
            return 0
    return r


def eqc(a, v):
    r = 1
    for i, x in enumerate(a):
        r = B.and_(r, x if (v >> i) & 1 else B.not_(x))
        if r == 0:
            return 0
    return r


def vite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    return tuple(B.ite(c, x, y) for x, y in zip(a, b))


def vnot(a):
    return tuple(B.not_(x) for x in a)


def vand(a, b):
    return tuple(B.and_(x, y) for x, y in zip(a, b))


def vor(a, b):
    return tuple(B.or_(x, y) for x, y in zip(a, b))


def vxor(a, b):
    return tuple(B.xor(x, y) for x, y in zip(a, b))


def add(a, b, cin=0):
    c = cin
    out = []
    for x, y in zip(a, b):
        t = B.xor(x, y)
        out.append(B.xor(t, c))
        c = B.or_(B.and_(x, y), B.and_(t, c))
    return tuple(out), c


def sub(a, b):
    """(a - b, borrow)"""
    r, c = add(a, vnot(b), 1)
    return r, B.not_(c)


def neg(a):
    return sub(const(0, len(a)), a)[0]


def ult(a, b):
    r = 0
    for x, y in zip(a, b):
        r = B.ite(B.xor(x, y), y, r)
    return r


def slt(a, b):
    return ult(a[:-1] + (B.not_(a[-1]),), b[:-1] + (B.not_(b[-1]),))


def zext(a, w):
    return tuple(a[:w]) + (0,) * (w - len(a))


def sext(a, w):
    return tuple(a[:w]) + (a[-1],) * (w - len(a))


def shl_c(a, n):
    return ((0,) * n + tuple(a))[:len(a)]


def shr_c(a, n, fill=0):
    return (tuple(a[n:]) + (fill,) * n)[:len(a)] if n < len(a) else (fill,) * len(a)


def shift(a, s, kind):
    """Barrel shifter: a shifted by the (already reduced) amount s."""
    r = tuple(a)
    for i, b in enumerate(s):
        if b == 0:
            continue
        n = 1 << i
        if kind == "shl":
            t = shl_c(r, n) if n < len(a) else (0,) * len(a)
        elif kind == "shr":
            t = shr_c(r, n)
        else:
            t = shr_c(r, n, a[-1])
        r = vite(b, t, r)
    return r


def vsize(a):
    return sum(B.size(x) for x in a)


# ---- uninterpreted operations -------------------------------------------------
UF = {}


def uf(op, args, w):
    """A value named by (operation, canonical operands): value numbering for
    operations whose diagrams have no compact form (multiply, divide)."""
    k = (op, args, w)
    r = UF.get(k)
    if r is None:
        r = fresh(f"{op}#{len(UF)}", w)
        UF[k] = r
    return r


def trim(a):
    a = tuple(a)
    while len(a) > 1 and a[-1] == 0:
        a = a[:-1]
    return a


def mul(a, b):
    w = len(a)
    ca, cb = to_int(a), to_int(b)
    if ca is not None and cb is not None:
        return const(ca * cb, w)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb == 0:
            return const(0, w)
        if bin(cb).count("1") <= 2:
            r = const(0, w)
            for i in range(w):
                if (cb >> i) & 1:
                    r = add(r, shl_c(a, i))[0]
            return r
    ta, tb = trim(a), trim(b)
    if (len(tb), tb) < (len(ta), ta):
        ta, tb = tb, ta
    n = len(ta) + len(tb)
    if n <= w:
        return zext(uf("mul", (ta, tb), n), w)
    return uf("mul", (ta, tb), w)


def udivrem(a, b):
    w = len(a)
    ca, cb = to_int(a), to_int(b)
    if ca is not None and cb:
        return const(ca // cb, w), const(ca % cb, w)
    if cb and cb & (cb - 1) == 0:
        n = cb.bit_length() - 1
        return shr_c(a, n), zext(a[:n], w)
    k = (trim(a), trim(b))
    return uf("div", k, w), uf("rem", k, w)
