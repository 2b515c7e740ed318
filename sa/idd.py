"""Canonical multi-terminal interval decision diagrams over linear keys.

A node tests the value of a linear expression (the key) against an ordered
sequence of integer intervals.  Guards are diagrams with terminals True/False;
values are diagrams whose terminals are hashable Python values, in particular
linear expressions ('L', const, ((atom, coef), ...)).
"""
import sys
from math import gcd

sys.setrecursionlimit(100000)

INF = float('inf')


class Atoms:
    def __init__(self):
        self.ids = {}
        self.names = []
        self.rng = []

    def get(self, name, lo, hi):
        i = self.ids.get(name)
        if i is None:
            i = len(self.names)
            self.ids[name] = i
            self.names.append(name)
            self.rng.append((lo, hi))
        return i


class Blowup(Exception):
    pass


ITERMS = {'clog2', 'wrap', 'mul', 'shl', 'shr', 'cdiv', 'div', 'mod'}


class IDD:
    """Manager.  Node ids are ints; terminals are registered values."""
    LIMIT = 3000000

    def __init__(self):
        self.atoms = Atoms()
        self.keys = {}          # key terms -> var index
        self.keyterms = []      # var -> terms
        self.dom = []           # var -> (lo, hi)
        self.nodes = []         # id -> (var, bounds, kids) | (INF, value)
        self.uniq = {}
        self.tval = {}
        self.memo = {}
        self.vals = []
        self.F = self.term(False)
        self.T = self.term(True)

    # -- terminals -------------------------------------------------------
    def term(self, v):
        k = (type(v) is bool, v)
        i = self.tval.get(k)
        if i is None:
            i = len(self.nodes)
            self.nodes.append((INF, v))
            self.tval[k] = i
        return i

    def is_term(self, n):
        return self.nodes[n][0] == INF

    def val(self, n):
        return self.nodes[n][1]

    # -- atoms and linear expressions -------------------------------------
    def atom(self, name, lo, hi):
        return ('L', 0, ((self.atoms.get(name, lo, hi), 1),))

    def const(self, c):
        return self.term(('L', c, ()))

    def lin(self, l):
        return self.term(l)

    def lin_add(self, a, b, k=1):
        d = dict(a[2])
        for t, c in b[2]:
            d[t] = d.get(t, 0) + k * c
        return ('L', a[1] + k * b[1],
                tuple(sorted((t, c) for t, c in d.items() if c)))

    def lin_scale(self, a, k):
        if k == 0:
            return ('L', 0, ())
        return ('L', a[1] * k, tuple((t, c * k) for t, c in a[2]))

    def lin_range(self, l):
        lo = hi = l[1]
        for t, c in l[2]:
            a, b = self.atoms.rng[t]
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def var(self, terms):
        v = self.keys.get(terms)
        if v is None:
            v = len(self.keyterms)
            self.keys[terms] = v
            self.keyterms.append(terms)
            self.dom.append(self.lin_range(('L', 0, terms)))
        return v

    # -- construction ------------------------------------------------------
    def mk(self, var, bounds, kids):
        lo, hi = self.dom[var]
        nb, nk = [], []
        n = len(kids)
        for i in range(n):
            ub = bounds[i] if i < n - 1 else INF
            lb = bounds[i - 1] + 1 if i > 0 else -INF
            if ub < lo or lb > hi:
                continue
            if nk and nk[-1] == kids[i]:
                if nb:
                    nb[-1] = ub
                continue
            nk.append(kids[i])
            nb.append(ub)
        if len(nk) == 1:
            return nk[0]
        if len(nk) == 2 and nb[0] == 0:
            r = self._roundup(var, nk[0], nk[1])
            if r is not None:
                return r
        nb = tuple(nb[:-1])
        nk = tuple(nk)
        k = (var, nb, nk)
        i = self.uniq.get(k)
        if i is None:
            i = len(self.nodes)
            if i > self.LIMIT:
                raise Blowup()
            self.nodes.append(k)
            self.uniq[k] = i
        return i

    def _roundup(self, var, a, b):
        """x/y, plus one unless y divides x, is the rounded up quotient."""
        t = self.keyterms[var]
        if len(t) != 1 or t[0][1] != 1 or not self.is_term(a) or not self.is_term(b):
            return None
        n = self.atoms.names[t[0][0]]
        if not isinstance(n, tuple) or n[0] != 'mod' or self.dom[var][0] < 0:
            return None
        a, b = self.val(a), self.val(b)
        if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and
                a[0] == 'L' and b[0] == 'L' and a[2] == b[2]):
            return None
        d = self.atoms.ids.get(('div', n[1], n[2]))
        k = dict(a[2]).get(d)
        if d is None or k is None or k != b[1] - a[1]:
            return None
        lo, hi = self.atoms.rng[d]
        if n[2][2]:
            c = self.atom(('cdiv', n[1], n[2]), lo, hi + 1)
        else:
            c = self.atom(('div', ('L', n[1][1] + n[2][1] - 1, n[1][2]), n[2]), lo, hi + 1)
        return self.term(self.lin_add(self.lin_add(a, self.atom(('div', n[1], n[2]), lo, hi), -k), c, k))

    def le(self, l):
        """Guard for l <= 0."""
        if not l[2]:
            return self.T if l[1] <= 0 else self.F
        g = 0
        for _, c in l[2]:
            g = gcd(g, c)
        neg = l[2][0][1] < 0
        if neg:
            g = -g
        terms = tuple((t, c // g) for t, c in l[2])
        v = self.var(terms)
        # g*key + const <= 0
        if g > 0:
            b = (-l[1]) // g            # key <= floor(-const/g)
            return self.mk(v, (b,), (self.T, self.F))
        # key >= ceil(-const/g) with g<0 : g*key <= -const -> key >= -const/g
        b = -((l[1]) // g) if False else self._ceil(-l[1], g)
        return self.mk(v, (b - 1,), (self.F, self.T))

    @staticmethod
    def _ceil(a, b):
        return -((-a) // b) if b > 0 else -(a // -b)

    def eq0(self, l):
        return self.AND(self.le(l), self.le(self.lin_scale(l, -1)))

    # -- generic apply -------------------------------------------------------
    def _split(self, ns):
        """Top variable among nodes and the refined partition."""
        nodes = self.nodes
        v = min(nodes[n][0] for n in ns)
        cuts = set()
        for n in ns:
            if nodes[n][0] == v:
                cuts.update(nodes[n][1])
        bounds = sorted(cuts)
        rows = []
        idx = [0] * len(ns)
        for bi in range(len(bounds) + 1):
            row = []
            for j, n in enumerate(ns):
                nd = nodes[n]
                if nd[0] != v:
                    row.append(n)
                else:
                    row.append(nd[2][idx[j]])
            rows.append(row)
            if bi < len(bounds):
                b = bounds[bi]
                for j, n in enumerate(ns):
                    nd = nodes[n]
                    if nd[0] == v and idx[j] < len(nd[1]) and nd[1][idx[j]] == b:
                        idx[j] += 1
        return v, bounds, rows

    def NOT(self, a):
        if a == self.T:
            return self.F
        if a == self.F:
            return self.T
        k = ('!', a)
        r = self.memo.get(k)
        if r is None:
            v, b, ks = self.nodes[a]
            r = self.mk(v, b, [self.NOT(x) for x in ks])
            self.memo[k] = r
        return r

    def AND(self, a, b):
        if a == self.F or b == self.F:
            return self.F
        if a == self.T or a == b:
            return b
        if b == self.T:
            return a
        if a > b:
            a, b = b, a
        k = ('&', a, b)
        r = self.memo.get(k)
        if r is None:
            v, bs, rows = self._split((a, b))
            r = self.mk(v, bs, [self.AND(x, y) for x, y in rows])
            self.memo[k] = r
        return r

    def OR(self, a, b):
        if a == self.T or b == self.T:
            return self.T
        if a == self.F or a == b:
            return b
        if b == self.F:
            return a
        if a > b:
            a, b = b, a
        k = ('|', a, b)
        r = self.memo.get(k)
        if r is None:
            v, bs, rows = self._split((a, b))
            r = self.mk(v, bs, [self.OR(x, y) for x, y in rows])
            self.memo[k] = r
        return r

    def ANDN(self, a, b):
        return self.AND(a, self.NOT(b))

    def implies(self, a, b):
        return self.AND(a, self.NOT(b)) == self.F

    def ite(self, g, a, b):
        if g == self.T or a == b:
            return a
        if g == self.F:
            return b
        k = ('?', g, a, b)
        r = self.memo.get(k)
        if r is None:
            v, bs, rows = self._split((g, a, b))
            r = self.mk(v, bs, [self.ite(x, y, z) for x, y, z in rows])
            self.memo[k] = r
        return r

    def bind(self, a, f, key=None):
        """Compose: replace each terminal t of a by the diagram f(t)."""
        cache = {}

        def go(n):
            r = cache.get(n)
            if r is None:
                nd = self.nodes[n]
                if nd[0] == INF:
                    r = f(nd[1])
                else:
                    v, bs, ks = nd
                    rs = [go(x) for x in ks]
                    r = rs[-1]
                    if any(x != r for x in rs):
                        # ite chain with threshold guards on v
                        for i in range(len(bs) - 1, -1, -1):
                            g = self.mk(v, (bs[i],), (self.T, self.F))
                            r = self.ite(g, rs[i], r)
                cache[n] = r
            return r
        return go(a)

    def bind2(self, a, b, f):
        if self.is_term(b):
            tb = self.val(b)
            return self.bind(a, lambda x: f(x, tb))
        return self.bind(a, lambda x: self.bind(b, lambda y: f(x, y)))

    def terminals(self, a):
        seen = set()
        out = []

        def go(n):
            if n in seen:
                return
            seen.add(n)
            nd = self.nodes[n]
            if nd[0] == INF:
                out.append(nd[1])
            else:
                for k in nd[2]:
                    go(k)
        go(a)
        return out

    def vars_of(self, a):
        seen = set()
        out = set()

        def go(n):
            if n in seen:
                return
            seen.add(n)
            nd = self.nodes[n]
            if nd[0] != INF:
                out.add(nd[0])
                for k in nd[2]:
                    go(k)
        go(a)
        return out

    def atoms_of(self, a):
        out = set()
        for v in self.vars_of(a):
            out.update(t for t, _ in self.keyterms[v])
        for t in self.terminals(a):
            if isinstance(t, tuple) and t and t[0] == 'L':
                out.update(x for x, _ in t[2])
        return out

    def where(self, a, pred):
        """Guard under which the terminal satisfies pred."""
        return self.bind(a, lambda t: self.T if pred(t) else self.F)

    def restrict(self, a, care):
        """Simplify a using the care set (result agrees with a on care)."""
        if care == self.F or care == self.T or self.is_term(a):
            return a
        k = ('r', a, care)
        r = self.memo.get(k)
        if r is not None:
            return r
        na, nc = self.nodes[a], self.nodes[care]
        if nc[0] < na[0]:
            c = self.F
            for x in nc[2]:
                c = self.OR(c, x)
            r = self.restrict(a, c)
        else:
            v, bs, rows = self._split((a, care))
            kids = []
            for x, c in rows:
                kids.append(None if c == self.F else self.restrict(x, c))
            # fill holes with a neighbour
            last = None
            for i, x in enumerate(kids):
                if x is None:
                    kids[i] = last
                else:
                    last = x
            nxt = None
            for i in range(len(kids) - 1, -1, -1):
                if kids[i] is None:
                    kids[i] = nxt
                else:
                    nxt = kids[i]
            r = self.mk(v, bs, kids)
        self.memo[k] = r
        return r

    # -- renaming ---------------------------------------------------------------
    def subst(self, n, fn, memo=None):
        """Rebuild n with atoms replaced: fn(atom id) -> linear term or None."""
        memo = {} if memo is None else memo

        def atom(a):
            k = ('a', a)
            r = memo.get(k)
            if r is None:
                r = fn(a)
                if r is None:
                    nm = self.atoms.names[a]
                    nn = name(nm)
                    r = ('L', 0, ((a, 1),)) if nn == nm else \
                        self.atom(nn, *self.atoms.rng[a])
                memo[k] = r
            return r

        def name(x):
            if not isinstance(x, tuple):
                return x
            if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple):
                return lin(x)
            if len(x) == 2 and x[0] in ('val', 'N') and isinstance(x[1], int):
                return (x[0], go(x[1]))
            if len(x) == 3 and x[0] == 'nofail':
                return x[:2] + (go(x[2]),)
            if len(x) == 3 and x[0] == 'T':
                return x[:2] + (tuple(go(y) if y != -1 else -1 for y in x[2]),)
            return tuple(name(y) for y in x)

        def lin(l):
            out = ('L', l[1], ())
            for a, c in l[2]:
                out = self.lin_add(out, atom(a), c)
            return out

        def go(x):
            r = memo.get(x)
            if r is None:
                nd = self.nodes[x]
                if nd[0] == INF:
                    t = nd[1]
                    r = self.term(name(t)) if isinstance(t, tuple) else x
                else:
                    key = lin(('L', 0, self.keyterms[nd[0]]))
                    kids = [go(y) for y in nd[2]]
                    if key == ('L', 0, self.keyterms[nd[0]]) and \
                            all(a == b for a, b in zip(kids, nd[2])):
                        r = x
                    else:
                        r = kids[-1]
                        for i in range(len(nd[1]) - 1, -1, -1):
                            g = self.le(('L', key[1] - nd[1][i], key[2]))
                            r = self.ite(g, kids[i], r)
                memo[x] = r
            return r
        return go(n)

    # -- ranges ----------------------------------------------------------------
    def proj(self, g, v):
        """[min,max] of key v over the paths of guard g that reach True."""
        k = ('p', g, v)
        r = self.memo.get(k)
        if r is not None:
            return r
        if g == self.F:
            r = (INF, -INF)
        else:
            nd = self.nodes[g]
            dl, dh = self.dom[v]
            if nd[0] == INF or nd[0] > v:
                r = (dl, dh)
            elif nd[0] == v:
                lo, hi = INF, -INF
                for i, kid in enumerate(nd[2]):
                    if kid == self.F:
                        continue
                    a = nd[1][i - 1] + 1 if i else dl
                    b = nd[1][i] if i < len(nd[1]) else dh
                    lo = min(lo, a)
                    hi = max(hi, b)
                r = (lo, hi)
            else:
                lo, hi = INF, -INF
                for kid in nd[2]:
                    a, b = self.proj(kid, v)
                    lo = min(lo, a)
                    hi = max(hi, b)
                r = (lo, hi)
        self.memo[k] = r
        return r

    def range_under(self, l, g):
        """Sound bounds of linear expression l on the states of guard g."""
        if not l[2]:
            return l[1], l[1]
        if g == self.F:
            return INF, -INF
        lo, hi = l[1], l[1]
        gv = self.vars_of(g) if g != self.T else ()
        # bounds of single atoms, first tightened by multi-atom facts
        box = {}
        for t, c in l[2]:
            v = self.keys.get(((t, 1),))
            a, b = self.atoms.rng[t]
            if v is not None and v in gv:
                a, b = self.proj(g, v)
            box[t] = (a, b)
        if gv and len(l[2]) >= 1:
            ks = [v for v in gv if len(self.keyterms[v]) > 1]
            for _ in range(2):
                for v in ks:
                    terms = self.keyterms[v]
                    inter = [t for t, _ in terms if t in box]
                    if not inter:
                        continue
                    klo, khi = self.proj(g, v)
                    for t, c in terms:
                        if t not in box:
                            continue
                        # c*t = key - sum(others)
                        olo = ohi = 0
                        for u, cu in terms:
                            if u == t:
                                continue
                            if u in box:
                                ua, ub = box[u]
                            else:
                                ua, ub = self.atoms.rng[u]
                                uv = self.keys.get(((u, 1),))
                                if uv is not None and uv in gv:
                                    ua, ub = self.proj(g, uv)
                            if cu > 0:
                                olo += cu * ua
                                ohi += cu * ub
                            else:
                                olo += cu * ub
                                ohi += cu * ua
                        vlo, vhi = klo - ohi, khi - olo
                        if c > 0:
                            nlo = self._cdiv(vlo, c)
                            nhi = self._fdiv(vhi, c)
                        else:
                            nlo = self._cdiv(vhi, c)
                            nhi = self._fdiv(vlo, c)
                        a, b = box[t]
                        box[t] = (max(a, nlo), min(b, nhi))
        for t, c in l[2]:
            a, b = box[t]
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        if len(l[2]) > 1:
            gg = 0
            for _, c in l[2]:
                gg = gcd(gg, c)
            if l[2][0][1] < 0:
                gg = -gg
            v = self.keys.get(tuple((t, c // gg) for t, c in l[2]))
            if v is not None and v in gv:
                a, b = self.proj(g, v)
                if gg > 0:
                    a, b = gg * a + l[1], gg * b + l[1]
                else:
                    a, b = gg * b + l[1], gg * a + l[1]
                lo, hi = max(lo, a), min(hi, b)
        return lo, hi

    @staticmethod
    def _cdiv(a, b):
        if a in (INF, -INF):
            return a if b > 0 else -a
        return -((-a) // b)

    @staticmethod
    def _fdiv(a, b):
        if a in (INF, -INF):
            return a if b > 0 else -a
        return a // b

    # -- paths ------------------------------------------------------------------
    def sat_paths(self, g, limit=200):
        """Enumerate paths (lists of (var, lo, hi)) of g to True."""
        out = []

        def go(n, path):
            if len(out) >= limit:
                return
            if n == self.T:
                out.append(list(path))
                return
            if n == self.F:
                return
            v, bs, ks = self.nodes[n]
            dl, dh = self.dom[v]
            for i, kid in enumerate(ks):
                if kid == self.F:
                    continue
                a = bs[i - 1] + 1 if i else dl
                b = bs[i] if i < len(bs) else dh
                path.append((v, a, b))
                go(kid, path)
                path.pop()
        go(g, [])
        return out

    def path_feasible(self, path):
        """Bounds consistency of a conjunction of key intervals."""
        box = {}
        cons = [(self.keyterms[v], lo, hi) for v, lo, hi in path]
        multi = [c for c in cons if len(c[0]) > 1]
        if 1 < len(multi) <= 12:
            # sums and differences of two constraints that cancel an atom
            for i, (ta, la, ha) in enumerate(multi):
                da = dict(ta)
                for tb, lb, hb in multi[:i]:
                    for sg in (1, -1):
                        if not any(da.get(t) == -sg * c for t, c in tb):
                            continue
                        d = dict(ta)
                        for t, c in tb:
                            d[t] = d.get(t, 0) + sg * c
                            if not d[t]:
                                del d[t]
                        if sg == 1:
                            l, h = la + lb, ha + hb
                        else:
                            l, h = la - hb, ha - lb
                        if not d:
                            if l > 0 or h < 0:
                                return False
                        elif len(d) <= 4:
                            cons.append((tuple(d.items()), l, h))

        def rng(t):
            return box.get(t, self.atoms.rng[t])
        for _ in range(6):
            changed = False
            for terms, lo, hi in cons:
                for t, c in terms:
                    olo = ohi = 0
                    for u, cu in terms:
                        if u == t:
                            continue
                        a, b = rng(u)
                        if cu > 0:
                            olo += cu * a
                            ohi += cu * b
                        else:
                            olo += cu * b
                            ohi += cu * a
                    vlo, vhi = lo - ohi, hi - olo
                    if c > 0:
                        nlo, nhi = self._cdiv(vlo, c), self._fdiv(vhi, c)
                    else:
                        nlo, nhi = self._cdiv(vhi, c), self._fdiv(vlo, c)
                    a, b = rng(t)
                    na, nb = max(a, nlo), min(b, nhi)
                    if na > nb:
                        return False
                    if (na, nb) != (a, b):
                        box[t] = (na, nb)
                        changed = True
            if not changed:
                break
        # interpreted terms: their operands bound them
        seen = set()
        for terms, lo, hi in cons:
            for t, c in terms:
                if t in seen:
                    continue
                seen.add(t)
                nm = self.atoms.names[t]
                if isinstance(nm, tuple) and nm and nm[0] in ITERMS:
                    x, y = self.irange(t, box, {})
                    a, b = rng(t)
                    if x > a or y < b:
                        if max(a, x) > min(b, y):
                            return False
                        box[t] = (max(a, x), min(b, y))
        for terms, lo, hi in cons:
            a = b = 0
            for t, c in terms:
                x, y = rng(t)
                a += c * (x if c > 0 else y)
                b += c * (y if c > 0 else x)
            if a > hi or b < lo:
                return False
        return True

    def irange(self, t, box, memo):
        """Range of an interpreted term from the ranges of its operands."""
        r = memo.get(t)
        if r is not None:
            return r
        nm = self.atoms.names[t]
        base = box.get(t, self.atoms.rng[t])
        k = nm[0] if isinstance(nm, tuple) and nm else None
        if k not in ITERMS:
            return base

        def lin(l):
            a = b = l[1]
            for u, c in l[2]:
                x, y = self.irange(u, box, memo)
                a += c * (x if c > 0 else y)
                b += c * (y if c > 0 else x)
            return a, b
        ops = [x for x in nm[1:] if isinstance(x, tuple) and len(x) == 3 and x[0] == 'L']
        rs = [lin(x) for x in ops]
        r = base
        fin = all(abs(v) < INF for p in rs for v in p)
        if k == 'clog2' and len(rs) == 1:
            lo, hi = rs[0]
            if lo >= 1 and hi < 2 ** 64:
                r = ((lo - 1).bit_length(), (hi - 1).bit_length())
        elif k == 'wrap' and len(rs) == 1:
            bits, signed = nm[1], nm[2]
            lo, hi = rs[0]
            l, h = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            if l <= lo and hi <= h:
                r = (lo, hi)
        elif len(rs) == 2 and fin:
            (a, b), (c, d) = rs
            if k == 'mul':
                p = [a * c, a * d, b * c, b * d]
                r = (min(p), max(p))
            elif k == 'shl' and 0 <= c <= d <= 128:
                p = [a << c, a << d, b << c, b << d]
                r = (min(p), max(p))
            elif k == 'shr' and 0 <= c <= d <= 128:
                p = [a >> c, a >> d, b >> c, b >> d]
                r = (min(p), max(p))
            elif k == 'cdiv' and c >= 1 and a >= 0:
                r = (-(-a // d), -(-b // c))
            elif k == 'div' and c >= 1 and a >= 0:
                r = (a // d, b // c)
            elif k == 'mod' and c >= 1 and a >= 0:
                r = (0, min(b, d - 1))
        r = (max(r[0], base[0]), min(r[1], base[1]))
        memo[t] = r
        return r

    def feasible(self, g, limit=4000):
        """A path of g that survives bounds propagation, or None.  When the
        budget runs out the path reached so far is returned (not refuted)."""
        if g == self.F:
            return None
        k = ('feas', limit, g)
        if k not in self.memo:
            self.memo[k] = next(self.fpaths(g, limit), None)
        return self.memo[k]

    def fpaths(self, g, limit=4000):
        """Paths of g that survive bounds propagation.  Partial paths that are
        already contradictory are cut off."""
        if g == self.F:
            return
        budget = [limit]
        plain = {}

        def hard(v):
            r = plain.get(v)
            if r is None:
                ts = self.keyterms[v]
                r = plain[v] = len(ts) > 1 or any(
                    isinstance(self.atoms.names[a], tuple) and
                    self.atoms.names[a][0] in ITERMS for a, _ in ts)
            return r
        # atoms that hard keys depend on: the others cannot refute a path
        rel = set()
        for v in self.vars_of(g):
            if hard(v):
                for a, _ in self.keyterms[v]:
                    rel.add(a)
                    rel |= self.deps(a)
        matters = {}

        def relevant(v):
            r = matters.get(v)
            if r is None:
                r = matters[v] = any(a in rel for a, _ in self.keyterms[v])
            return r
        failed = set()

        def go(n, path):
            if n == self.T:
                budget[0] -= 1
                if budget[0] < 0 or self.path_feasible(path):
                    yield list(path)
                return
            key = (n, tuple(x for x in path if relevant(x[0])))
            if key in failed:
                return
            v, bs, ks = self.nodes[n]
            dl, dh = self.dom[v]
            any1 = False
            for i, kid in enumerate(ks):
                if kid == self.F:
                    continue
                a = bs[i - 1] + 1 if i else dl
                b = bs[i] if i < len(bs) else dh
                path.append((v, a, b))
                if hard(v):
                    budget[0] -= 1
                    if budget[0] < 0:
                        yield list(path)
                        path.pop()
                        return
                    if self.path_feasible(path):
                        for r in go(kid, path):
                            any1 = True
                            yield r
                else:
                    for r in go(kid, path):
                        any1 = True
                        yield r
                path.pop()
            if not any1:
                failed.add(key)
        for r in go(g, []):
            yield r
            if budget[0] < 0:
                return

    def deps(self, a):
        """Atoms an interpreted term is computed from."""
        k = ('deps', a)
        r = self.memo.get(k)
        if r is None:
            r = set()
            nm = self.atoms.names[a]
            if isinstance(nm, tuple) and nm and nm[0] in ITERMS:
                for x in nm[1:]:
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'L':
                        for b, _ in x[2]:
                            r.add(b)
                            r |= self.deps(b)
            self.memo[k] = r
        return r

    def infeasible(self, g, limit=48):
        """True only when every path of g is refuted by bounds propagation."""
        return self.feasible(g, 200) is None

    # -- printing ------------------------------------------------------------------
    def show_lin(self, l):
        if not (isinstance(l, tuple) and l and l[0] == 'L'):
            return show_term(l)
        s = ''
        for t, c in l[2]:
            n = show_name(self, self.atoms.names[t])
            if c == 1:
                s += '+' + n
            elif c == -1:
                s += '-' + n
            else:
                s += '%+d*%s' % (c, n)
        if l[1] or not s:
            s += '%+d' % l[1] if s else str(l[1])
        return s[1:] if s.startswith('+') else s

    def show_path(self, path):
        out = []
        for v, a, b in path:
            k = self.show_lin(('L', 0, self.keyterms[v]))
            dl, dh = self.dom[v]
            if a == b:
                out.append('%s==%s' % (k, a))
            elif a == dl:
                out.append('%s<=%s' % (k, b))
            elif b == dh:
                out.append('%s>=%s' % (k, a))
            else:
                out.append('%s<=%s<=%s' % (a, k, b))
        return ' && '.join(out) or 'always'

    def show_guard(self, g, limit=4):
        if g == self.T:
            return 'always'
        if g == self.F:
            return 'never'
        ps = self.sat_paths(g, limit + 1)
        s = ' || '.join('(' + self.show_path(p) + ')' for p in ps[:limit])
        return s + (' || ...' if len(ps) > limit else '')

    def show(self, n, limit=4):
        if self.is_term(n):
            return self.show_lin(self.val(n))
        out = []
        for t in self.terminals(n)[:limit]:
            out.append('%s if %s' % (self.show_lin(t), self.show_guard(
                self.where(n, lambda x, t=t: x == t), 2)))
        return '{' + '; '.join(out) + '}'


def show_term(t):
    if isinstance(t, tuple):
        return '(' + ' '.join(show_term(x) for x in t) + ')'
    return str(t)


def show_name(m, n):
    if isinstance(n, str):
        return n
    if isinstance(n, tuple):
        if n and n[0] == 'L' and len(n) == 3 and isinstance(n[2], tuple):
            return m.show_lin(n)
        if n and n[0] == 'f':
            s = ''
            for c in n[1:]:
                if isinstance(c, tuple) and c and c[0] == '[':
                    s += '[' + show_name(m, c[1]) + ']'
                else:
                    s += ('.' if s else '') + str(c)
            return s
        if not n:
            return '()'
        return str(n[0]) + '(' + ','.join(show_name(m, x) for x in n[1:]) + ')'
    return str(n)
