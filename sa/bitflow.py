"""Forward interpretation of the typed IR over a bit-provenance domain.

Every input byte is a symbol whose value set is a subset of 0..255 and whose bits
are tracked individually; integers are exact linear forms over those bits, so
shifts, masks and concatenations keep the origin and weight of each bit.  Traces
are partitioned on the value sets of input symbols where control flow (or an
operation outside the domain) depends on them: evaluation is abandoned with the
parts to consider, and each part is evaluated on its own.  Nothing is executed and
no solver is involved; what is not understood is refused (Stop)."""
import math
import os
import time
import timelimit
from interp import lambda_spec, int_type, trange, unref, strip_cv, targ, is_ptr, is_obj, is_iter

FULL = (1 << 256) - 1


class Split(Exception):
    def __init__(self, sym, parts):
        Exception.__init__(self, sym, len(parts))
        self.sym, self.parts = sym, parts


class Stop(Exception):
    """Not understood."""


class Fault(Exception):
    """The construct misbehaves for every input of the current part."""

    def __init__(self, kind, text, line=0):
        Exception.__init__(self, kind, text)
        self.kind, self.text, self.line = kind, text, line


class Un:
    def __repr__(self):
        return 'uninitialised'


UN = Un()
_RNG = {}


class _Not:
    def __repr__(self):
        return 'not'


NOT = _Not()


class L:
    """c + sum coef * key; key = (symbol, bit) or (symbol, -1) for integers."""
    __slots__ = ('c', 't')

    def __init__(self, c, t):
        self.c, self.t = c, t

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.c, frozenset(self.t.items())))

    def __repr__(self):
        return ' + '.join([str(self.c)] + ['%d*%s' % (k, x) for x, k in sorted(
            self.t.items(), key=str)])


def norm(c, t):
    t = {k: v for k, v in t.items() if v}
    return L(c, t) if t else c


def add(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    ca, ta = (a, {}) if isinstance(a, int) else (a.c, a.t)
    cb, tb = (b, {}) if isinstance(b, int) else (b.c, b.t)
    t = dict(ta)
    for x, v in tb.items():
        t[x] = t.get(x, 0) + k * v
    return norm(ca + k * cb, t)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    return norm(a.c * k, {x: v * k for x, v in a.t.items()})


class H:
    """A storage cell."""
    __slots__ = ('v', 't')

    def __init__(self, v, t):
        self.v, self.t = v, t


class Obj:
    def __init__(self, t, f):
        self.t, self.f = t, f


class Vec:
    def __init__(self, items, et, fixed=False):
        self.items, self.et, self.fixed = items, et, fixed


class Map:
    def __init__(self, kt, vt):
        self.d, self.kt, self.vt = {}, kt, vt


class Str:
    def __init__(self, s):
        self.s = s


class Bytes:
    """Input bytes; size is an int or a linear form."""

    def __init__(self, name, size, base=0):
        self.name, self.size, self.base = name, size, base


class One:
    def __init__(self, h):
        self.h = h


class Ptr:
    __slots__ = ('seq', 'i')

    def __init__(self, seq, i):
        self.seq, self.i = seq, i


class It:
    __slots__ = ('seq', 'i', 'rev')

    def __init__(self, seq, i, rev=False):
        self.seq, self.i, self.rev = seq, i, rev


class MapIt:
    __slots__ = ('m', 'k')

    def __init__(self, m, k):
        self.m, self.k = m, k


class Lit:
    """Pointer into a string literal."""
    __slots__ = ('s', 'i')

    def __init__(self, s, i=0):
        self.s, self.i = s, i


class Lam:
    def __init__(self, e, fr):
        self.e, self.fr = e, fr


class Fn:
    def __init__(self, m, q):
        self.m, self.q = m, q


class Opq:
    def __init__(self, what):
        self.what = what


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'this', 'vars', 'up')

    def __init__(self, fn, this, up=None):
        self.fn, self.this, self.vars, self.up = fn, this, {}, up

    def get(self, vid):
        f = self
        while f is not None:
            if vid in f.vars:
                return f.vars[vid]
            f = f.up
        raise Stop('unbound variable')


class Eval:
    STEPS = 400000

    def __init__(self, prog, dom=None, hooks=None):
        self.P = prog
        self.dom = dom or {}
        self.hooks = hooks or {}
        self.frames = []
        self.steps = 0
        self.log = []
        self.prints = []
        self.globals = {}
        self.called = set()
        self.depth = 0
        self.string_from = None

    # ------------------------------------------------------------ symbols
    def byte(self, sym):
        d = self.dom.get(sym, FULL)
        if d & (d - 1) == 0:
            return d.bit_length() - 1
        if d == FULL:
            return L(0, {(sym, k): 1 << k for k in range(8)})
        c, t = 0, {}
        for k in range(8):
            one = d & _BIT[k]
            if one == d:
                c += 1 << k
            elif one:
                t[(sym, k)] = 1 << k
        return norm(c, t)

    def bit(self, sym, k):
        d = self.dom.get(sym, FULL)
        one = d & _BIT[k]
        return 0 if not one else 1 if one == d else L(0, {(sym, k): 1})

    def integer(self, sym, lo, hi):
        lo, hi = self.dom.get(sym, (lo, hi))
        self.dom.setdefault(sym, (lo, hi))
        return lo if lo == hi else L(0, {(sym, -1): 1})

    def rng(self, v):
        if isinstance(v, int):
            return v, v
        if not isinstance(v, L):
            raise Stop('value %r' % (v,))
        lo = hi = v.c
        g = {}
        for (s, k), c in v.t.items():
            if k == -1:
                a, b = self.dom[s]
                lo += c * (a if c > 0 else b)
                hi += c * (b if c > 0 else a)
            else:
                g.setdefault(s, []).append((k, c))
        for s, ks in g.items():
            d = self.dom.get(s, FULL)
            if d == FULL:
                for k, c in ks:
                    if c < 0:
                        lo += c
                    else:
                        hi += c
                continue
            key = (tuple(sorted(ks)), d)
            r = _RNG.get(key)
            if r is None:
                a = b = None
                for x in range(256):
                    if d >> x & 1:
                        y = sum(c for k, c in ks if x >> k & 1)
                        a = y if a is None or y < a else a
                        b = y if b is None or y > b else b
                r = _RNG[key] = (a, b)
            lo += r[0]
            hi += r[1]
        return lo, hi

    def syms(self, v):
        return {s for s, k in v.t} if isinstance(v, L) else set()

    def split_bit(self, key):
        s, k = key
        if k == -1:
            lo, hi = self.dom[s]
            mid = (lo + hi) // 2
            raise Split(s, [(lo, mid), (mid + 1, hi)])
        d = self.dom.get(s, FULL)
        raise Split(s, [d & _BIT[k], d & ~_BIT[k] & FULL])

    def split_on(self, v, pred):
        """Partition so that pred (of the value range) becomes determined.
        pred(lo, hi) -> True / False / None."""
        best = None
        for (s, k), c in v.t.items():
            if best is None or abs(c) > abs(best[1]):
                best = (s, c, k)
        s = best[0]
        if best[2] == -1:
            lo, hi = self.dom[s]
            rest = norm(v.c, {x: y for x, y in v.t.items() if x[0] != s})
            a, b = self.rng(rest)
            c = best[1]
            if a == b:
                # threshold by bisection on the monotone predicate
                parts = []
                self._cut(lambda x: pred(c * x + a, c * x + a), lo, hi, parts, 0)
                if len(parts) > 1:
                    raise Split(s, parts)
            mid = (lo + hi) // 2
            raise Split(s, [(lo, mid), (mid + 1, hi)])
        d = self.dom.get(s, FULL)
        ks = [(k, c) for (x, k), c in v.t.items() if x == s]
        rest = norm(v.c, {x: y for x, y in v.t.items() if x[0] != s})
        a, b = self.rng(rest)
        T = F = 0
        U = []
        for x in range(256):
            if not d >> x & 1:
                continue
            y = sum(c for k, c in ks if x >> k & 1)
            r = pred(a + y, b + y)
            if r is None:
                U.append(x)
            elif r:
                T |= 1 << x
            else:
                F |= 1 << x
        parts = [p for p in (T, F) if p]
        if U:
            if len(U) > 4 and not parts:
                h = len(U) // 2
                parts += [sum(1 << x for x in U[:h]), sum(1 << x for x in U[h:])]
            elif len(U) > 4:
                parts.append(sum(1 << x for x in U))
            else:
                parts += [1 << x for x in U]
        if len(parts) < 2:
            if not U:
                return bool(T)
            raise Stop('partition does not progress')
        raise Split(s, parts)

    def _cut(self, f, lo, hi, parts, depth):
        a, b = f(lo), f(hi)
        if lo == hi:
            parts.append((lo, hi))
            return
        if a == b:
            # equality holds inside at most once
            x = self._inside(f, lo, hi, a)
            if x is None:
                parts.append((lo, hi))
                return
            if lo < x:
                parts.append((lo, x - 1))
            parts.append((x, x))
            if x < hi:
                parts.append((x + 1, hi))
            return
        l, h = lo, hi
        while h - l > 1:
            m = (l + h) // 2
            if f(m) == a:
                l = m
            else:
                h = m
        parts.append((lo, l))
        parts.append((h, hi))

    point = None

    def _inside(self, f, lo, hi, a):
        p = self.point
        if p is not None and lo <= p <= hi and f(p) != a:
            return p
        return None

    def cmp(self, op, a, b):
        """Python bool of a op b."""
        if isinstance(a, float) or isinstance(b, float):
            a, b = self._f(a), self._f(b)
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b,
                    '>': a > b, '>=': a >= b}[op]
        d = add(a, b, -1)

        def pred(lo, hi):
            if op == '==':
                return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
            if op == '!=':
                return False if lo == hi == 0 else True if lo > 0 or hi < 0 else None
            if op == '<':
                return True if hi < 0 else False if lo >= 0 else None
            if op == '<=':
                return True if hi <= 0 else False if lo > 0 else None
            if op == '>':
                return True if lo > 0 else False if hi <= 0 else None
            return True if lo >= 0 else False if hi < 0 else None
        r = pred(*self.rng(d))
        if r is None:
            self.point = None
            if len(d.t) == 1:
                (x, c), = d.t.items()
                if x[1] == -1 and d.c % c == 0:
                    self.point = -d.c // c
            r = self.split_on(d, pred)
            if r is None:
                raise Stop('partition does not progress')
        return r

    def truth(self, v):
        if isinstance(v, (int, L)):
            return self.cmp('!=', v, 0)
        if isinstance(v, float):
            return v != 0
        if v is None:
            return False
        if isinstance(v, (Ptr, Lit, It, Fn, Lam)) or getattr(v, 'truthy', False):
            return True
        if v is UN:
            raise Fault('uninit', 'a decision depends on an uninitialised value')
        raise Stop('condition on %r' % (v,))

    def bits(self, v):
        """(constant, {position: key}) when v is a concatenation of bits."""
        if isinstance(v, int):
            return (v, {}) if v >= 0 else None
        out = {}
        k = v.c
        for x, c in v.t.items():
            a = abs(c)
            if x[1] == -1 or a & (a - 1):
                return None
            p = a.bit_length() - 1
            if p in out:
                return None
            if c < 0:
                k -= a                            # 2**p * (1 - bit)
                x = (NOT, x)
            out[p] = x
        if k < 0 or any(k >> p & 1 for p in out):
            return None
        return k, out

    @staticmethod
    def put(c, t, p, x):
        """Bit x at position p; returns the new constant."""
        if x[0] is NOT:
            t[x[1]] = t.get(x[1], 0) - (1 << p)
            return c + (1 << p)
        t[x] = t.get(x, 0) + (1 << p)
        return c

    def need_bits(self, v, w):
        """Bit view of v modulo 2**w."""
        if isinstance(v, int):
            return v & ((1 << w) - 1), {}
        b = self.bits(v)
        if b is None:
            # fix the lowest offending symbol
            x = min(v.t, key=lambda x: (abs(v.t[x]) & -abs(v.t[x]), str(x)))
            self.split_bit(x)
        return b[0] & ((1 << w) - 1), {p: x for p, x in b[1].items() if p < w}

    def modpow(self, v, n):
        return self.divmod(v, 1 << n)[1]

    def divmod(self, v, d):
        """Floor division and remainder by a positive constant."""
        if isinstance(v, int):
            return v // d, v % d
        qc, qt, rc, rt = v.c // d, {}, v.c % d, {}
        for x, c in v.t.items():
            if c % d == 0:
                qt[x] = c // d
            else:
                rt[x] = c
        low = norm(rc, rt)
        lo, hi = self.rng(low)
        a, b = lo // d, hi // d
        if a != b:
            x = max(rt, key=lambda x: (abs(rt[x]), str(x)))
            if x[1] == -1:
                self.split_on(low, lambda l, h: None if l // d != h // d else
                              (l // d) % 2 == 0)
            self.split_bit(x)
        return norm(qc + a, qt), add(low, -a * d)

    def fit(self, v, t):
        it = int_type(t)
        if it is None or not isinstance(v, (int, L)):
            return v
        if unref(t) == 'bool':
            if isinstance(v, int):
                return int(v != 0)
            lo, hi = self.rng(v)
            if lo >= 0 and hi <= 1:
                return v
            return int(self.truth(v))
        lo, hi = trange(t)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            w = 1 << it[0]
            v %= w
            return v - w if v > hi else v
        a, b = self.rng(v)
        if lo <= a and b <= hi:
            return v
        w = 1 << it[0]
        k = (a - lo) // w
        if k == (b - lo) // w:
            return add(v, -k * w)
        if not it[1]:
            return self.modpow(v, it[0])
        return add(self.modpow(add(v, -lo), it[0]), lo)

    # ------------------------------------------------------------ operations
    def _f(self, v):
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, L):
            self.fix(v)
        raise Stop('floating value')

    def fix(self, v):
        """Concrete value: partition on what it depends on."""
        if isinstance(v, int):
            return v
        if v is UN:
            raise Fault('uninit', 'an uninitialised value is used')
        if not isinstance(v, L):
            raise Stop('integer expected')
        x = max(v.t, key=lambda x: (abs(v.t[x]), str(x)))
        s = x[0]
        if x[1] == -1:
            lo, hi = self.dom[s]
            if hi - lo > 300:
                raise Stop('symbolic value needed as a number')
            raise Split(s, [(k, k) for k in range(lo, hi + 1)])
        self.split_bit(x)

    def arith(self, op, a, b, t, line=0):
        if a is UN or b is UN:
            raise Fault('uninit', 'an uninitialised value is used', line)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('arith')
        if isinstance(a, float) or isinstance(b, float) or unref(t) in ('f32', 'f64', 'f80'):
            a, b = self._f(a), self._f(b)
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            raise Stop('float ' + op)
        for x in (a, b):
            if not isinstance(x, (int, L)):
                raise Stop('operand %r' % (x,))
        w = (int_type(t) or (64, True))[0]
        if op == '+':
            r = add(a, b)
        elif op == '-':
            r = add(a, b, -1)
        elif op == '*':
            if isinstance(b, L) and isinstance(a, L):
                b = self.fix(b)
            r = scale(a, b) if isinstance(b, int) else scale(b, a)
        elif op in ('<<', '>>'):
            n = self.fix(b)
            if n < 0 or n >= w:
                raise Fault('shift', 'shift of %d bits by %d' % (w, n), line)
            if op == '<<':
                r = scale(a, 1 << n)
            else:
                r = self.divmod(a, 1 << n)[0]
        elif op in ('/', '%'):
            d = self.fix(b)
            if d == 0:
                raise Fault('div', 'division by zero', line)
            neg = False
            if d < 0:
                a, d, neg = scale(a, -1), -d, True
            if self.cmp('<', a, 0):
                q, m = self.divmod(scale(a, -1), d)
                q, m = scale(q, -1), scale(m, -1)
            else:
                q, m = self.divmod(a, d)
            r = q if op == '/' else (scale(m, -1) if neg else m)
        elif op in ('&', '|', '^'):
            r = self.bitop(op, a, b, w)
        else:
            raise Stop('operator ' + op)
        return self.fit(r, t)

    def bitop(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == '&' else a | b if op == '|' else a ^ b
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and y >= 0 and y & (y + 1) == 0:
                    return self.modpow(x, y.bit_length())
        ca, ba = self.need_bits(a, w)
        cb, bb = self.need_bits(b, w)
        c, t = 0, {}
        for p in range(w):
            x = ba.get(p, ca >> p & 1)
            y = bb.get(p, cb >> p & 1)
            if isinstance(y, tuple) and not isinstance(x, tuple):
                x, y = y, x
            if not isinstance(x, tuple):
                r = x & y if op == '&' else x | y if op == '|' else x ^ y
                c |= r << p
            elif not isinstance(y, tuple):
                if op == '&':
                    if y:
                        c = self.put(c, t, p, x)
                elif op == '|':
                    if y:
                        c += 1 << p
                    else:
                        c = self.put(c, t, p, x)
                elif y:
                    c = self.put(c, t, p, x[1] if x[0] is NOT else (NOT, x))
                else:
                    c = self.put(c, t, p, x)
            elif x == y:
                if op != '^':
                    c = self.put(c, t, p, x)
            else:
                self.split_bit(x[1] if x[0] is NOT else x)
        return norm(c, t)

    # ------------------------------------------------------------ storage
    def make(self, t, zero=False):
        """A fresh cell of type t."""
        t = unref(t)
        if t.startswith('V<'):
            return H(Vec([], targ(t, 0)), t)
        if t.startswith('A<'):
            n = int(targ(t, 0))
            if n > 70000:
                raise Stop('large array')
            et = targ(t, 1)
            return H(Vec([self.make(et, zero) for _ in range(n)], et, True), t)
        if t.startswith('M<'):
            return H(Map(targ(t, 0), targ(t, 1)), t)
        if t == 'str':
            return H(Str(''), t)
        if t.startswith('T:'):
            return H(self.object(t, zero), t)
        if is_ptr(t):
            return H(None if zero or t[:2] in ('U<', 'S<') else UN, t)
        if int_type(t):
            return H(0 if zero else UN, t)
        return H(0.0 if zero and t.startswith('f') else UN, t)

    def object(self, t, zero=False):
        rec = self.P.records.get(t[2:])
        if rec is None:
            return Obj(t, {})
        o = Obj(t, {})
        for b in rec['bases']:
            o.f.update(self.object(b, zero).f)
        h = H(o, t)
        for f in rec['fields']:
            if 'init' in f and f['init'] is not None:
                o.f[f['n']] = self.cell_from(f['ty'], f['init'], h)
            else:
                o.f[f['n']] = self.make(f['ty'], zero)
        return o

    def cell_from(self, t, e, this=None):
        if this is not None:
            self.frames.append(Frame({'q': 'init', 'm': ''}, this))
        try:
            return self.init_cell(t, e)
        finally:
            if this is not None:
                self.frames.pop()

    def init_cell(self, t, e):
        if e is None:
            return self.make(t)
        if strip_cv(t).startswith('R<'):
            return self.lv(e)
        if e[0] == 'ilist':
            return self.from_list(t, e)
        h = self.make(t, True) if not is_obj(t) else H(None, unref(t))
        h.v = self.conv(self.own(self.rv(e)), t)
        return h

    def conv(self, v, t):
        if isinstance(v, (int, L)):
            return self.fit(v, t) if int_type(t) else v
        if unref(t) == 'str' and isinstance(v, Lit):
            return Str(v.s[v.i:])
        return v

    def from_list(self, t, e):
        tt = unref(t)
        args = e[3]
        if tt.startswith('T:'):
            h = self.make(tt, True)
            rec = self.P.records.get(tt[2:])
            if rec is None:
                raise Stop('initialiser list of ' + tt)
            for f, a in zip(rec['fields'], args):
                h.v.f[f['n']] = self.cell_from(f['ty'], a, h) if self.uses_this(a) \
                    else self.init_cell(f['ty'], a)
            return h
        if tt.startswith('A<'):
            h = self.make(tt, True)
            et = h.v.et
            if len(args) == 1 and args[0][0] == 'ilist' and et[:2] not in ('A<', 'T:'):
                args = args[0][3]
            for i, a in enumerate(args):
                h.v.items[i] = self.init_cell(et, a)
            return h
        if tt.startswith(('V<', 'I<')):
            et = targ(tt, 0)
            return H(Vec([self.init_cell(et, a) for a in args], et), tt)
        if len(args) == 1:
            return self.init_cell(t, args[0])
        if not args:
            return self.make(t, True)
        raise Stop('initialiser list of ' + tt)

    def uses_this(self, e):
        if isinstance(e, (list, tuple)):
            return bool(e) and (e[0] == 'this' or any(self.uses_this(x) for x in e))
        return False

    def copy(self, v):
        if isinstance(v, Obj):
            return Obj(v.t, {k: H(self.copy(h.v), h.t) for k, h in v.f.items()})
        if isinstance(v, Vec):
            return Vec([H(self.copy(h.v), h.t) for h in v.items], v.et, v.fixed)
        if isinstance(v, Map):
            r = Map(v.kt, v.vt)
            r.d = {k: H(self.copy(h.v), h.t) for k, h in v.d.items()}
            return r
        if isinstance(v, Str):
            return Str(v.s)
        return v

    def own(self, v):
        """A value for a new cell: objects reached by an lvalue are copied."""
        return v

    def at(self, seq, i, line=0):
        """The cell of an element."""
        if isinstance(seq, Bytes):
            j = add(i, seq.base)
            # inside 0 .. size-1
            if self.cmp('<', i, 0) or not self.cmp('<', i, seq.size):
                raise Fault('bounds', 'byte %s of %s bytes is read' % (i, seq.size), line)
            return H(self.byte((seq.name, str(j) if isinstance(j, L) else j)), 'u8')
        if isinstance(seq, One):
            i = self.fix(i)
            if i != 0:
                raise Fault('bounds', 'element %d of a single object' % i, line)
            return seq.h
        i = self.fix(i)
        if i < 0 or i >= len(seq.items):
            raise Fault('bounds', 'element %d of %d' % (i, len(seq.items)), line)
        return seq.items[i]

    def size(self, seq):
        if isinstance(seq, Bytes):
            return seq.size
        if isinstance(seq, One):
            return 1
        return len(seq.items)

    def deref(self, v, line=0):
        if v is None:
            raise Fault('null', 'a null pointer is dereferenced', line)
        if v is UN:
            raise Fault('uninit', 'an uninitialised pointer is dereferenced', line)
        if isinstance(v, Ptr):
            return self.at(v.seq, v.i, line)
        if isinstance(v, It):
            return self.at(v.seq, add(v.i, -1) if v.rev else v.i, line)
        if isinstance(v, MapIt):
            if v.k is None:
                raise Fault('bounds', 'the end of a map is dereferenced', line)
            o = Obj('pair', {'first': H(v.k, v.m.kt), 'second': v.m.d[v.k]})
            return H(o, 'pair')
        if isinstance(v, Lit):
            i = self.fix(v.i)
            if i > len(v.s):
                raise Fault('bounds', 'beyond a string', line)
            return H(ord(v.s[i]) if i < len(v.s) else 0, 'i8')
        raise Stop('dereference of %r' % (v,))

    # ------------------------------------------------------------ lvalues
    def lv(self, e):
        """The cell an lvalue (or temporary) designates."""
        k = e[0]
        if k == 'ref':
            return self.frames[-1].get(e[3])
        if k == 'mem':
            b = self.deref(self.rv(e[3]), e[1]) if e[5] else self.lv(e[3])
            o = b.v
            if not isinstance(o, Obj):
                raise Stop('member of %r' % (o,))
            if e[4] not in o.f:
                raise Stop('member ' + e[4])
            return o.f[e[4]]
        if k == 'un' and e[3] == '*':
            return self.deref(self.rv(e[4]), e[1])
        if k == 'un' and e[3] in ('++', '--'):
            self.rv(e)
            return self.lv(e[4])
        if k == 'idx':
            seq, i = self.elem(e)
            return self.at(seq, i, e[1])
        if k == 'asg':
            self.rv(e)
            return self.lv(e[4])
        if k == 'cond':
            return self.lv(e[4] if self.cond(e[3]) else e[5])
        if k == 'this':
            return self.frames[-1].this
        if k == 'gref':
            return self.glob(e)
        if k == 'cast' and e[3] not in ('decay', 'IntegralCast', 'IntegralToBoolean'):
            return self.lv(e[4])
        if k == 'opcall':
            r = self.opcall(e, True)
            return r if isinstance(r, H) else H(r, unref(e[2]))
        if k in ('call', 'mcall', 'icall'):
            r = self.callx(e, True)
            return r if isinstance(r, H) else H(r, unref(e[2]))
        v = self.rv(e)
        return v if isinstance(v, H) else H(v, unref(e[2]))

    def glob(self, e):
        n = e[3]
        if self.frames:
            k = self.frames[-1].fn['q'].split('::lambda')[0] + '::' + n
            if k in self.globals:
                return self.globals[k]            # a static of this function
        if n in self.globals:
            return self.globals[n]
        v = self.P.vars.get(n) if hasattr(self.P, 'vars') else None
        if v is not None and v.get('init') is not None:
            h = self.init_cell(v['ty'], v['init'])
        else:
            h = H(Opq(n), unref(e[2]))
        self.globals[n] = h
        return h

    def elem(self, e):
        """(sequence, index) of a built-in subscript."""
        base = e[3]
        i = self.rv(e[4])
        if i is UN:
            raise Fault('uninit', 'an uninitialised index is used', e[1])
        if base[0] == 'cast' and base[3] == 'decay' and base[4][0] != 'strlit':
            return self.lv(base[4]).v, i
        p = self.rv(base)
        if isinstance(p, Ptr):
            return p.seq, add(p.i, i)
        if isinstance(p, Lit):
            h = self.deref(Lit(p.s, add(p.i, i)), e[1])
            return One(h), 0
        if p is None:
            raise Fault('null', 'a null pointer is subscripted', e[1])
        raise Stop('subscript of %r' % (p,))

    def addr(self, e):
        if e[0] == 'fnref':
            return self.rv(e)
        if e[0] == 'idx':
            seq, i = self.elem(e)
            return Ptr(seq, i)
        if e[0] == 'opcall' and e[3] == '[]':
            h = self.lv(e[6][0])
            if isinstance(h.v, Vec):
                return Ptr(h.v, self.rv(e[6][1]))
        if e[0] == 'un' and e[3] == '*':
            p = self.rv(e[4])
            if isinstance(p, (Ptr, Lit)):
                return p
            if isinstance(p, It):
                return Ptr(p.seq, add(p.i, -1) if p.rev else p.i)
        return Ptr(One(self.lv(e)), 0)

    # ------------------------------------------------------------ rvalues
    def rv(self, e):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Stop('too many steps')
        f = getattr(self, 'e_' + e[0], None)
        if f is None:
            raise Stop('expression %s' % e[0])
        return f(e)

    def e_int(self, e):
        return e[3]

    def e_float(self, e):
        return float(e[3])

    def e_null(self, e):
        return None

    def e_zero(self, e):
        return self.make(e[2], True).v

    def e_strlit(self, e):
        return Lit(e[3])

    def e_this(self, e):
        return Ptr(One(self.frames[-1].this), 0)

    def e_fnref(self, e):
        return Fn(e[3], e[4] if len(e) > 4 else '')

    def e_defarg(self, e):
        return self.rv(e[3])

    def e_ld(self, e):
        h = self.lv(e[3])
        if self.wide(e[3], h):
            return self.load_bytes(self.rv(e[3][4]), e[3][2], e[1])
        return h.v

    def e_ref(self, e):
        return self.lv(e).v

    e_mem = e_idx = e_ref

    def e_gref(self, e):
        return self.glob(e).v

    ndebug = False

    def e_cond(self, e):
        if self.ndebug and fails(e[5]):
            return None             # assertions are empty
        return self.rv(e[4] if self.cond(e[3]) else e[5])

    def e_lambda(self, e):
        return Lam(e, self.frames[-1])

    def e_ilist(self, e):
        t = unref(e[2])
        if is_obj(t) or len(e[3]) != 1:
            return self.from_list(t, e).v
        return self.rv(e[3][0])

    def e_stmtexpr(self, e):
        raise Stop('statement expression')

    def e_unk(self, e):
        raise Stop('expression %s' % e[3])

    def e_throw(self, e):
        raise Stop('throw')

    def e_delete(self, e):
        self.rv(e[3])

    def e_new(self, e):
        t, init = e[3], e[4] if len(e) > 4 else None
        if init is not None and init[0] == 'ctor' and t.startswith('T:'):
            v = self.rv(init)
            return Ptr(One(H(v, t)), 0)
        h = self.init_cell(t, init) if init is not None else self.make(t)
        return Ptr(One(h), 0)

    def cond(self, e):
        if e[0] == 'bin' and e[3] == '&&':
            return self.cond(e[4]) and self.cond(e[5])
        if e[0] == 'bin' and e[3] == '||':
            return self.cond(e[4]) or self.cond(e[5])
        if e[0] == 'un' and e[3] == '!':
            return not self.cond(e[4])
        return self.truth(self.rv(e))

    def e_bin(self, e):
        op = e[3]
        if op in ('&&', '||'):
            return int(self.cond(e))
        if op == ',':
            self.rv(e[4])
            return self.rv(e[5])
        a, b = self.rv(e[4]), self.rv(e[5])
        return self.binop(op, a, b, e[2], e[1])

    def binop(self, op, a, b, t, line):
        if a is UN or b is UN:
            raise Fault('uninit', 'an uninitialised value is used', line)
        pa = a is None or isinstance(a, (Ptr, Lit, It, Fn, MapIt))
        pb = b is None or isinstance(b, (Ptr, Lit, It, Fn, MapIt))
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if pa or pb:
                return int(self.ptrcmp(op, a, b))
            if isinstance(a, Opq) or isinstance(b, Opq):
                raise Stop('comparison of opaque values')
            return int(self.cmp(op, a, b))
        if pa or pb:
            if op == '+' and pb:
                a, b = b, a
                pb = False
            if isinstance(b, (int, L)):
                k = 1 if op == '+' else -1
                if isinstance(a, Ptr):
                    return Ptr(a.seq, add(a.i, b, k))
                if isinstance(a, Lit):
                    return Lit(a.s, add(a.i, b, k))
                if isinstance(a, It):
                    return It(a.seq, add(a.i, b, -k if a.rev else k), a.rev)
                if a is None:
                    if b == 0:
                        return None
                    raise Fault('null', 'arithmetic on a null pointer', line)
            if op == '-' and isinstance(a, (Ptr, It)) and isinstance(b, (Ptr, It)) and \
                    a.seq is b.seq:
                d = add(a.i, b.i, -1)
                return scale(d, -1) if isinstance(a, It) and a.rev else d
            raise Stop('pointer arithmetic')
        return self.arith(op, a, b, t, line)

    def ptrcmp(self, op, a, b):
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            r = a.m is b.m and a.k == b.k
            return r if op == '==' else not r
        if a is None or b is None:
            r = a is None and b is None
            if isinstance(a, int) or isinstance(b, int):
                r = (a or 0) == (b or 0)
            if op in ('==', '!='):
                return r if op == '==' else not r
            raise Stop('order of null')
        if isinstance(a, (Ptr, It)) and type(a) is type(b):
            same = a.seq is b.seq or (isinstance(a.seq, One) and isinstance(b.seq, One) and
                                      a.seq.h is b.seq.h)
            if same:
                if isinstance(a, It) and a.rev:
                    return self.cmp(op, b.i, a.i)
                return self.cmp(op, a.i, b.i)
            if op in ('==', '!='):
                return op == '!='
        if isinstance(a, Lit) and isinstance(b, Lit) and a.s == b.s:
            return self.cmp(op, a.i, b.i)
        raise Stop('pointer comparison')

    def e_un(self, e):
        op = e[3]
        if op == '!':
            return int(not self.cond(e[4]))
        if op == '&':
            return self.addr(e[4])
        if op == '*':
            return self.deref(self.rv(e[4]), e[1]).v
        if op in ('++', '--', 'post++', 'post--'):
            h = self.lv(e[4])
            old = h.v
            d = 1 if '++' in op else -1
            t = e[4][2]
            if old is UN:
                raise Fault('uninit', 'an uninitialised value is used', e[1])
            new = self.binop('+', old, d, t, e[1])
            if int_type(t):
                new = self.fit(new, t)
            h.v = new
            return old if op.startswith('post') else new
        v = self.rv(e[4])
        if op == '-':
            if isinstance(v, float):
                return -v
            return self.arith('-', 0, v, e[2], e[1])
        if op == '+':
            return v
        if op == '~':
            if v is UN:
                raise Fault('uninit', 'an uninitialised value is used', e[1])
            return self.fit(add(-1, v, -1), e[2])
        raise Stop('unary ' + op)

    def e_cast(self, e):
        k = e[3]
        if k == 'decay':
            if e[4][0] == 'strlit':
                return self.rv(e[4])
            v = self.lv(e[4]).v
            if isinstance(v, Vec):
                return Ptr(v, 0)
            return v
        if k == 'void':
            if e[4][0] not in ('ref', 'mem', 'gref'):
                self.rv(e[4])
            return None
        v = self.rv(e[4])
        if k == 'IntegralCast':
            return self.fit(v, e[2])
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return int(self.truth(v))
        if k == 'IntegralToFloating':
            return self._f(v)
        if k == 'FloatingToIntegral':
            return self.fit(int(v), e[2])
        if k in ('base', 'BitCast', 'Dynamic', 'FloatingCast', 'NoOp'):
            return v
        raise Stop('cast ' + k)

    def assign(self, h, v, t, src=None):
        if isinstance(v, (Obj, Vec, Map, Str)):
            v = self.copy(v)
            if isinstance(h.v, Obj) and isinstance(v, Obj) and h.v.f:
                for k, x in v.f.items():
                    if k in h.v.f:
                        h.v.f[k].v = x.v
                return
            if isinstance(h.v, Vec) and isinstance(v, Vec):
                h.v.items = v.items
                return
            if isinstance(h.v, Str) and isinstance(v, Str):
                h.v.s = v.s
                return
            h.v = v
            return
        if isinstance(h.v, Str) and isinstance(v, Lit):
            h.v.s = v.s[v.i:]
            return
        h.v = self.conv(v, h.t if h.t and int_type(h.t) else t)

    def wide(self, e, h):
        """e dereferences a pointer to something wider than the bytes it points at."""
        if e[0] != 'un' or e[3] != '*' or not isinstance(e[2], str):
            return False
        a, b = int_type(unref(e[2])), int_type(unref(h.t or ''))
        return bool(a and b and a[0] > 8 and b[0] == 8)

    def store_bytes(self, p, v, t, line):
        """The bytes of v, the least significant first (the platform the build is for)."""
        w = int_type(unref(t))[0]
        c, b = self.need_bits(self.fit(v, 'u%d' % w), w)
        for i in range(w // 8):
            k, m = c >> 8 * i & 255, {}
            for j in range(8):
                if 8 * i + j in b:
                    k = self.put(k, m, j, b[8 * i + j])
            h = self.at(p.seq, add(p.i, i), line)
            h.v = self.conv(norm(k, m), h.t)

    def load_bytes(self, p, t, line):
        w, sg = int_type(unref(t))
        v = 0
        for i in range(w // 8):
            x = self.at(p.seq, add(p.i, i), line).v
            if x is UN:
                return UN
            v = add(v, scale(self.fit(x, 'u8'), 1 << 8 * i))
        return self.conv(v, unref(t))

    def e_asg(self, e):
        op, t = e[3], e[2]
        if op in ('', '='):
            v = self.rv(e[5])
            h = self.lv(e[4])
            if self.wide(e[4], h):
                self.store_bytes(self.rv(e[4][4]), v, e[4][2], e[1])
                return v
            self.assign(h, v, t)
            return h.v
        h = self.lv(e[4])
        v = self.rv(e[5])
        ct = e[6] if len(e) > 6 and e[6] else t
        old = h.v
        if isinstance(old, (int, L)):
            old = self.fit(old, ct) if op not in ('<<', '>>') else old
        h.v = self.conv(self.binop(op, old, v, ct, e[1]), e[4][2])
        return h.v

    # ------------------------------------------------------------ calls
    def e_ctor(self, e):
        t = unref(e[2])
        kind, args = e[4], e[5]
        if t[:2] in ('U<', 'S<'):
            if not args or kind == 'default':
                return None
            if kind == 'move':
                h = self.lv(args[0])
                v, h.v = h.v, None
                return v
            return self.rv(args[0])
        if kind in ('copy', 'move') and args and not (t.startswith('T:') and e[6]):
            v = self.rv(args[0])
            return self.copy(v)
        if t.startswith('V<'):
            if kind == 'default' or not args:
                return Vec([], targ(t))
            if args[0][0] == 'ilist':
                return self.from_list(t, args[0]).v
            et = targ(t)
            if int_type(args[0][2]):
                n = self.fix(self.rv(args[0]))
                fill = self.rv(args[1]) if len(args) > 1 and args[1][0] not in (
                    'defarg', 'ctor') else None
                r = Vec([], et)
                for _ in range(self.lim(n)):
                    h = self.make(et, True)
                    if fill is not None:
                        h.v = self.copy(fill)
                    r.items.append(h)
                return r
            a, b = self.rv(args[0]), self.rv(args[1])
            return Vec(self.span(a, b), et)
        if t == 'str':
            if not args:
                return Str('')
            v = self.rv(args[0])
            if isinstance(v, Ptr) and self.string_from is not None:
                r = self.string_from(t, args)
                if r is not None:
                    return r
            if isinstance(v, Lit):
                return Str(v.s[v.i:])
            if isinstance(v, Str):
                return Str(v.s)
            raise Stop('string construction')
        if t.startswith(('std:', 'I<')):
            if args:
                return self.rv(args[0])
            return Opq(t)
        if t == 'lambda':
            return self.rv(args[0])
        if t.startswith('T:'):
            if kind == 'default' and not e[6]:
                return self.object(t, bool(e[7]))
            return self.construct(t, e[3], args, e)
        if t.startswith('A<'):
            return self.make(t, bool(e[7])).v
        if t.startswith('M<'):
            return self.make(t).v
        if len(args) == 1:
            return self.rv(args[0])
        raise Stop('construction of ' + t)

    def lim(self, n):
        if n > 100000:
            raise Stop('size %d' % n)
        return n

    def span(self, a, b):
        """Cells (copies) of the elements from a to b."""
        if not isinstance(a, (Ptr, It)) or not isinstance(b, (Ptr, It)):
            raise Stop('range')
        n = self.fix(add(b.i, a.i, -1))
        out = []
        if isinstance(a, It) and a.rev:
            for k in range(self.lim(-n)):
                h = self.at(a.seq, add(a.i, -1 - k))
                out.append(H(self.copy(h.v), h.t))
            return out
        for k in range(self.lim(n)):
            h = self.at(a.seq, add(a.i, k))
            out.append(H(self.copy(h.v), h.t))
        return out

    def construct(self, t, mangled, args, e):
        fn = self.P.fns.get(mangled)
        o = self.object(t)
        if fn is None or fn.get('body') is None:
            if args:
                raise Stop('constructor of ' + t)
            return o
        h = H(o, t)
        fr = self.bind(fn, args, h)
        self.frames.append(fr)
        try:
            for i in fn.get('inits', ()):
                if i.get('e') is None:
                    continue
                if 'field' in i and i.get('written'):
                    old = o.f.get(i['field'])
                    o.f[i['field']] = self.init_cell(old.t if old else 'Z', i['e'])
                elif 'field' not in i and i['e'][0] == 'ctor':
                    b = self.rv(i['e'])
                    if isinstance(b, Obj):
                        o.f.update(b.f)
            self.body(fn)
        finally:
            self.frames.pop()
        return o

    def bind(self, fn, args, this, up=None):
        fr = Frame(fn, this, up)
        for p, a in zip(fn['ps'], args):
            name, pid, pt = p
            if isinstance(a, (list, tuple)):
                if strip_cv(pt).startswith('R<'):
                    h = self.lv(a)
                    tt = unref(pt)
                    if h.t and int_type(tt) and int_type(h.t) and \
                            int_type(tt)[0] != int_type(h.t)[0]:
                        h = H(self.conv(h.v, tt), tt)
                    fr.vars[pid] = h
                else:
                    fr.vars[pid] = self.init_cell(pt, a)
            elif isinstance(a, H):
                fr.vars[pid] = a
            else:
                fr.vars[pid] = H(a, unref(pt))
        return fr

    def body(self, fn):
        try:
            self.ex(fn['body'])
        except _Ret as r:
            return r.v
        return None

    def call(self, fn, args, this=None, up=None):
        """args: expressions, cells (references) or values."""
        self.depth += 1
        if self.depth > 60:
            raise Stop('call depth')
        self.called.add(fn['q'])
        fr = self.bind(fn, args, this, up)
        self.frames.append(fr)
        try:
            return self.body(fn)
        finally:
            self.frames.pop()
            self.depth -= 1

    def e_call(self, e):
        r = self.callx(e, False)
        return r.v if isinstance(r, H) else r

    e_mcall = e_icall = e_call

    def callx(self, e, want):
        if e[0] == 'icall':
            c = self.rv(e[3])
            args = e[4]
            if isinstance(c, Lam):
                return self.lam(c, args, e)
            if isinstance(c, Fn):
                fn = self.P.fns.get(c.m)
                if fn is not None:
                    return self.call(fn, args)
            raise Stop('indirect call')
        m, q, args = e[3], e[4], e[5] if e[0] == 'call' else e[7]
        hk = self.hooks.get(q)
        if hk is not None:
            r = hk(self, e, args)
            if r is not NotImplemented:
                return r
        if e[0] == 'call':
            fn = self.P.fns.get(m)
            if fn is not None and fn.get('body') is not None and not q.startswith('std::'):
                return self.call(fn, args)
            return self.std(e, q, args)
        obj, arrow = e[5], e[6]
        h = self.deref(self.rv(obj), e[1]) if arrow else self.lv(obj)
        fn = self.P.fns.get(m)
        if fn is not None and fn.get('body') is not None and not q.startswith('std::'):
            if fn.get('virtual'):
                raise Stop('virtual call')
            return self.call(fn, args, h)
        return self.method(e, q.split('::')[-1], h, args, obj)

    def lam(self, c, args, e=('call',)):
        _, ps, body, _ = lambda_spec(c.e, e)
        if body is None:
            raise Stop('generic lambda')
        fn = {'q': c.fr.fn['q'] + '::lambda', 'm': '', 'ps': ps, 'body': body}
        return self.call(fn, args, c.fr.this, c.fr)

    def val(self, a):
        v = self.rv(a)
        return v.v if isinstance(v, H) else v

    def std(self, e, q, args):
        n = q.split('::')[-1]
        if n in ('move', 'forward', 'addressof', 'as_const'):
            if n == 'addressof':
                return self.addr(args[0])
            return self.lv(args[0])
        if n in ('min', 'max') and len(args) == 2 and args[1][0] != 'lambda':
            a, b = self.lv(args[0]), self.lv(args[1])
            if n == 'min':
                return b if self.cmp('<', b.v, a.v) else a
            return b if self.cmp('<', a.v, b.v) else a
        if n in ('min', 'max') and 'numeric_limits' in q:
            lo, hi = trange(e[2])
            return hi if n == 'max' else lo
        if n in ('abs', 'labs', 'llabs'):
            v = self.val(args[0])
            if isinstance(v, float):
                return abs(v)
            return scale(v, -1) if self.cmp('<', v, 0) else v
        if n == '__assert_fail':
            raise Fault('assert', 'the assertion "%s" fails' % (
                self.rv(args[0]).s if args else ''), e[1])
        if n in ('abort', 'exit', 'terminate'):
            raise Fault('abort', n + ' is called', e[1])
        if n in ('memcpy', 'memmove'):
            return self.memcpy(e, args)
        if n in ('ntohl', 'htonl', '__builtin_bswap32', '__bswap_32'):
            return self.swap(self.val(args[0]), 4)
        if n in ('ntohs', 'htons', '__builtin_bswap16', '__bswap_16'):
            return self.swap(self.val(args[0]), 2)
        if n == '__builtin_bswap64':
            return self.swap(self.val(args[0]), 8)
        if n in ('__builtin_expect',):
            return self.val(args[0])
        if n in ('ceil', 'floor', 'log2', 'sqrt', 'round', 'pow'):
            vs = [self._f(self.val(a)) for a in args]
            if n == 'log2' and vs[0] <= 0:
                return float('-inf')
            f = {'ceil': math.ceil, 'floor': math.floor, 'log2': math.log2,
                 'sqrt': math.sqrt, 'round': round, 'pow': math.pow}[n]
            return float(f(*vs))
        if n in ('make_unique', 'make_shared'):
            t = targ(e[2])
            if t.startswith('T:') and args:
                for f in self.P.fns.values():
                    if f.get('ctor') and f.get('cls') == t and len(f['ps']) == len(args):
                        return Ptr(One(H(self.construct(t, f['m'], args, e), t)), 0)
                raise Stop('constructor of ' + t)
            rec = self.P.records.get(t[2:]) if t.startswith('T:') else None
            h = self.make(t, not (rec and rec.get('userctor')))
            if args:
                h.v = self.conv(self.val(args[0]), t)
            return Ptr(One(h), 0)
        if n in ('fprintf', 'printf', 'fputs', 'puts', 'fputc', 'putchar', 'perror',
                 'fflush'):
            self.prints.append((n, e))
            return 0
        if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') and len(args) == 1:
            return self.iter(n, self.lv(args[0]))
        if n in ('next', 'prev') and 'std::' in q:
            it = self.val(args[0])
            k = self.val(args[1]) if len(args) > 1 and args[1][0] != 'defarg' else 1
            return self.binop('+' if n == 'next' else '-', it, k, '', e[1])
        if n == 'distance':
            return self.binop('-', self.val(args[1]), self.val(args[0]), 'i64', e[1])
        if n == 'swap' and len(args) == 2:
            a, b = self.lv(args[0]), self.lv(args[1])
            a.v, b.v = b.v, a.v
            return None
        if n in ('copy', 'copy_n', 'fill', 'fill_n', 'reverse', 'search', 'find', 'equal',
                 'count', 'all_of', 'any_of', 'none_of', 'find_if', 'memset', 'memcmp',
                 'accumulate', 'for_each', 'strlen', 'strcmp', 'size', 'empty',
                 'back_inserter', 'upper_bound', 'lower_bound'):
            return self.algo(e, n, args)
        raise Stop('call of ' + q)

    def algo(self, e, n, args):
        if n == 'size':
            return self.size(self.lv(args[0]).v)
        if n == 'strlen':
            v = self.val(args[0])
            if isinstance(v, Lit):
                return len(v.s) - v.i
            raise Stop('strlen')
        if n == 'strcmp':
            a, b = self.val(args[0]), self.val(args[1])
            if isinstance(a, Lit) and isinstance(b, Lit):
                x, y = a.s[a.i:], b.s[b.i:]
                return (x > y) - (x < y)
            raise Stop('strcmp')
        if n == 'memset':
            p, v, k = [self.val(a) for a in args]
            h = self.deref(p)
            if v == 0 and isinstance(h.v, Vec):
                for x in h.v.items:
                    x.v = self.make(x.t, True).v
                return p
            if v == 0 and isinstance(p, Ptr) and isinstance(p.seq, Vec):
                for x in p.seq.items:
                    x.v = self.make(x.t, True).v
                return p
            if v == 0:
                h.v = self.make(h.t, True).v
                return p
            raise Stop('memset')
        vs = [self.rv(a) if a[0] != 'lambda' else self.rv(a) for a in args]
        if n in ('copy', 'copy_n'):
            if n == 'copy':
                cells = self.span(vs[0], vs[1])
            else:
                cells = self.span(vs[0], self.binop('+', vs[0], vs[1], '', 0))
            out = vs[2]
            if isinstance(out, Opq):
                raise Stop('copy')
            if isinstance(out, tuple) and out[0] == 'inserter':
                out[1].items.extend(cells)
                return out
            for k, c in enumerate(cells):
                self.deref(self.binop('+', out, k, '', 0)).v = c.v
            return self.binop('+', out, len(cells), '', 0)
        if n == 'back_inserter':
            return ('inserter', self.lv(args[0]).v)
        if n in ('fill', 'fill_n'):
            if n == 'fill':
                k = self.fix(self.binop('-', vs[1], vs[0], 'i64', 0))
            else:
                k = self.fix(vs[1])
            for j in range(self.lim(k)):
                h = self.deref(self.binop('+', vs[0], j, '', 0))
                h.v = self.copy(vs[2])
            return None
        if n in ('all_of', 'any_of', 'none_of', 'find_if', 'for_each', 'count_if'):
            f = vs[2]
            it = vs[0]
            c = 0
            while not self.ptrcmp('==', it, vs[1]):
                h = self.deref(it)
                r = self.lam(f, [h]) if isinstance(f, Lam) else self.stop('callable')
                if isinstance(r, H):
                    r = r.v
                if n != 'for_each':
                    t = self.truth(r)
                    if n == 'all_of' and not t:
                        return 0
                    if n == 'any_of' and t:
                        return 1
                    if n == 'none_of' and t:
                        return 0
                    if n == 'find_if' and t:
                        return it
                    c += t
                it = self.binop('+', it, 1, '', 0)
            return {'all_of': 1, 'any_of': 0, 'none_of': 1, 'count_if': c}.get(n, it)
        if n in ('find', 'count'):
            it, c = vs[0], 0
            while not self.ptrcmp('==', it, vs[1]):
                if self.cmp('==', self.deref(it).v, vs[2]):
                    if n == 'find':
                        return it
                    c += 1
                it = self.binop('+', it, 1, '', 0)
            return it if n == 'find' else c
        if n == 'search' and len(vs) == 4:
            pat = [h.v for h in self.span(vs[2], vs[3])]
            it = vs[0]
            while True:
                left = self.binop('-', vs[1], it, 'i64', 0)
                if self.cmp('<', left, len(pat)):
                    return vs[1]
                if all(self.cmp('==', self.deref(self.binop('+', it, k, '', 0)).v, p)
                       for k, p in enumerate(pat)):
                    return it
                it = self.binop('+', it, 1, '', 0)
        if n == 'equal':
            k = self.fix(self.binop('-', vs[1], vs[0], 'i64', 0))
            return int(all(self.cmp('==', self.deref(self.binop('+', vs[0], j, '', 0)).v,
                                    self.deref(self.binop('+', vs[2], j, '', 0)).v)
                           for j in range(self.lim(k))))
        if n == 'memcmp':
            for j in range(self.lim(self.fix(vs[2]))):
                a = self.deref(self.binop('+', vs[0], j, '', 0)).v
                b = self.deref(self.binop('+', vs[1], j, '', 0)).v
                if not self.cmp('==', a, b):
                    return -1 if self.cmp('<', a, b) else 1
            return 0
        if n == 'reverse':
            k = self.fix(self.binop('-', vs[1], vs[0], 'i64', 0))
            hs = [self.deref(self.binop('+', vs[0], j, '', 0)) for j in range(k)]
            xs = [h.v for h in hs][::-1]
            for h, x in zip(hs, xs):
                h.v = x
            return None
        raise Stop('std::' + n)

    def stop(self, what):
        raise Stop(what)

    def swap(self, v, n):
        c, b = self.need_bits(v, 8 * n)
        r, t = 0, {}
        for p in range(8 * n):
            q = (n - 1 - p // 8) * 8 + p % 8
            if p in b:
                r = self.put(r, t, q, b[p])
            elif c >> p & 1:
                r |= 1 << q
        return norm(r, t)

    def memcpy(self, e, args):
        d, s, n = [self.val(a) for a in args]
        n = self.fix(n)
        if not isinstance(d, Ptr):
            raise Stop('memcpy')
        size = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8,
                'i64': 8}
        dh = self.at(d.seq, d.i, e[1]) if n else None
        if n == 0:
            return d
        w = size.get(unref(dh.t))
        if w == 1 and isinstance(s, Ptr):
            sh = self.at(s.seq, s.i, e[1])
            if size.get(unref(sh.t), 1) == n and n > 1:
                self.store_bytes(d, sh.v, unref(sh.t), e[1])
                return d
        if w == 1 or (isinstance(d.seq, Vec) and w == 1):
            for k in range(self.lim(n)):
                h = self.deref(self.binop('+', s, k, '', e[1]), e[1])
                self.at(d.seq, add(d.i, k), e[1]).v = h.v
            return d
        if w == n and isinstance(s, Ptr):
            sh = self.at(s.seq, s.i, e[1])
            if size.get(unref(sh.t)) == n:
                dh.v = sh.v
                return d
            if size.get(unref(sh.t)) == 1:
                v = 0
                for k in range(n):        # little-endian host
                    v = add(v, scale(self.fit(self.at(s.seq, add(s.i, k), e[1]).v, 'u8'),
                                     1 << (8 * k)))
                dh.v = self.fit(v, dh.t)
                return d
        raise Stop('memcpy')

    def iter(self, n, h):
        v = h.v
        if isinstance(v, Map):
            ks = sorted(v.d)
            if 'end' in n:
                return MapIt(v, None)
            return MapIt(v, ks[0] if ks else None)
        if isinstance(v, Str):
            raise Stop('string iterator')
        if not isinstance(v, Vec):
            raise Stop('iterator of %r' % (v,))
        k = len(v.items)
        return {'begin': It(v, 0), 'cbegin': It(v, 0), 'end': It(v, k), 'cend': It(v, k),
                'rbegin': It(v, k, True), 'crbegin': It(v, k, True),
                'rend': It(v, 0, True), 'crend': It(v, 0, True)}[n]

    def method(self, e, n, h, args, obj):
        v = h.v
        if n.startswith('operator '):
            n = n[9:]
            if n == 'bool':
                return int(self.truth(v))
        if isinstance(v, Vec):
            it = v.items
            if n == 'size':
                return len(it)
            if n == 'empty':
                return int(not it)
            if n == 'data':
                return Ptr(v, 0)
            if n in ('reserve', 'shrink_to_fit'):
                for a in args:
                    self.rv(a)
                return None
            if n in ('push_back', 'emplace_back'):
                if not args:
                    x = self.make(v.et, True)
                elif len(args) == 1 or not v.et.startswith('T:'):
                    x = self.init_cell(v.et, args[0])
                    x.v = self.copy(x.v)
                else:
                    raise Stop('emplace_back')
                x.t = unref(v.et)
                it.append(x)
                return x
            if n in ('back', 'front'):
                if not it:
                    raise Fault('bounds', n + ' of an empty vector', e[1])
                return it[-1] if n == 'back' else it[0]
            if n in ('at', 'operator[]', '[]'):
                return self.at(v, self.val(args[0]), e[1])
            if n == 'pop_back':
                if not it:
                    raise Fault('bounds', 'pop_back of an empty vector', e[1])
                it.pop()
                return None
            if n == 'clear':
                del it[:]
                return None
            if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
                return self.iter(n, h)
            if n in ('resize', 'assign') and int_type(args[0][2]):
                k = self.lim(self.fix(self.val(args[0])))
                fill = self.val(args[1]) if len(args) > 1 and args[1][0] != 'defarg' else None
                if n == 'assign':
                    del it[:]
                while len(it) > k:
                    it.pop()
                while len(it) < k:
                    c = self.make(v.et, True)
                    if fill is not None:
                        c.v = self.copy(fill)
                    it.append(c)
                return None
            if n == 'assign':
                v.items = self.span(self.val(args[0]), self.val(args[1]))
                return None
            if n == 'insert':
                pos = self.val(args[0])
                k = self.fix(pos.i)
                if len(args) == 3 and not int_type(args[1][2]):
                    it[k:k] = self.span(self.val(args[1]), self.val(args[2]))
                elif len(args) == 2:
                    it[k:k] = [self.init_cell(v.et, args[1])]
                else:
                    raise Stop('insert')
                return It(v, k)
            if n == 'erase':
                a = self.val(args[0])
                i = self.fix(a.i)
                j = self.fix(self.val(args[1]).i) if len(args) > 1 else i + 1
                del it[i:j]
                return It(v, i)
            if n == 'fill':
                x = self.val(args[0])
                for c in it:
                    c.v = self.copy(x)
                return None
            if n == 'swap':
                o = self.lv(args[0]).v
                v.items, o.items = o.items, v.items
                return None
        if isinstance(v, Str):
            if n == 'c_str':
                return Lit(v.s)
            if n in ('size', 'length'):
                return len(v.s)
            if n == 'empty':
                return int(not v.s)
        if isinstance(v, Map):
            return self.mapmethod(e, n, v, args)
        t = unref(obj[2])
        if is_ptr(t) or v is None or isinstance(v, Ptr):
            if n == 'get':
                return v
            if n == 'reset':
                h.v = self.val(args[0]) if args and args[0][0] != 'defarg' else None
                return None
            if n == 'release':
                h.v = None
                return v
            if n == 'bool':
                return int(self.truth(v))
        if isinstance(v, It) and n == 'base':
            return It(v.seq, v.i)
        raise Stop('method ' + n)

    def mapmethod(self, e, n, v, args):
        if n == 'size':
            return len(v.d)
        if n == 'empty':
            return int(not v.d)
        if n in ('end', 'cend', 'begin', 'cbegin'):
            return self.iter(n, H(v, ''))
        if n == 'clear':
            v.d.clear()
            return None
        if n in ('find', 'count', 'at', 'erase'):
            k = self.fix(self.val(args[0]))
            if n == 'find':
                return MapIt(v, k if k in v.d else None)
            if n == 'count':
                return int(k in v.d)
            if n == 'erase':
                return int(v.d.pop(k, None) is not None)
            if k not in v.d:
                raise Fault('throw', 'at() of an absent key', e[1])
            return v.d[k]
        raise Stop('map method ' + n)

    def e_opcall(self, e):
        r = self.opcall(e, False)
        return r.v if isinstance(r, H) else r

    def opcall(self, e, want):
        op, m, q, args = e[3], e[4], e[5], e[6]
        if op == '()':
            c = self.rv(args[0])
            if isinstance(c, Lam):
                return self.lam(c, args[1:], e)
            fn = self.P.fns.get(m)
            if fn is not None and fn.get('body') is not None:
                return self.call(fn, args[1:], self.lv(args[0]))
            raise Stop('call operator')
        fn = self.P.fns.get(m)
        if fn is not None and fn.get('body') is not None and not q.startswith('std::'):
            if fn.get('cls'):
                return self.call(fn, args[1:], self.lv(args[0]))
            return self.call(fn, args)
        if op in ('->', '*') and len(args) == 1:
            v = self.rv(args[0])
            if op == '->':
                if isinstance(v, (It, MapIt)):
                    return Ptr(One(self.deref(v, e[1])), 0)
                return v
            return self.deref(v, e[1])
        if op == '[]':
            h = self.lv(args[0])
            v = h.v
            if isinstance(v, Map):
                k = self.fix(self.rv(args[1]))
                if k not in v.d:
                    v.d[k] = self.make(v.vt, True)
                return v.d[k]
            i = self.rv(args[1])
            if i is UN:
                raise Fault('uninit', 'an uninitialised index is used', e[1])
            if isinstance(v, Vec):
                return self.at(v, i, e[1])
            if isinstance(v, Ptr):
                return self.at(v.seq, add(v.i, i), e[1])
            if isinstance(v, It):
                return self.deref(self.binop('+', v, i, '', e[1]), e[1])
            raise Stop('subscript')
        if op == '=':
            h = self.lv(args[0])
            src = args[1]
            if unref(e[2])[:2] == 'U<' or unref(args[0][2])[:2] == 'U<':
                s = self.lv(src) if src[0] not in ('null', 'int') else H(None, '')
                v = s.v
                if s is not h:
                    s.v = None
                h.v = v
                return h
            v = self.rv(src)
            self.assign(h, v.v if isinstance(v, H) else v, unref(args[0][2]))
            return h
        if op in ('==', '!=', '<', '<=', '>', '>='):
            a, b = self.rv(args[0]), self.rv(args[1])
            if isinstance(a, (Str, Lit)) and isinstance(b, (Str, Lit)):
                x, y = [z.s if isinstance(z, Str) else z.s[z.i:] for z in (a, b)]
                return int({'==': x == y, '!=': x != y}.get(op, False))
            return self.binop(op, a, b, 'bool', e[1])
        if op in ('++', '--', 'post++', 'post--'):
            h = self.lv(args[0])
            old = h.v
            h.v = self.binop('+' if '+' in op else '-', old, 1, '', e[1]) \
                if not isinstance(old, MapIt) else self.mapnext(old)
            return old if op.startswith('post') or len(args) > 1 else h
        if op in ('+', '-') and len(args) == 2:
            return self.binop(op, self.rv(args[0]), self.rv(args[1]), e[2], e[1])
        if op in ('+=', '-=') and len(args) == 2:
            h = self.lv(args[0])
            if isinstance(h.v, Str):
                x = self.rv(args[1])
                h.v.s += x.s if isinstance(x, Str) else x.s[x.i:] if isinstance(x, Lit) \
                    else chr(self.fix(x))
                return h
            h.v = self.binop(op[0], h.v, self.rv(args[1]), '', e[1])
            return h
        raise Stop('operator ' + op)

    def mapnext(self, it):
        ks = sorted(it.m.d)
        i = ks.index(it.k) + 1
        return MapIt(it.m, ks[i] if i < len(ks) else None)

    # ------------------------------------------------------------ statements
    def ex(self, s):
        if s is None:
            return
        f = getattr(self, 's_' + s[0], None)
        if f is None:
            raise Stop('statement %s' % s[0])
        f(s)

    def s_blk(self, s):
        for x in s[2:]:
            self.ex(x)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        e = s[2]
        if e[0] in ('ref', 'mem', 'gref'):
            return
        if e[0] in ('call', 'mcall', 'icall'):
            self.callx(e, True)
            return
        if e[0] == 'opcall':
            self.opcall(e, True)
            return
        self.rv(e)

    def s_decl(self, s):
        for d in s[2:]:
            vid, name, t, init, static = d[:5]
            if static:
                k = self.frames[-1].fn['q'] + '::' + name
                if k not in self.globals:
                    self.globals[k] = self.init_cell(t, init)
                self.frames[-1].vars[vid] = self.globals[k]
                continue
            h = self.init_cell(t, init) if init is not None else self.make(t)
            if not strip_cv(t).startswith('R<') and init is not None and \
                    isinstance(h.v, (Obj, Vec, Map, Str)) and init[0] in (
                        'ref', 'mem', 'idx', 'ld'):
                h = H(self.copy(h.v), h.t)
            self.frames[-1].vars[vid] = h

    def s_if(self, s):
        if self.cond(s[2]):
            self.ex(s[3])
        else:
            self.ex(s[4])

    def s_ret(self, s):
        if len(s) < 3 or s[2] is None:
            raise _Ret(None)
        if strip_cv(self.frames[-1].fn.get('ret') or '').startswith('R<'):
            raise _Ret(self.lv(s[2]))
        v = self.rv(s[2])
        rt = self.frames[-1].fn.get('ret')
        if rt and isinstance(v, (int, L)) and int_type(rt):
            v = self.fit(v, rt)
        raise _Ret(v)

    def s_break(self, s):
        raise _Brk()

    def s_continue(self, s):
        raise _Cont()

    def s_for(self, s):
        self.ex(s[2])
        while s[3] is None or self.cond(s[3]):
            try:
                self.ex(s[5])
            except _Brk:
                break
            except _Cont:
                pass
            if s[4] is not None:
                self.rv(s[4]) if s[4][0] not in ('opcall',) else self.opcall(s[4], True)

    def s_do(self, s):
        while True:
            try:
                self.ex(s[2])
            except _Brk:
                break
            except _Cont:
                pass
            if not self.cond(s[3]):
                break

    def s_forrange(self, s):
        vid, name, t = s[2]
        c = self.lv(s[3]).v
        if isinstance(c, Map):
            cells = [H(Obj('pair', {'first': H(k, c.kt), 'second': c.d[k]}), 'pair')
                     for k in sorted(c.d)]
        elif isinstance(c, Vec):
            cells = c.items
        else:
            raise Stop('range for')
        for h in list(cells):
            self.frames[-1].vars[vid] = h if strip_cv(t).startswith('R<') else \
                H(self.copy(h.v), unref(t))
            try:
                self.ex(s[4])
            except _Brk:
                break
            except _Cont:
                pass

    def s_switch(self, s):
        v = self.rv(s[2])
        secs = s[3]
        go = None
        for i, (labels, body) in enumerate(secs):
            for l in labels:
                if l == 'default':
                    continue
                if self.cmp('>=', v, l[0]) and self.cmp('<=', v, l[1]):
                    go = i
                    break
            if go is not None:
                break
        if go is None:
            for i, (labels, body) in enumerate(secs):
                if 'default' in labels:
                    go = i
        if go is None:
            return
        try:
            for labels, body in secs[go:]:
                for x in body:
                    self.ex(x)
        except _Brk:
            pass


_BIT = [sum(1 << x for x in range(256) if x >> k & 1) for k in range(8)]


def fails(e):
    while e[0] == 'cast':
        e = e[4]
    return e[0] == 'call' and e[4].split('::')[-1] == '__assert_fail'


def explore(prog, job, hooks=None, dom=None, limit=20000):
    """Evaluate job(ev) on every part; yields (ev, result | Fault | Stop)."""
    todo = [dict(dom or {})]
    n = 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            yield None, Stop('more than %d parts' % limit)
            return
        ev = Eval(prog, dict(d), hooks)
        try:
            r = job(ev)
        except Split as s:
            base = dict(ev.dom)
            for p in s.parts:
                if p:
                    x = dict(base)
                    x[s.sym] = p
                    todo.append(x)
            continue
        except (Fault, Stop) as x:
            r = x
        except RecursionError:
            r = Stop('recursion')
        yield ev, r


def sample(dom, sym):
    """A member of the value set of a symbol."""
    d = dom.get(sym, FULL)
    if isinstance(d, tuple):
        return d[0]
    return (d & -d).bit_length() - 1


def value(v, asg):
    """v under an assignment of symbols."""
    if isinstance(v, int):
        return v
    return v.c + sum(c * (asg[s] if k == -1 else asg[s] >> k & 1)
                     for (s, k), c in v.t.items())


def differ(ev, a, b):
    """An assignment of the symbols under which a != b, or None."""
    if a == b:
        return None
    if not isinstance(a, (int, L)) or not isinstance(b, (int, L)):
        return {}
    d = add(a, b, -1)
    if isinstance(d, int):
        return {} if d else None
    ss = sorted(ev.syms(d), key=str)
    base = {s: sample(ev.dom, s) for s in ss}
    if value(d, base):
        return base
    for s in ss:
        dm = ev.dom.get(s, FULL)
        vals = [dm[1]] if isinstance(dm, tuple) else [x for x in range(256) if dm >> x & 1]
        for x in vals:
            t = dict(base)
            t[s] = x
            if value(d, t):
                return t
    return None


class Bad(Exception):
    """A result differs from what is expected: text, assignment."""

    def __init__(self, text, asg):
        Exception.__init__(self, text)
        self.text, self.asg = text, asg


def expect(ev, got, want, what):
    if got is UN:
        raise Fault('uninit', what + ' is not set')
    if not isinstance(got, (int, L)):
        raise Stop('%s is %r' % (what, got))
    a = differ(ev, got, want)
    if a is not None:
        a = {**{s: sample(ev.dom, s) for v in (got, want) if isinstance(v, L)
                for s in ev.syms(v)}, **a}
        g, w = value(got, a), value(want, a)
        raise Bad('%s is %d instead of %d' % (what, g, w), a)


def show_asg(asg):
    return ', '.join('%s=%s' % (s if isinstance(s, str) else '%s[%s]' % s,
                                hex(v) if isinstance(s, tuple) else v)
                     for s, v in sorted(asg.items(), key=str)[:12])


def run_case(prog, case, hooks=None):
    """case: dict(key, label, job, dom).  -> dict(parts, bad, stop)"""
    out = {'key': case['key'], 'label': case['label'], 'parts': 0, 'bad': None,
           'stop': None, 'called': set()}
    def job(ev):
        try:
            return case['job'](ev)
        except Bad as b:
            return b
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError,
                ZeroDivisionError, OverflowError, RecursionError) as e:
            if os.environ.get('H265SA_DEBUG'):
                raise
            return Stop('not followed (%s)' % type(e).__name__)
    for ev, r in explore(prog, job, hooks or case.get('hooks'), case.get('dom'),
                         case.get('limit', 20000)):
        out['parts'] += 1
        if ev is not None:
            out['called'] |= ev.called
        if isinstance(r, Bad):
            full = {s: sample(ev.dom, s) for s in ev.dom}
            full.update(r.asg)
            out['bad'] = (r.text, show_asg(full), None)
            break
        if isinstance(r, Fault):
            out['bad'] = (r.text, show_asg({s: sample(ev.dom, s) for s in ev.dom}), r.line)
            break
        if isinstance(r, Stop):
            out['stop'] = str(r.args[0] if r.args else r)
            break
    return out


CASE = 150       # seconds for one case
BUDGET = {'quick': 600, 'thorough': 12000}


def run_cases(prog, cases, jobs=None, budget=None):
    """All cases, in parallel processes (the program is inherited)."""
    import multiprocessing as mp
    n = jobs or min(8, os.cpu_count() or 1)
    global _WORK
    _WORK = (prog, cases, time.monotonic() + (budget or BUDGET[tier()]))
    # the most expensive ones tend to come last
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get('cost', i / len(cases)))
    out = [None] * len(cases)
    with mp.get_context('fork').Pool(n) as pool:
        for i, r in pool.imap_unordered(_one, order, max(1, min(16, len(cases) // 200))):
            out[i] = r
    return out


_WORK = None


def _one(i):
    import sys
    sys.setrecursionlimit(20000)
    timelimit.forget()
    case = _WORK[1][i]
    left = _WORK[2] - time.monotonic()
    if left > 0:
        try:
            with timelimit.limit(min(left, CASE * (10 if tier() == 'thorough' else 1)), OutOfTime):
                return i, run_case(_WORK[0], case)
        except OutOfTime:
            pass
    return i, {'key': case['key'], 'label': case['label'], 'parts': 0, 'bad': None,
               'stop': 'out of time', 'called': set()}


class OutOfTime(Exception):
    pass


def tier():
    return os.environ.get('VERIF_TIER', 'quick')


def report(rep, prog, results, where):
    """One finding per (key); obligations are the cases."""
    per = {}
    for r in results:
        u = per.setdefault(r['key'], {'function': r['key'], 'cases': 0, 'parts': 0})
        u['cases'] += 1
        u['parts'] += r['parts']
        rep.obligations += 1
        if r['bad'] and not u.get('violated'):
            text, asg, line = r['bad']
            u['violated'] = 1
            rep.violation(r['key'], 'value', 'result', '%s: %s%s' % (
                r['label'], text, ' (for %s)' % asg if asg else ''),
                where(r['key']) + (' line %s' % line if line else ''))
        elif r['stop'] and not u.get('undecided'):
            u['undecided'] = r['stop']
            rep.undec(r['key'], 'value', 'result', '%s: %s' % (r['label'], r['stop']),
                      where(r['key']))
    rep.units += list(per.values())
