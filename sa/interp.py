"""Gated abstract evaluator.

Evaluates the lowered C++ (and, through specdsl.py, the syntax tables) over
canonical guarded values.  Nothing is executed: every branch is taken under a
symbolic guard, loops are closed with induction variables, and the result is a
list of guarded events (reads, sub-structure calls, stores, dereferences,
index uses, prints, ...) plus the guarded final state.
"""
import re
from idd import IDD, INF, Blowup, show_term

MAXU32 = 2 ** 32 - 1


class Undecided(Exception):
    pass


class Event:
    __slots__ = ('kind', 'g', 'loops', 'seq', 'fn', 'file', 'line', 'd', 'site')

    def __init__(self, kind, g, loops, seq, fn, file, line, d, site):
        self.kind, self.g, self.loops, self.seq = kind, g, loops, seq
        self.fn, self.file, self.line, self.d, self.site = fn, file, line, d, site

    def where(self):
        return '%s:%s' % (self.file, self.line)


class State:
    __slots__ = ('g', 'env')

    def __init__(self, g, env):
        self.g, self.env = g, env

    def copy(self):
        return State(self.g, dict(self.env))


def strip_cv(t):
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        else:
            return t


def unref(t):
    t = strip_cv(t)
    if t.startswith('R<'):
        return strip_cv(t[2:-1])
    return t


_INT = re.compile(r'^([iu])(\d+)$')


def int_type(t):
    """(bits, signed) of an integer-like type, or None.  'Z' is unbounded."""
    t = unref(t)
    if t == 'Z':
        return (0, True)
    if t == 'bool':
        return (1, False)
    m = _INT.match(t)
    if m:
        return (int(m.group(2)), m.group(1) == 'i')
    if t.startswith('E<'):
        return int_type(t[2:t.index(',')])
    return None


def trange(t):
    it = int_type(t)
    if it is None:
        return None
    if it[0] == 0:
        return (-INF, INF)
    if it[1]:
        return (-(2 ** (it[0] - 1)), 2 ** (it[0] - 1) - 1)
    return (0, 2 ** it[0] - 1)


def targ(t, i=0):
    """i-th template argument of V<..>, U<..>, M<..,..>, A<n,..>."""
    t = unref(t)
    s = t[t.index('<') + 1:-1]
    depth = 0
    parts, cur = [], ''
    for ch in s:
        if ch == '<':
            depth += 1
        if ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    parts.append(cur)
    return strip_cv(parts[i])


def is_ptr(t):
    t = unref(t)
    return t[:2] in ('P<', 'U<', 'S<') or t == 'nullptr_t'


def is_obj(t):
    t = unref(t)
    return t[:2] in ('V<', 'A<', 'M<', 'T:', 'I<') or t == 'str' or (
        t.startswith('std:') and not is_iter(t))


def is_iter(t):
    return t.startswith('std:') and 'iterator' in t.split('<')[0]


READS = {'ReadBits': 'u', 'ReadExponentialGolomb': 'ue',
         'ReadSignedExponentialGolomb': 'se', 'ReadUInt8': 'u8',
         'ReadUInt16': 'u16', 'ReadUInt32': 'u32',
         'ReadNonSymmetric': 'ns', 'ReadBytes': 'bytes'}


FAILED = (('S', '#failed'),)


class Options:
    def __init__(self, **kw):
        self.keep_env = False         # sub events carry the state at the call
        self.may_fail = False         # reads and sub parsers may fail
        self.boundary = {}            # qualified name -> dict(rec=, ...)
        self.naming = None            # Naming from phase 1
        self.ranges = {}              # name pattern -> (lo, hi)
        self.recranges = {}           # record -> {pattern: (lo, hi)}
        self.summaries = {}           # record -> Summary
        self.dump_boundary = True
        self.inline_filter = None
        self.zero_defaults = False
        self.leninv = {}              # record -> {vector: field holding its size}
        self.__dict__.update(kw)


class Naming:
    """Where the objects and values of a structure end up (phase 1 result)."""

    def __init__(self):
        self.read = {}     # read site -> destination loc
        self.obj = {}      # object root -> loc
        self.copy = {}     # local container loc -> loc
        self.anon = {}     # read site -> ordinal
        self.alias = {}    # read site -> name of the element of the syntax


class Frame:
    def __init__(self, fn, ctx, this=None):
        self.fn, self.ctx, self.this = fn, ctx, this
        self.rets = []
        self.looprets = False    # returns from inside a loop
        self.loopstack = []      # (breaks, continues)
        self.vars = {}           # var id -> loc root override (lambda capture)


class Interp:
    def __init__(self, prog, opts, m=None):
        self.P = prog
        self.o = opts
        self.m = m or IDD()
        self.events = []
        self.recording = True
        self.seq = 0
        self.stops = 0           # ends of the program met so far
        self.loops = ()
        self.ctx = ()
        self.ctxids = {}
        self.frames = []
        self.vartype = {}        # variable loc -> type
        self.statics = {}        # static local -> location
        self.gtables = {}
        self.flows = {}          # rd site -> [loc]
        self.objflow = {}        # obj root -> [loc]
        self.copyflow = {}       # local loc -> [loc]
        self.ltype = {}          # loc -> type
        self.ptee = {}           # loc (pointee) -> record type
        self.depth = 0
        self.readorder = []
        self.obs_ranges = {}     # pattern -> [lo, hi]
        self.opaque_n = {}
        self.notes = set()
        self.fncalls = {}
        self.sub_ok = {}
        self.loopcount = 0
        self.ranged = {}

    # ---------------------------------------------------------------- helpers
    def ctxid(self, c):
        i = self.ctxids.get(c)
        if i is None:
            i = len(self.ctxids) + 1
            self.ctxids[c] = i
        return i

    def fr(self):
        return self.frames[-1]

    def ev(self, kind, st, line, site=None, **d):
        self.seq += 1
        if not self.recording or st.g == self.m.F:
            return None
        f = self.frames[-1].fn if self.frames else {'q': '', 'file': ''}
        e = Event(kind, st.g, self.loops, self.seq, f['q'], f['file'], line, d, site)
        self.events.append(e)
        return e

    def num(self, c):
        return self.m.const(c)

    def guard2val(self, g):
        m = self.m
        nd = m.nodes[g]
        if g == m.T:
            return m.const(1)
        if g == m.F:
            return m.const(0)
        # canonical: a boolean atom is itself
        terms = m.keyterms[nd[0]]
        if len(terms) == 1 and terms[0][1] == 1 and m.dom[nd[0]] == (0, 1) \
                and nd[2] == (m.F, m.T):
            return m.term(('L', 0, terms))
        return m.ite(g, m.const(1), m.const(0))

    def truth(self, v):
        """Guard: value is non-zero / non-null."""
        m = self.m

        def f(t):
            if isinstance(t, tuple):
                if t[0] == 'L':
                    if not t[2]:
                        return m.T if t[1] else m.F
                    return m.NOT(m.eq0(t))
                if t[0] == 'null':
                    return m.F
                if t[0] in ('ptr', 'str', 'lam', 'fn', 'it', 'obj', 'loc'):
                    return m.T
                if t[0] == 'opq':
                    return m.NOT(m.eq0(m.atom(('truth',) + t[1:], 0, 1)))
            if t is True or t is False:
                return m.T if t else m.F
            return m.NOT(m.eq0(m.atom(('truth', t), 0, 1)))
        return m.bind(v, f)

    def tolin(self, v, g=None):
        """A single linear expression denoting v (opaque atom if v branches)."""
        m = self.m
        if m.is_term(v):
            t = m.val(v)
            if isinstance(t, tuple) and t[0] == 'L':
                return t
            return m.atom(('nonint', t), -INF, INF)
        if ('val', v) not in m.atoms.ids and g is not None:
            # the same value spelled differently outside the current guard
            for o in m.vals:
                if m.AND(g, self.differs(v, o)) == m.F:
                    v = o
                    break
        lo, hi = self.vrange(v, m.T)
        if ('val', v) not in m.atoms.ids:
            m.vals.append(v)
        return m.atom(('val', v), lo, hi)

    def vrange(self, v, g):
        m = self.m
        if m.is_term(v):
            t = m.val(v)
            if isinstance(t, tuple) and t[0] == 'L':
                a, b = m.lin_range(t)
                return m.range_under(t, g) if t[2] else (a, b)
            return (-INF, INF)
        lo, hi = INF, -INF
        for t in m.terminals(v):
            if not (isinstance(t, tuple) and t[0] == 'L'):
                if t == ('undef',) or t == ('bad',):
                    continue
                return (-INF, INF)
            gt = m.AND(g, m.where(v, lambda x, t=t: x == t)) if g != m.T else \
                m.where(v, lambda x, t=t: x == t)
            if gt == m.F:
                continue
            a, b = m.range_under(t, gt)
            lo, hi = min(lo, a), max(hi, b)
        return lo, hi

    def opaque(self, st, kind, *args, lo=-INF, hi=INF):
        return self.m.term(self.m.atom((kind,) + args, lo, hi))

    def fit(self, v, t, st, kind='wrap', line=0):
        """Wrap every terminal of v into integer type t if it may not fit."""
        m = self.m
        r = trange(t)
        if r is None or r == (-INF, INF):
            return v
        if m.is_term(v):
            x = m.val(v)
            if isinstance(x, tuple) and x[0] == 'L':
                a, b = m.lin_range(x)
                if a >= r[0] and b <= r[1]:
                    return v

        def f(x):
            if not (isinstance(x, tuple) and x[0] == 'L'):
                return m.term(x)
            a, b = m.lin_range(x)
            if a >= r[0] and b <= r[1]:
                return m.term(x)
            g = st.g
            if not m.is_term(v):
                g = m.AND(g, m.where(v, lambda y: y == x))
                if g == m.F:
                    return m.term(x)
            a, b = m.range_under(x, g)
            if a >= r[0] and b <= r[1]:
                return m.term(x)
            if x[2] and g != m.T and (a >= r[0] or m.infeasible(
                    m.AND(g, m.le(('L', x[1] - r[0] + 1, x[2]))))) and \
                    (b <= r[1] or m.infeasible(m.ANDN(g, m.le(
                        ('L', x[1] - r[1], x[2]))))):
                return m.term(x)
            if not x[2]:
                n = r[1] - r[0] + 1
                return m.const((x[1] - r[0]) % n + r[0])
            bits, signed = int_type(t)
            if bits == 1:
                return self.guard2val(m.NOT(m.eq0(x)))
            n = r[1] - r[0] + 1
            # a wrap that is definite on the whole range is linear again
            if a != -INF and b != INF and (a - r[0]) // n == (b - r[0]) // n:
                return m.term(('L', x[1] - n * ((a - r[0]) // n), x[2]))
            if signed and bits >= 32 and a >= 0 and b != INF and \
                    x[1] == 0 and len(x[2]) == 1 and (b - r[0]) // n - (a - r[0]) // n == 1:
                # exactly one boundary is crossed: piecewise linear
                k = (b - r[0]) // n
                hi = m.term(('L', x[1] - n * k, x[2]))
                lo = m.term(('L', x[1] - n * (k - 1), x[2]))
                cut = k * n + r[0]          # first value of the upper window
                return m.ite(m.le(('L', x[1] - cut + 1, x[2])), lo, hi)
            # a wrap inside a wrap of no more bits has no effect
            y, flat = ('L', x[1], ()), False
            for a, c in x[2]:
                nm = m.atoms.names[a]
                if isinstance(nm, tuple) and nm[0] == 'wrap' and nm[1] >= bits and \
                        isinstance(nm[3], tuple) and nm[3][0] == 'L':
                    y = m.lin_add(y, nm[3], c)
                    flat = True
                else:
                    y = m.lin_add(y, ('L', 0, ((a, 1),)), c)
            if flat:
                return self.fit(m.term(y), t, st, kind, line)
            return m.term(m.atom(('wrap', bits, signed, x), r[0], r[1]))
        return m.bind(v, f)

    # ---------------------------------------------------------------- locations
    def pattern(self, comps):
        return tuple('[]' if isinstance(c, tuple) and c[0] == '[' else c
                     for c in comps)

    def resolve(self, loc):
        """Canonical component tuple of a location (destination naming)."""
        n = self.o.naming
        seen = 0
        while True:
            seen += 1
            if seen > 20:
                break
            root = loc[0]
            if root[0] == 'R':
                return tuple(c for c in loc[1:] if c != '*')
            if root[0] == 'S':
                comps = tuple(c for c in loc[1:] if c != '*')
                return self._sroot(root) + comps
            if n is not None:
                hit = None
                for i in range(len(loc), 0, -1):
                    d = n.copy.get(loc[:i])
                    if d is not None:
                        hit = d + loc[i:]
                        break
                if hit is None and root in n.obj:
                    hit = n.obj[root] + loc[1:]
                if hit is not None and hit[0] != root:
                    loc = self.thaw(hit)
                    continue
            break
        return (root,) + tuple(c for c in loc[1:] if c != '*')

    def freeze(self, x):
        """Copy of a location with its index expressions spelled by name."""
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple):
                at = self.m.atoms
                return ('LS', x[1], tuple((self.freeze(at.names[a]),) + at.rng[a] + (c,)
                                          for a, c in x[2]))
            if len(x) == 2 and x[0] in ('val', 'N') and isinstance(x[1], int):
                return (x[0], self.freezenode(x[1]))
            return tuple(self.freeze(y) for y in x)
        return x

    def freezenode(self, n):
        nd = self.m.nodes[n]
        if nd[0] == INF:
            return ('TS', self.freeze(nd[1]))
        return ('NS', self.freeze(('L', 0, self.m.keyterms[nd[0]])), nd[1],
                tuple(self.freezenode(k) for k in nd[2]))

    def thawnode(self, x):
        m = self.m
        if x[0] == 'TS':
            return m.term(self.thaw(x[1]))
        key = self.thaw(x[1])
        r = self.thawnode(x[3][-1])
        for i in range(len(x[2]) - 1, -1, -1):
            g = m.le(('L', key[1] - x[2][i], key[2]))
            r = m.ite(g, self.thawnode(x[3][i]), r)
        return r

    def thaw(self, x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] in ('val', 'N') and isinstance(x[1], tuple):
                return (x[0], self.thawnode(x[1]))
            if len(x) == 3 and x[0] == 'LS':
                l = ('L', x[1], ())
                for nm, lo, hi, c in x[2]:
                    n = self.o.naming
                    if isinstance(nm, tuple) and nm and nm[0] == 'rd' and n is not None \
                            and nm[1] in n.read:
                        nm = self.name(self.thaw(n.read[nm[1]][0]))
                        r = self.o.ranges.get(self.pattern(nm[1:]))
                        if r:
                            lo, hi = r
                    else:
                        nm = self.thaw(nm)
                    l = self.m.lin_add(l, self.m.atom(nm, lo, hi), c)
                return l
            if len(x) > 1 and x[0] == 'f' and isinstance(x[1], tuple) and x[1] and \
                    x[1][0] in ('O', 'L'):
                return self.name(tuple(self.thaw(y) for y in x[1:]))
            return tuple(self.thaw(y) for y in x)
        return x

    def _sroot(self, root):
        if root[1] == 'state':
            return ()
        if isinstance(root[1], tuple):
            return tuple(root[1])
        return (root[1],)

    def name(self, loc):
        comps = self.resolve(loc)
        out = []
        i = 0
        while i < len(comps):
            c = comps[i]
            if c == 'second' and out and isinstance(out[-1], tuple):
                i += 1
                continue
            out.append(c)
            i += 1
        return ('f',) + tuple(out)

    def prange(self, nm, t):
        """Value range of a named location of type t."""
        p = self.pattern(nm[1:])
        r = self.o.ranges.get(p)
        tr = trange(t)
        if r is None:
            return tr if tr != (-INF, INF) else (-INF, INF)
        if tr is None or tr == (-INF, INF):
            return r
        return (max(r[0], tr[0]), min(r[1], tr[1]))

    def rec_of(self, loc):
        """(record, relative comps) of the innermost symbolic pointee."""
        for i in range(len(loc), 0, -1):
            r = self.ptee.get(loc[:i])
            if r is not None:
                return r, loc[i:], loc[:i]
        return None, None, None

    def symbolic(self, loc, t, st):
        m = self.m
        t = unref(t)
        nm = self.name(loc)
        if is_ptr(t):
            tgt = loc + ('*',)
            if t != 'nullptr_t':
                self.ptee.setdefault(tgt, targ(t).replace('T:', ''))
            rec, rel, base = self.rec_of(loc)
            if t[:2] in ('U<', 'S<'):
                if len(loc) >= 2 and loc[-1] == 'second':
                    return m.term(('ptr', tgt))
                s = self.o.summaries.get(rec)
                if s is not None:
                    v = s.lookup(self, rel, base, nm, st)
                    if v is not None:
                        return m.bind(v, lambda x: m.term(
                            ('ptr', tgt) if x[0] == 'ptr' else x))
                nn = m.atom(('nonnull', nm), 0, 1)
                return m.ite(m.NOT(m.eq0(nn)), m.term(('ptr', tgt)),
                             m.term(('null',)))
            if loc[0][0] == 'S' and len(loc) == 1:
                return m.term(('ptr', tgt))
            nn = m.atom(('nonnull', nm), 0, 1)
            return m.ite(m.NOT(m.eq0(nn)), m.term(('ptr', tgt)),
                         m.term(('null',)))
        r = self.prange(nm, t)
        rec, rel, base = self.rec_of(loc)
        if rec is not None and r is not None:
            rr = self.o.recranges.get(rec, {}).get(
                self.pattern(c for c in rel if c != '*'))
            if rr:
                r = (max(r[0], rr[0]), min(r[1], rr[1]))
        if loc[-1] == '#len':
            r = (0, MAXU32)
            if rec is not None:
                inv = self.o.leninv.get(rec, {}).get(rel[:-1])
                if inv:
                    return self.load(base + inv, 'u32', st)
                rr = self.o.recranges.get(rec, {}).get(
                    self.pattern(c for c in rel if c != '*'))
                if rr:
                    r = (max(r[0], rr[0]), min(r[1], rr[1]))
        if r is None:
            return m.term(('opq', nm))
        return m.term(m.atom(nm, r[0], r[1]))

    def load(self, loc, t, st):
        v = st.env.get(loc)
        if v is not None:
            return v
        for i in range(len(loc), 0, -1):
            a = st.env.get(loc[:i] + ('#alias',))
            if a is not None:
                return self.load(a + loc[i:], t, st)
        env = st.env
        if loc[0][0] == 'G' and len(loc) > 1:
            tab = self.gtable(loc[0][1])
            if tab is not None and not any(k[0] == loc[0] for k in env):
                env = tab
                v = env.get(loc)
                if v is not None:
                    return v
        for i in range(len(loc) - 1, 0, -1):
            c = loc[i]
            if isinstance(c, tuple) and c[0] == '[' and i:
                d = env.get(loc[:i] + ('#each',) + loc[i + 1:])
                if d is not None or c[1][2]:
                    v = self.anycell(env, loc, i, d, st)
                    if v is not None:
                        return v
        return self.symbolic(loc, t, st)

    def anycell(self, env, loc, i, d, st):
        """Element of a container of which single cells are known."""
        m = self.m
        c, base = loc[i], loc[:i]
        cells = [(k[i][1], v) for k, v in env.items()
                 if len(k) == len(loc) and k[:i] == base and isinstance(k[i], tuple) and
                 k[i][0] == '[' and k[i + 1:] == loc[i + 1:]]
        if d is None:
            # all cells known, or not known
            n = env.get(base + ('#len',))
            n = m.val(n) if n is not None and not isinstance(n, tuple) and m.is_term(n) else None
            if not (isinstance(n, tuple) and n[0] == 'L' and not n[2] and 0 < n[1] <= 64):
                return None
            if any(x[2] for x, _ in cells) or {x[1] for x, _ in cells} != set(range(n[1])):
                return None
        cells.sort(key=lambda kv: (bool(kv[0][2]), kv[0][1], repr(kv[0][2])))
        if d is None:
            d = cells.pop(0)[1]
        for x, v in cells:
            if isinstance(v, tuple):
                return None
            df = m.lin_add(c[1], x, -1)
            if not df[2]:
                if df[1]:
                    continue
                return v
            lo, hi = m.range_under(df, st.g)
            if lo > 0 or hi < 0:
                continue
            d = m.ite(m.eq0(df), v, d)
        return d

    def store1(self, loc, v, st, t=None):
        """Strong store of a scalar/pointer node at one location."""
        if t is not None:
            self.ltype[loc] = t
        # element store invalidates other cells which may be the same element
        for i in range(len(loc) - 1, 0, -1):
            c = loc[i]
            if isinstance(c, tuple) and c[0] == '[':
                base = loc[:i]
                drop = None
                for k in st.env:
                    if len(k) > i and k[:i] == base and isinstance(k[i], tuple) \
                            and k[i][0] == '[' and k[i] != c:
                        d = self.m.lin_add(k[i][1], c[1], -1)
                        if not d[2]:
                            continue
                        lo, hi = self.m.range_under(d, st.g)
                        if lo > 0 or hi < 0:
                            continue
                        drop = drop or []
                        drop.append(k)
                for k in drop or ():
                    del st.env[k]
                if drop:
                    for k in [k for k in st.env if len(k) > i and k[:i] == base and
                              k[i] == '#each']:
                        del st.env[k]
                break
        st.env[loc] = v
        if self.recording:
            self.note_flow(loc, v)

    def note_flow(self, loc, v):
        m = self.m
        for t in m.terminals(v):
            if not isinstance(t, tuple) or not t:
                continue
            if t[0] == 'L':
                for a, c in t[2]:
                    self._flow_atom(a, loc, len(t[2]) == 1 and c == 1 and t[1] == 0)
            elif t[0] == 'ptr' and len(t[1]) == 1 and t[1][0][0] == 'O':
                self.objflow.setdefault(t[1][0], []).append(loc + ('*',))
        if not m.is_term(v):
            for x in m.vars_of(v):
                ts = m.keyterms[x]
                if len(ts) == 1:
                    self._flow_atom(ts[0][0], loc, False, weak=True)

    def _flow_atom(self, a, loc, exact, weak=False):
        nm = self.m.atoms.names[a]
        if isinstance(nm, tuple) and nm[0] == 'rd':
            self.flows.setdefault(nm[1], []).append((loc, exact, weak))
        elif isinstance(nm, tuple) and nm[0] in ('wrap', 'or', 'and', 'mul',
                                                 'shl', 'div', 'mod', 'xor'):
            for x in nm[1:]:
                if isinstance(x, tuple) and len(x) == 3 and x[0] == 'L':
                    for b, _ in x[2]:
                        self._flow_atom(b, loc, False)

    def store(self, lv, v, st, t=None):
        m = self.m
        if m.is_term(lv):
            x = m.val(lv)
            if x[0] == 'loc':
                self.assign(x[1], v, st, t)
                return
            if x[0] in ('bad', 'opq'):
                return
            raise Undecided('store to %s' % (x,))
        for x in m.terminals(lv):
            if x[0] != 'loc':
                continue
            g = m.where(lv, lambda y: y == x)
            if m.AND(g, st.g) == m.F:
                continue
            if self._is_objval(v):
                raise Undecided('conditional object store')
            old = self.load(x[1], t or 'Z', st)
            self.store1(x[1], m.ite(g, v, old), st, t)

    def _is_objval(self, v):
        return self.m.is_term(v) and self.m.val(v)[0] == 'obj'

    def assign(self, loc, v, st, t=None):
        m = self.m
        if m.is_term(v) and m.val(v)[0] == 'obj':
            self.copy_tree(m.val(v)[1], loc, st)
            return
        if not m.is_term(v) and any(isinstance(x, tuple) and x[0] == 'obj'
                                    for x in m.terminals(v)):
            first = True
            for x in m.terminals(v):
                if x[0] != 'obj':
                    raise Undecided('mixed object value')
                g = m.where(v, lambda y: y == x)
                if first:
                    self.copy_tree(x[1], loc, st)
                    first = False
                else:
                    s2 = st.copy()
                    self.copy_tree(x[1], loc, s2)
                    st.env = self.merge_env(g, s2.env, st.env, st)
            return
        self.store1(loc, v, st, t)

    def copy_tree(self, src, dst, st):
        if src == dst:
            return
        # follow alias of the source
        for i in range(len(src), 0, -1):
            a = st.env.get(src[:i] + ('#alias',))
            if a is not None:
                return self.copy_tree(a + src[i:], dst, st)
        n = len(src)
        items = [(k, v) for k, v in st.env.items() if k[:n] == src]
        self.clear_tree(dst, st)
        owned = False
        for i in range(len(src), 0, -1):
            if src[:i] + ('#own',) in st.env:
                owned = True
                break
        if not owned:
            st.env[dst + ('#alias',)] = src
        for k, v in items:
            st.env[dst + k[n:]] = v
            if self.recording and k[-1] not in ('#own', '#alias', '#len'):
                self.note_flow(dst + k[n:], v)
        if owned:
            st.env[dst + ('#own',)] = self.m.T
        if self.recording:
            self.copyflow.setdefault(src, []).append(dst)

    def clear_tree(self, loc, st):
        n = len(loc)
        for k in [k for k in st.env if k[:n] == loc]:
            del st.env[k]

    # ---------------------------------------------------------------- objects
    def init_obj(self, loc, t, st, zero=False):
        m = self.m
        t = unref(t)
        self.ltype[loc] = t
        if t.startswith('V<'):
            st.env[loc + ('#own',)] = m.T
            st.env[loc + ('#len',)] = m.const(0)
        elif t.startswith('A<'):
            st.env[loc + ('#own',)] = m.T
            n = int(targ(t, 0))
            et = targ(t, 1)
            if int_type(et):
                if zero:
                    st.env[loc + ('#each',)] = m.const(0)
                else:
                    r = trange(et)
                    nm = self.name(loc)
                    st.env[loc + ('#each',)] = m.term(m.atom(('uninit', nm, '[]'), *r))
            st.env[loc + ('#len',)] = m.const(n)
        elif t.startswith('M<'):
            st.env[loc + ('#own',)] = m.T
        elif t == 'str':
            st.env[loc + ('#own',)] = m.T
            st.env[loc + ('#str',)] = m.term(('str', ''))
        elif t.startswith('T:'):
            rec = self.P.records.get(t[2:])
            st.env[loc + ('#own',)] = m.T
            if rec is None:
                return
            for b in rec['bases']:
                self.init_obj(loc, b, st, zero)
            for f in rec['fields']:
                fl = loc + (f['n'],)
                if self.o.zero_defaults and (int_type(f['ty']) or f['ty'][:2] == 'A<'):
                    # reference tables state every default themselves
                    self.init_obj(fl, f['ty'], st, True)
                elif 'init' in f:
                    self.init_from(fl, f['ty'], f['init'], st)
                else:
                    self.init_obj(fl, f['ty'], st, zero)
            if self.P.records.get(t[2:]) and any(
                    mm['virtual'] for mm in rec['methods']):
                st.env[loc + ('#dyn',)] = m.term(('type', t[2:]))
        elif is_ptr(t):
            if t[:2] in ('U<', 'S<') or zero:
                st.env[loc] = m.term(('null',))
            else:
                st.env[loc] = m.term(m.atom(('uninit', self.name(loc)), 0, 1))
        elif int_type(t):
            if zero:
                st.env[loc] = m.const(0)
            else:
                r = trange(t)
                st.env[loc] = m.term(m.atom(('uninit', self.name(loc)), *r))
        else:
            st.env[loc + ('#own',)] = m.T

    def init_from(self, loc, t, e, st):
        if e is None:
            self.init_obj(loc, t, st)
            return
        if e[0] == 'ilist':
            self.init_list(loc, t, e, st)
            return
        v = self.rv(e, st)
        if int_type(t):
            v = self.fit(v, t, st, line=e[1])
        self.clear_tree(loc, st) if is_obj(t) else None
        self.assign(loc, v, st, unref(t))

    def init_list(self, loc, t, e, st):
        m = self.m
        tt = unref(t)
        args = e[3]
        if tt.startswith('T:'):
            rec = self.P.records.get(tt[2:])
            if rec is None:
                raise Undecided('init list of ' + tt)
            self.init_obj(loc, tt, st, zero=True)
            fs = rec['fields']
            for f, a in zip(fs, args):
                self.init_from(loc + (f['n'],), f['ty'], a, st)
            return
        if tt.startswith('A<'):
            self.init_obj(loc, tt, st, zero=True)
            et = targ(tt, 1)
            if len(args) == 1 and args[0][0] == 'ilist' and not et.startswith('A<') \
                    and not et.startswith('T:'):
                args = args[0][3]     # std::array double brace
            for i, a in enumerate(args):
                self.init_from(loc + (('[', ('L', i, ())),), et, a, st)
            return
        if tt.startswith('V<') or tt.startswith('I<'):
            st.env[loc + ('#own',)] = m.T
            et = targ(tt, 0)
            for i, a in enumerate(args):
                self.init_from(loc + (('[', ('L', i, ())),), et, a, st)
            st.env[loc + ('#len',)] = m.const(len(args))
            return
        if len(args) == 1:
            self.init_from(loc, t, args[0], st)
            return
        if not args:
            self.init_obj(loc, t, st, zero=True)
            return
        raise Undecided('init list of ' + tt)

    def temp(self, e, st, t):
        root = ('O', self.ctxid(self.ctx), id(e))
        loc = (root,)
        self.clear_tree(loc, st)
        self.ltype[loc] = unref(t)
        return loc

    # ---------------------------------------------------------------- lvalues
    def lv(self, e, st):
        m = self.m
        k = e[0]
        if k == 'ref':
            loc = self.varloc(e[3])
            if strip_cv(self.vartype.get(loc, '')).startswith('R<'):
                v = st.env.get(loc)
                if v is None:
                    raise Undecided('unbound reference ' + e[4])
                return self.asloc(v)
            return m.term(('loc', loc))
        if k == 'mem':
            base = e[3]
            if e[5]:
                b = self.deref(self.rv(base, st), st, e[1], base)
            else:
                b = self.lvobj(base, st)
            return m.bind(b, lambda x: m.term(
                ('loc', x[1] + (e[4],)) if x[0] == 'loc' else x))
        if k == 'un' and e[3] == '*':
            return self.deref(self.rv(e[4], st), st, e[1], e[4])
        if k == 'un' and e[3] in ('++', '--'):
            self.incdec(e, st)
            return self.lv(e[4], st)
        if k == 'idx':
            base = e[3]
            iv = self.rv(e[4], st)
            b = base
            if b[0] == 'cast' and b[3] == 'decay':
                bl = self.lvobj(b[4], st)
                bt = b[4][2]
                self.index_event(st, e, bl, iv, bt)
                return self.elem(bl, iv, st)
            bl = self.deref(self.rv(base, st), st, e[1], base)
            self.ev('rawindex', st, e[1], base=bl, index=iv)
            return self.elem(bl, iv, st)
        if k == 'opcall':
            return self.opcall(e, st, want='lv')
        if k in ('call', 'mcall', 'icall'):
            v = self.rv(e, st)
            if any(not (isinstance(x, tuple) and x[0] in
                        ('loc', 'bad', 'opq', 'obj', 'ref')) for x in m.terminals(v)):
                loc = self.temp(e, st, e[2])
                st.env[loc] = v
                st.env[loc + ('#own',)] = m.T
                return m.term(('loc', loc))
            return self.asloc(v)
        if k == 'cast':
            return self.lv(e[4], st)
        if k == 'cond':
            g = self.cond(e[3], st)
            sa, sb = st.copy(), st.copy()
            sa.g, sb.g = m.AND(st.g, g), m.ANDN(st.g, g)
            a = self.lv(e[4], sa)
            b = self.lv(e[5], sb)
            st.env = self.merge_env(g, sa.env, sb.env, st)
            return m.ite(g, a, b)
        if k == 'asg':
            self.assignexpr(e, st)
            return self.lv(e[4], st)
        if k == 'gref':
            return m.term(('loc', self.gloc(e)))
        if k == 'this':
            return m.term(('loc', self.fr().this))
        if k in ('ctor', 'ilist', 'lambda', 'strlit', 'int', 'bin', 'zero', 'ld',
                 'null', 'float'):
            v = self.rv(e, st)
            if m.is_term(v) and m.val(v)[0] == 'obj':
                return m.term(('loc', m.val(v)[1]))
            loc = self.temp(e, st, e[2])
            st.env[loc] = v
            st.env[loc + ('#own',)] = m.T
            return m.term(('loc', loc))
        raise Undecided('lvalue %s at line %s' % (k, e[1]))

    def asloc(self, v):
        m = self.m

        def f(x):
            if isinstance(x, tuple):
                if x[0] in ('loc', 'bad', 'opq'):
                    return m.term(x)
                if x[0] == 'obj':
                    return m.term(('loc', x[1]))
                if x[0] == 'ref':
                    return m.term(('loc', x[1]))
            return m.term(('bad',))
        return m.bind(v, f)

    def lvobj(self, e, st):
        return self.lv(e, st)

    def varloc(self, vid):
        f = self.fr()
        r = f.vars.get(vid)
        if r is not None:
            return r
        return (('L', f.ctx, vid),)

    def deref(self, v, st, line, e=None):
        m = self.m
        nullg = m.where(v, lambda x: isinstance(x, tuple) and x[0] == 'null')
        may = m.AND(nullg, st.g)
        self.ev('deref', st, line, null=may, what=self.src(e), ptr=v)

        def f(x):
            if isinstance(x, tuple) and x[0] == 'ptr':
                return m.term(('loc', x[1]))
            if isinstance(x, tuple) and x[0] == 'it':
                return m.term(('loc', x[1]))
            return m.term(('bad',))
        if may != m.F:
            # continue on the non-null states
            st.g = m.AND(st.g, m.NOT(nullg))
        r = m.bind(v, f)
        if not m.is_term(r):
            r = m.restrict(r, st.g)
        return r

    def elem(self, bl, iv, st):
        m = self.m
        ilin = None
        if m.is_term(iv):
            ilin = self.tolin(iv, st.g)
        if ilin is None:
            iv2 = m.restrict(iv, st.g)
            if m.is_term(iv2) or len(m.terminals(iv2)) > 12:
                ilin = self.tolin(iv2, st.g)
                iv = None
            else:
                iv = iv2

        def f(x):
            if x[0] != 'loc':
                return m.term(x)
            if ilin is not None:
                return m.term(('loc', x[1] + (('[', ilin),)))
            return m.bind(iv, lambda y: m.term(
                ('loc', x[1] + (('[', y if isinstance(y, tuple) and y[0] == 'L'
                                 else self.tolin(m.term(y), st.g)),))))
        return m.bind(bl, f)

    def length(self, bl, st):
        m = self.m

        def f(x):
            if x[0] != 'loc':
                return m.const(0)
            loc = x[1]
            return self.load(loc + ('#len',), 'u64', st)
        return m.bind(bl, f)

    def index_event(self, st, e, bl, iv, t):
        ln = None
        try:
            tt = unref(t)
            if tt.startswith('A<'):
                ln = self.num(int(targ(tt, 0)))
            else:
                ln = self.length(bl, st)
        except Undecided:
            pass
        self.ev('index', st, e[1], base=bl, index=iv, len=ln, what=self.src(e))

    def src(self, e):
        """Readable form of an expression (no line numbers)."""
        if e is None:
            return '?'
        k = e[0]
        try:
            if k in ('ld',):
                return self.src(e[3])
            if k == 'ref':
                return e[4]
            if k == 'gref':
                return e[3].split('::')[-1]
            if k == 'mem':
                b = self.src(e[3])
                if b == 'this':
                    return e[4]
                return b + ('->' if e[5] else '.') + e[4]
            if k == 'this':
                return 'this'
            if k == 'int':
                return str(e[3])
            if k == 'idx':
                return '%s[%s]' % (self.src(e[3]), self.src(e[4]))
            if k == 'cast':
                return self.src(e[4])
            if k == 'un':
                return e[3] + self.src(e[4])
            if k == 'bin':
                return '%s %s %s' % (self.src(e[4]), e[3], self.src(e[5]))
            if k == 'opcall':
                if e[3] == '[]':
                    return '%s[%s]' % (self.src(e[6][0]), self.src(e[6][1]))
                if e[3] in ('->', '*'):
                    return self.src(e[6][0])
                return 'op' + e[3]
            if k == 'mcall':
                b = self.src(e[5])
                n = e[4].split('::')[-1]
                if n.startswith('operator '):
                    return b
                return '%s.%s()' % (b, n)
            if k == 'call':
                return e[4].split('::')[-1] + '()'
        except Exception:
            pass
        return k

    # ---------------------------------------------------------------- rvalues
    def rv(self, e, st):
        m = self.m
        k = e[0]
        f = getattr(self, 'rv_' + k, None)
        if f is None:
            raise Undecided('expression %s at line %s' % (k, e[1]))
        return f(e, st)

    def rv_int(self, e, st):
        return self.num(int(e[3]))

    def rv_float(self, e, st):
        return self.m.term(('flt', e[3]))

    def rv_zero(self, e, st):
        if is_ptr(e[2]):
            return self.m.term(('null',))
        if is_obj(e[2]):
            loc = self.temp(e, st, e[2])
            self.init_obj(loc, e[2], st, zero=True)
            return self.m.term(('obj', loc))
        return self.num(0)

    def rv_strlit(self, e, st):
        return self.m.term(('str', e[3]))

    def rv_null(self, e, st):
        return self.m.term(('null',))

    def rv_this(self, e, st):
        return self.m.term(('ptr', self.fr().this))

    def rv_fnref(self, e, st):
        return self.m.term(('fn', e[3], e[4]))

    def rv_ld(self, e, st):
        m = self.m
        if e[3][0] == 'gref':
            return self.loadglobal(e[3], st)
        if e[3][0] in ('call', 'mcall', 'icall'):
            return self.deloc(self.rv(e[3], st), e[2], st)
        l = self.lv(e[3], st)
        return self.loadlv(l, e[2], st)

    def loadlv(self, l, t, st):
        m = self.m
        if is_obj(t):
            return m.bind(l, lambda x: m.term(('obj', x[1]) if x[0] == 'loc' else x))

        def f(x):
            if x[0] == 'loc':
                return self.load(x[1], t, st)
            return m.term(x)
        return m.bind(l, f)

    def gloc(self, e):
        if len(e) > 4 and e[4] and e[3] in self.statics:
            return self.statics[e[3]]
        return (('G', e[3]),)

    def gtable(self, name):
        """Cells of a constant table with an initialiser, or None."""
        if name in self.gtables:
            return self.gtables[name]
        self.gtables[name] = None
        g = self.P.vars.get(name)
        if g is not None and (g['const'] or g['constexpr']) and 'init' in g and \
                strip_cv(g['ty']).startswith('A<') and self.frames:
            s = State(self.m.T, {})
            q = self.quiet()
            try:
                self.init_from((('G', name),), strip_cv(g['ty']), g['init'], s)
                if s.g == self.m.T:
                    self.gtables[name] = s.env
            except Undecided:
                pass
            finally:
                self.recording = q
        return self.gtables[name]

    def loadglobal(self, e, st):
        m = self.m
        loc = self.gloc(e)
        v = st.env.get(loc)
        if v is not None:
            return v
        g = self.P.vars.get(e[3])
        if g is not None and (g['const'] or g['constexpr']) and 'init' in g and \
                int_type(g['ty']):
            return self.rv(g['init'], st)
        self.ev('globalread', st, e[1], name=e[3])
        if is_ptr(e[2]):
            return m.term(('ptr', loc))
        r = trange(e[2])
        if r:
            return m.term(m.atom(('g', e[3]), *r))
        return m.term(('opq', 'g', e[3]))

    def rv_gref(self, e, st):
        return self.lv(e, st)

    def rv_ref(self, e, st):
        return self.aslval(e, st)

    def aslval(self, e, st):
        """glvalue used where a class prvalue/xvalue is expected."""
        m = self.m
        l = self.lv(e, st)
        t = unref(e[2])
        if is_obj(t):
            return m.bind(l, lambda x: m.term(('obj', x[1]) if x[0] == 'loc' else x))
        if is_ptr(t) or int_type(t):
            # smart pointers / scalars: value
            return self.loadlv(l, t, st)
        return l

    rv_mem = rv_idx = aslval

    def rv_cast(self, e, st):
        m = self.m
        k = e[3]
        if k == 'decay':
            if e[4][0] == 'strlit':
                return self.rv(e[4], st)
            l = self.lv(e[4], st)
            return m.bind(l, lambda x: m.term(('ptr', x[1]) if x[0] == 'loc' else x))
        v = self.rv(e[4], st)
        if k == 'IntegralCast':
            return self.fit(v, e[2], st, line=e[1])
        if k in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.guard2val(self.truth(v))
        if k in ('void',):
            return v
        if k in ('base', 'BitCast', 'Dynamic'):
            return v
        if k == 'IntegralToFloating':
            return m.bind(v, lambda x: m.term(('i2f', x)))
        if k == 'FloatingCast':
            return v
        if k == 'FloatingToIntegral':
            return self.f2i(v, e, st)
        if k == 'FloatingToBoolean':
            return m.bind(v, lambda x: self.guard2val(m.NOT(m.eq0(m.atom(('fb', x), 0, 1)))))
        if k in ('IntegralToPointer', 'PointerToIntegral'):
            return m.term(('opq', 'ptrint', self.src(e)))
        return m.term(('opq', k, self.src(e)))

    def f2i(self, v, e, st):
        m = self.m

        def f(x):
            if isinstance(x, tuple) and x[0] == 'i2f':
                return m.term(x[1])
            if isinstance(x, tuple) and x[0] == 'flt' and not isinstance(x[1], tuple):
                return m.const(int(x[1]))
            x = norm_float(x)
            if isinstance(x, tuple) and x[0] == 'i2f':
                return m.term(x[1])
            if isinstance(x, tuple) and x[0] == 'fcall' and x[1] == 'ceil' and \
                    isinstance(x[2], tuple) and x[2][0] == 'flop' and x[2][1] == '/' and \
                    x[2][2][0] == 'i2f' and x[2][3][0] == 'i2f':
                return self.fit(self.ceildiv(x[2][2][1], x[2][3][1], st), e[2], st)
            c = clog2_pattern(x)
            if c is not None:
                lo, hi = m.range_under(c, st.g)
                if hi == INF:
                    hi = 2 ** 64
                return m.term(m.atom(('clog2', c), 0 if lo >= 1 else -INF,
                                     max(0, int(hi) - 1).bit_length()))
            r = trange(e[2])
            return m.term(m.atom(('f2i', x), *r))
        return m.bind(v, f)

    def ceildiv(self, a, b, st):
        m = self.m
        if not b[2] and b[1] > 0:
            return self.arith1('/', ('L', a[1] + b[1] - 1, a[2]), b, 'Z', st)
        rx, ry = m.range_under(a, st.g), m.range_under(b, st.g)
        lo, hi = 0 if rx[0] >= 0 else -INF, max(rx[1], 0)
        if rx[0] > 0 and ry[0] > 0:
            if ry[1] != INF:
                lo = -((-rx[0]) // ry[1])
            else:
                lo = 1
            if rx[1] != INF:
                hi = -((-rx[1]) // ry[0])
        return m.term(m.atom(('cdiv', a, b), lo, hi))

    def rv_bin(self, e, st):
        op = e[3]
        if op in ('&&', '||'):
            return self.guard2val(self.cond(e, st))
        if op == ',':
            self.rv(e[4], st)
            return self.rv(e[5], st)
        a = self.rv(e[4], st)
        b = self.rv(e[5], st)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.guard2val(self.compare(op, a, b, st))
        return self.arith(op, a, b, e[2], st, e)

    def compare(self, op, a, b, st):
        m = self.m

        def f(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and \
                    x[0] == 'L' and y[0] == 'L':
                d = m.lin_add(x, y, -1)     # x - y
                if op == '<':
                    d = ('L', d[1] + 1, d[2])
                    return m.le(d)
                if op == '<=':
                    return m.le(d)
                if op == '>':
                    d = m.lin_scale(d, -1)
                    return m.le(('L', d[1] + 1, d[2]))
                if op == '>=':
                    return m.le(m.lin_scale(d, -1))
                if op == '==':
                    return m.eq0(d)
                return m.NOT(m.eq0(d))
            if op in ('==', '!='):
                r = None
                nx = isinstance(x, tuple) and x[0] == 'null'
                ny = isinstance(y, tuple) and y[0] == 'null'
                px = isinstance(x, tuple) and x[0] in ('ptr', 'str')
                py = isinstance(y, tuple) and y[0] in ('ptr', 'str')
                if x == y:
                    r = m.T
                elif (nx and py) or (px and ny):
                    r = m.F
                elif isinstance(x, tuple) and isinstance(y, tuple) and \
                        {x[0], y[0]} == {'it', 'end'}:
                    r = m.F
                elif isinstance(x, tuple) and isinstance(y, tuple) and \
                        x[0] == 'end' and y[0] == 'end':
                    r = m.T
                if r is None:
                    p, q = sorted((repr(x), repr(y)))
                    r = m.NOT(m.eq0(m.atom(('opeq', p, q), 0, 1)))
                return r if op == '==' else m.NOT(r)
            return m.NOT(m.eq0(m.atom(('opcmp', op, x, y), 0, 1)))
        a = m.restrict(a, st.g)
        b = m.restrict(b, st.g)
        return m.bind2(a, b, f)

    def arith(self, op, a, b, t, st, e):
        m = self.m
        a = m.restrict(a, st.g)
        b = m.restrict(b, st.g)
        line = e[1] if e else 0
        fl = unref(t) in ('f32', 'f64', 'f80', 'f128')
        if fl:
            return m.bind2(a, b, lambda x, y: m.term(('flop', op, x, y)))
        if is_ptr(t):
            self.ev('ptrarith', st, line, op=op, a=a, b=b)
            return m.bind2(a, b, lambda x, y: m.term(('opq', 'ptr', op, x, y)))
        if op in ('<<', '>>'):
            self.ev('shift', st, line, op=op, a=a, b=b, ty=t, what=self.src(e))
        if op in ('/', '%'):
            self.ev('div', st, line, op=op, a=a, b=b, ty=t, what=self.src(e))
        if not m.is_term(a) and not m.is_term(b) and \
                len(m.terminals(a)) * len(m.terminals(b)) > 200:
            b = m.term(self.tolin(b, st.g))
        v = m.bind2(a, b, lambda x, y: self.arith1(op, x, y, t, st))
        it = int_type(t)
        if it and it[0] and it[1]:
            r = trange(t)
            lo, hi = self.vrange(v, st.g)
            if lo < r[0] or hi > r[1]:
                self.ev('sovf', st, line, op=op, val=v, ty=t, lo=lo, hi=hi,
                        what=self.src(e))
                # undefined beyond the type: continue with the mathematical value
                return v
            self.ev('sovf', st, line, op=op, val=v, ty=t, lo=lo, hi=hi,
                    what=self.src(e), ok=True)
            return v
        return self.fit(v, t, st, line=line)

    def arith1(self, op, x, y, t, st):
        m = self.m
        if not (isinstance(x, tuple) and x[0] == 'L' and
                isinstance(y, tuple) and y[0] == 'L'):
            r = trange(t) or (-INF, INF)
            return m.term(m.atom(('opn', op, x, y), *r))
        if op == '+':
            return m.term(m.lin_add(x, y))
        if op == '-':
            return m.term(m.lin_add(x, y, -1))
        if op == '*':
            if not x[2]:
                return m.term(m.lin_scale(y, x[1]))
            if not y[2]:
                return m.term(m.lin_scale(x, y[1]))
            p, q = sorted((x, y), key=lambda z: repr(z))
            a, b = m.range_under(p, st.g), m.range_under(q, st.g)
            cs = [mulinf(i, j) for i in a for j in b]
            return m.term(m.atom(('mul', p, q), *self._rr(cs, x, y)))
        if op in ('/', '%', '<<', '>>', '&', '|', '^') and not x[2] and not y[2]:
            i, j = x[1], y[1]
            try:
                if op == '/':
                    q = abs(i) // abs(j)
                    return m.const(q if (i < 0) == (j < 0) else -q)
                if op == '%':
                    q = abs(i) % abs(j)
                    return m.const(q if i >= 0 else -q)
                if op == '<<':
                    if 0 <= j < 128:
                        return m.const(i << j)
                if op == '>>':
                    if j >= 0:
                        return m.const(i >> j)
                if op == '&':
                    return m.const(i & j)
                if op == '|':
                    return m.const(i | j)
                if op == '^':
                    return m.const(i ^ j)
            except ZeroDivisionError:
                pass
        rx = m.range_under(x, st.g)
        ry = m.range_under(y, st.g)
        if op == '<<':
            if not y[2] and 0 <= y[1] < 64:
                return m.term(m.lin_scale(x, 1 << y[1]))
            if ry[0] >= 0 and ry[1] < 64 and rx[0] > -INF and rx[1] < INF:
                cs = [int(i) << int(j) for i in rx for j in ry]
                return m.term(m.atom(('shl', x, y), min(cs), max(cs)))
            return m.term(m.atom(('shl', x, y), -INF if rx[0] < 0 else 0, INF))
        if op == '>>':
            if not y[2] and 0 <= y[1] < 64 and rx[0] >= 0:
                return self.arith1('/', x, ('L', 1 << y[1], ()), t, st)
            lo = 0 if rx[0] >= 0 else rx[0]
            if rx[0] >= 0 and y[2]:
                sh = self.arith1('<<', ('L', 1, ()), y, 'Z', st)
                if m.is_term(sh):
                    return self.arith1('/', x, m.val(sh), t, st)
            return m.term(m.atom(('shr', x, y), lo, max(rx[1], 0)))
        if op == '/' and y[2]:
            # (x + y - 1) / y is a rounded up division
            d = m.lin_add(('L', x[1] + 1, x[2]), y, -1)
            if set(a for a, _ in y[2]) <= set(a for a, _ in x[2]) and \
                    not set(a for a, _ in y[2]) & set(a for a, _ in d[2]) and rx[0] >= 0:
                return self.ceildiv(d, y, st)
        if op == '/':
            if not y[2] and y[1] != 0:
                c = y[1]
                if c == 1:
                    return m.term(x)
                if all(k % c == 0 for _, k in x[2]) and x[1] % c == 0:
                    return m.term(('L', x[1] // c, tuple((a, k // c) for a, k in x[2])))
                if c > 0:
                    lo = _tdiv(rx[0], c)
                    hi = _tdiv(rx[1], c)
                    if lo == hi and rx[0] >= 0:
                        return m.const(lo)
                    return m.term(m.atom(('div', x, y), lo, hi))
            if rx[0] >= 0 and ry[0] >= 0:
                lo, hi = 0, rx[1]
                sy = m.lin_range(y)
                if sy[0] > 0 and hi != INF:
                    hi //= sy[0]
                return m.term(m.atom(('div', x, y), lo, hi))
            mx = max(abs(rx[0]), abs(rx[1]))
            return m.term(m.atom(('div', x, y), -mx, mx))
        if op == '%':
            if not y[2] and y[1] > 0:
                c = y[1]
                if rx[0] >= 0 and rx[1] < c:
                    return m.term(x)
                # drop multiples of c for a non-negative dividend
                if rx[0] >= 0:
                    z = ('L', x[1] % c, tuple((a, k % c) for a, k in x[2] if k % c))
                    zr = m.range_under(z, st.g)
                    if not z[2]:
                        return m.const(z[1] % c)
                    if zr[0] >= 0 and zr[1] < c:
                        return m.term(z)
                    return m.term(m.atom(('mod', z, y), 0, c - 1))
                return m.term(m.atom(('mod', x, y), -(c - 1), c - 1))
            hi = ry[1] - 1 if ry[1] > 0 else INF
            return m.term(m.atom(('mod', x, y), 0 if rx[0] >= 0 else -hi, hi))
        if op == '&':
            for p, q, rp in ((x, y, rx), (y, x, ry)):
                if not q[2] and q[1] >= 0 and (q[1] & (q[1] + 1)) == 0 and rp[0] >= 0:
                    return self.arith1('%', p, ('L', q[1] + 1, ()), t, st)
            # lo-bit clearing mask  x & (n * 2^k) for one contiguous top mask
            hi = INF
            if rx[0] >= 0:
                hi = min(hi, rx[1])
            if ry[0] >= 0:
                hi = min(hi, ry[1])
            p, q = sorted((x, y), key=repr)
            return m.term(m.atom(('and', p, q), 0 if hi < INF else -INF, hi))
        if op == '|':
            for p, q, rq in ((x, y, ry), (y, x, rx)):
                if rq[0] >= 0 and rq[1] < INF:
                    kk = 1 << int(rq[1]).bit_length()
                    if p[1] % kk == 0 and all(c % kk == 0 for _, c in p[2]):
                        return m.term(m.lin_add(p, q))
            p, q = sorted((x, y), key=repr)
            if rx[0] >= 0 and ry[0] >= 0 and max(rx[1], ry[1]) < INF:
                hi = (1 << int(max(rx[1], ry[1])).bit_length()) - 1
                return m.term(m.atom(('or', p, q), 0, hi))
            return m.term(m.atom(('or', p, q), -INF, INF))
        if op == '^':
            p, q = sorted((x, y), key=repr)
            if rx[0] >= 0 and ry[0] >= 0 and max(rx[1], ry[1]) < INF:
                hi = (1 << int(max(rx[1], ry[1])).bit_length()) - 1
                return m.term(m.atom(('xor', p, q), 0, hi))
            return m.term(m.atom(('xor', p, q), -INF, INF))
        raise Undecided('operator ' + op)

    def _rr(self, cs, x, y):
        """Range of a product atom: from static atom ranges (guard free)."""
        m = self.m
        a, b = m.lin_range(x), m.lin_range(y)
        cs = [mulinf(i, j) for i in a for j in b]
        return min(cs), max(cs)

    def rv_un(self, e, st):
        m = self.m
        op = e[3]
        if op == '!':
            return self.guard2val(m.NOT(self.cond(e[4], st)))
        if op == '&':
            if e[4][0] == 'fnref':
                return self.rv(e[4], st)
            l = self.lv(e[4], st)
            return m.bind(l, lambda x: m.term(('ptr', x[1]) if x[0] == 'loc' else x))
        if op == '*':
            l = self.deref(self.rv(e[4], st), st, e[1], e[4])
            if is_obj(e[2]):
                return m.bind(l, lambda x: m.term(('obj', x[1]) if x[0] == 'loc' else x))
            return self.loadlv(l, e[2], st)
        if op in ('++', '--', 'post++', 'post--'):
            return self.incdec(e, st)
        v = self.rv(e[4], st)
        if op == '-':
            if unref(e[2]) in ('f32', 'f64'):
                return m.bind(v, lambda x: m.term(('flop', 'neg', x, 0)))
            return self.arith('-', self.num(0), v, e[2], st, e)
        if op == '~':
            def f(x):
                if isinstance(x, tuple) and x[0] == 'L':
                    return m.term(('L', -1 - x[1], tuple((a, -c) for a, c in x[2])))
                return m.term(('opq', '~', x))
            return self.fit(m.bind(v, f), e[2], st)
        raise Undecided('unary ' + op)

    def incdec(self, e, st):
        m = self.m
        op = e[3]
        l = self.lv(e[4], st)
        t = e[4][2]
        if is_ptr(t):
            raise Undecided('pointer increment')
        old = self.loadlv(l, t, st)
        d = 1 if '++' in op else -1
        new = m.bind(old, lambda x: m.term(('L', x[1] + d, x[2]))
                     if isinstance(x, tuple) and x[0] == 'L' else m.term(('opq', 'inc', x)))
        new = self.fit(new, t, st, line=e[1])
        self.store(l, new, st, unref(t))
        return old if op.startswith('post') else new

    def assignexpr(self, e, st):
        m = self.m
        op = e[3]
        t = e[4][2]
        if op == '':
            v = self.rv(e[5], st)
            l = self.lv(e[4], st)
            self.store(l, v, st, unref(t))
            self.ev('store', st, e[1], lv=l, val=v)
            return v
        r = self.rv(e[5], st)
        l = self.lv(e[4], st)
        old = self.loadlv(l, t, st)
        ct = e[6]
        if unref(ct) in ('f32', 'f64'):
            v = m.bind2(old, r, lambda x, y: m.term(('flop', op, x, y)))
        else:
            if int_type(ct) and int_type(t):
                old = self.fit(old, ct, st)
            v = self.arith(op, old, r, ct, st, ['bin', e[1], ct, op, e[4], e[5]])
            v = self.fit(v, t, st, line=e[1])
        self.store(l, v, st, unref(t))
        self.ev('store', st, e[1], lv=l, val=v)
        return v

    def rv_asg(self, e, st):
        return self.assignexpr(e, st)

    def rv_cond(self, e, st):
        m = self.m
        g = self.cond(e[3], st)
        sa, sb = st.copy(), st.copy()
        sa.g, sb.g = m.AND(st.g, g), m.ANDN(st.g, g)
        a = b = None
        if sa.g != m.F:
            a = self.rv(e[4], sa)
        if sb.g != m.F:
            b = self.rv(e[5], sb)
        if a is None:
            st.env, st.g = sb.env, sb.g
            return b
        if b is None:
            st.env, st.g = sa.env, sa.g
            return a
        st.env = self.merge_env(g, sa.env, sb.env, st)
        st.g = m.OR(sa.g, sb.g)
        return m.ite(g, a, b)

    def cond(self, e, st):
        """Evaluate a condition to a guard (short circuit aware)."""
        m = self.m
        if e[0] == 'bin' and e[3] in ('&&', '||'):
            a = self.cond(e[4], st)
            s2 = st.copy()
            s2.g = m.AND(st.g, a) if e[3] == '&&' else m.ANDN(st.g, a)
            if s2.g == m.F:
                return m.F if e[3] == '&&' else m.T
            g0 = s2.g
            b = self.cond(e[5], s2)
            if s2.env != st.env or s2.g != g0:
                sel = a if e[3] == '&&' else m.NOT(a)
                rest = m.ANDN(st.g, sel)
                st.env = self.merge_env(sel, s2.env, st.env, st)
                st.g = m.OR(rest, s2.g)
            return m.AND(a, b) if e[3] == '&&' else m.OR(a, b)
        if e[0] == 'un' and e[3] == '!':
            return m.NOT(self.cond(e[4], st))
        if e[0] == 'cast' and e[3] in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.truth(m.restrict(self.rv(e[4], st), st.g))
        v = self.rv(e, st)
        if is_obj(e[2]) and m.is_term(v) and m.val(v)[0] == 'obj':
            return m.NOT(m.eq0(m.atom(('truth', m.val(v)), 0, 1)))
        return self.truth(m.restrict(v, st.g))

    def rv_lambda(self, e, st):
        f = self.fr()
        caps = {}
        for c in e[5]:
            if c[0] == 'this':
                continue
            loc = self.varloc(c[0])
            caps[c[0]] = loc
        self.lambdas = getattr(self, 'lambdas', {})
        self.lambdas[id(e)] = (e, {**f.vars, **caps}, f.this)
        return self.m.term(('lam', id(e), f.ctx))

    def rv_ilist(self, e, st):
        t = unref(e[2])
        if is_obj(t):
            loc = self.temp(e, st, t)
            self.init_list(loc, t, e, st)
            return self.m.term(('obj', loc))
        if len(e[3]) == 1:
            return self.rv(e[3][0], st)
        if not e[3]:
            return self.rv_zero(e, st)
        raise Undecided('initialiser list of ' + t)

    def rv_stmtexpr(self, e, st):
        raise Undecided('statement expression')

    def rv_new(self, e, st):
        t, init = e[3], e[4] if len(e) > 4 else None
        loc = self.temp(e, st, t)
        c = init and init[0] == 'ctor'
        if c and t.startswith('T:') and (init[6] or init[5]):
            self.construct(loc, t, init[3], [self.arg(a, st) for a in init[5]], st, e)
        else:
            self.init_obj(loc, t, st, zero=bool(init and (
                init[0] == 'zero' or (c and init[7]))))
            if init and not c and init[0] != 'zero' and int_type(t):
                st.env[loc] = self.rv(init, st)
        if t.startswith('T:'):
            import models
            models._dyn(self, loc, t, st)
        return self.m.term(('ptr', loc))

    def rv_delete(self, e, st):
        self.rv(e[3], st)
        return self.m.term(('opq', 'void'))

    def rv_throw(self, e, st):
        self.ev('throw', st, e[1])
        self.stops += 1
        st.g = self.m.F
        return self.m.term(('opq', 'throw'))

    def rv_unk(self, e, st):
        raise Undecided('unsupported expression %s at line %s' % (e[3], e[1]))

    # ---------------------------------------------------------------- ctor
    def rv_ctor(self, e, st):
        m = self.m
        t = unref(e[2])
        kind, args = e[4], e[5]
        if t[:2] in ('U<', 'S<'):
            if not args or kind == 'default':
                return m.term(('null',))
            v = self.rv(args[0], st)
            return v
        if t.startswith('V<'):
            if kind in ('copy', 'move') and args:
                return self.rv(args[0], st)
            loc = self.temp(e, st, t)
            self.init_obj(loc, t, st)
            if kind == 'default' or not args:
                return m.term(('obj', loc))
            if args[0][0] == 'ilist':
                self.init_list(loc, t, args[0], st)
                return m.term(('obj', loc))
            if int_type(args[0][2]):
                n = self.rv(args[0], st)
                self.ev('alloc', st, e[1], size=n, what='vector(n)')
                self.fill(loc, targ(t), n, self.fillval(args[1:], targ(t), st), st)
                return m.term(('obj', loc))
            vs = [self.rv(a, st) for a in args]
            self.ev('vecfrom', st, e[1], args=vs, obj=loc)
            ln = self.range_len(vs)
            st.env[loc + ('#len',)] = ln if ln is not None else m.term(
                m.atom(('len', self.name(loc)), 0, MAXU32))
            return m.term(('obj', loc))
        if t == 'str' or t.startswith('std:') or t.startswith('M<') or t.startswith('I<'):
            vs = [self.rv(a, st) for a in args]
            if is_iter(t) and len(vs) == 1:
                return vs[0]
            if kind in ('copy', 'move') and vs and m.is_term(vs[0]) and \
                    m.val(vs[0])[0] in ('obj', 'lam'):
                return vs[0]
            loc = self.temp(e, st, t)
            st.env[loc + ('#own',)] = m.T
            if t == 'str':
                st.env[loc + ('#str',)] = m.term(('str', '')) if not vs else \
                    self.strcontent(vs[0], st) if len(vs) == 1 or \
                    args[1][0] in ('defarg', 'ctor') else m.term(('opq', 'str'))
            return m.term(('obj', loc))
        if t == 'lambda':
            return self.rv(args[0], st)
        if t.startswith('A<') and kind in ('copy', 'move'):
            return self.rv(args[0], st)
        if t.startswith('T:'):
            if kind in ('copy', 'move') and not e[6]:
                v = self.rv(args[0], st)
                return v
            loc = self.temp(e, st, t)
            if kind == 'default' and not e[6]:
                self.init_obj(loc, t, st, zero=bool(e[7]))
                return m.term(('obj', loc))
            vs = [self.arg(a, st) for a in args]
            self.construct(loc, t, e[3], vs, st, e)
            return m.term(('obj', loc))
        loc = self.temp(e, st, t)
        if t.startswith('A<'):
            self.init_obj(loc, t, st, zero=bool(e[7]))
            return m.term(('obj', loc))
        for a in args:
            self.rv(a, st)
        return m.term(('opq', 'ctor', t))

    def fillval(self, args, et, st):
        """Value of the elements of vector(n [, v])."""
        args = [a for a in args if a[0] != 'defarg' and
                (int_type(et) or int_type(a[2]) or not str(a[2]).startswith('std:'))]
        if not args:
            return self.num(0) if int_type(et) else None
        if int_type(et):
            return self.fit(self.deloc(self.arg(args[0], st), et, st), et, st,
                            line=args[0][1])
        return self.rv(args[0], st)

    def fill(self, loc, et, n, v, st, old=0):
        """The vector at loc gets n elements; those from old on are v."""
        m = self.m
        st.env[loc + ('#len',)] = n
        self.ltype[loc + ('#len',)] = 'u64'
        k = m.val(n) if m.is_term(n) else None
        if not (isinstance(k, tuple) and k[0] == 'L' and not k[2] and k[1] <= 64):
            if int_type(et) and not old:
                st.env[loc + ('#each',)] = v
            return
        for i in range(old, k[1]):
            el = loc + (('[', ('L', i, ())),)
            self.ltype[el] = et
            self.clear_tree(el, st)
            if int_type(et):
                self.store1(el, v, st, et)
                self.ev('fill', st, 0, loc=el, val=v)
            elif v is not None and self._is_objval(v):
                self.copy_tree(m.val(v)[1], el, st)
            else:
                self.init_obj(el, et, st, zero=True)

    def filled(self, el, st, line):
        """Events for the numbers an element got by copying a temporary."""
        n = len(el)
        for k, v in list(st.env.items()):
            if len(k) > n and k[:n] == el and isinstance(v, int) and \
                    isinstance(k[-1], tuple) and all(
                        isinstance(t, tuple) and t and t[0] == 'L'
                        for t in self.m.terminals(v)):
                self.ev('fill', st, line, loc=k, val=v)

    def strcontent(self, v, st):
        """Content of a string value."""
        m = self.m

        def f(x):
            if isinstance(x, tuple):
                if x[0] == 'str':
                    return m.term(x)
                if x[0] in ('obj', 'loc'):
                    c = st.env.get(x[1] + ('#str',))
                    if c is not None:
                        return c
                    if x[1][0][0] == 'S':
                        return m.term(('strin', self.name(x[1])))
            return m.term(('opq', 'str'))
        return m.bind(v, f)

    def range_len(self, vs):
        m = self.m
        ts = [m.val(v) for v in vs if m.is_term(v)]
        if len(ts) == 2 and len(vs) == 2 and all(isinstance(x, tuple) for x in ts):
            if ts[0][0] == 'vit' and ts[1][0] == 'vit' and ts[0][1] == ts[1][1] and \
                    ts[0][2] == 'begin' and ts[1][2] == 'end':
                return ts[0][3]
        return None

    def construct(self, loc, t, mangled, vs, st, e):
        """User provided constructor: init members, then the body."""
        m = self.m
        if t == 'T:h265nal::BitBuffer':
            st.env[loc + ('#own',)] = m.T
            self.ev('bitbuffer', st, e[1], args=vs, obj=loc)
            return
        fn = self.P.fns.get(mangled)
        self.init_obj(loc, t, st)
        if fn is None:
            if any(True for _ in vs):
                self.ev('unknowncall', st, e[1], name=t, args=vs)
            return
        fr = self.enter(fn, vs, st, loc, e)
        try:
            for i in fn.get('inits', ()):
                if i.get('written') and 'field' in i and i.get('e') is not None:
                    rec = self.P.records.get(t[2:])
                    ft = next((f['ty'] for f in rec['fields']
                               if f['n'] == i['field']), 'Z') if rec else 'Z'
                    self.init_from(loc + (i['field'],), ft, i['e'], st)
            self.exec(fn['body'], st)
        finally:
            self.leave(fr, fn, st)

    # ---------------------------------------------------------------- calls
    def arg(self, a, st):
        """Argument value: glvalues of scalars/pointers are passed as refs."""
        m = self.m
        if a[0] in ('ref', 'mem', 'idx') or (a[0] == 'un' and a[3] == '*') or \
                (a[0] == 'opcall' and a[3] in ('[]', '*')):
            l = self.lv(a, st)
            return m.bind(l, lambda x: m.term(('loc', x[1]) if x[0] == 'loc' else x))
        if a[0] == 'gref':
            return self.lv(a, st)
        return self.rv(a, st)

    def scalars(self, v, t, st):
        """{member: value} of an object handed over, where it is one object."""
        m = self.m
        rec = self.P.records.get(strip_cv(unref(t)).replace('T:', ''))
        x = m.val(v) if m.is_term(v) else None
        if rec is None or not isinstance(x, tuple) or x[0] not in ('loc', 'obj'):
            return {}
        return {f['n']: self.load(x[1] + (f['n'],), f['ty'], st)
                for f in rec['fields'] if int_type(strip_cv(f['ty']))}

    def deloc(self, v, t, st):
        """Value of an argument that may have been passed by reference."""
        m = self.m
        if m.is_term(v) and isinstance(m.val(v), tuple) and m.val(v)[0] != 'loc':
            return v

        def f(x):
            if isinstance(x, tuple) and x[0] == 'loc':
                tt = unref(t)
                if is_obj(tt):
                    return m.term(('obj', x[1]))
                return self.load(x[1], tt, st)
            return m.term(x)
        return m.bind(v, f)

    def enter(self, fn, vs, st, this, e):
        self.depth += 1
        if self.depth > 40:
            raise Undecided('call depth')
        key = fn['m']
        self.fncalls[fn['q']] = self.fncalls.get(fn['q'], 0) + 1
        if sum(1 for f in self.frames if f.fn['m'] == key) > 2:
            raise Undecided('recursion in ' + fn['q'])
        old = self.ctx
        self.ctx = self.ctx + (id(e),)
        fr = Frame(fn, self.ctxid(self.ctx), this)
        fr.oldctx = old
        fr.g0, fr.stops = st.g, self.stops
        for p, v in zip(fn['ps'], vs):
            name, pid, pt = p
            loc = (('L', fr.ctx, pid),)
            self.vartype[loc] = pt
            if strip_cv(pt).startswith('R<'):
                if self.m.is_term(v) and self.m.val(v)[0] not in ('loc', 'obj', 'bad', 'ref'):
                    # temporary bound to a reference
                    tl = (('L', fr.ctx, (pid, 'tmp')),)
                    st.env[tl] = v
                    st.env[tl + ('#own',)] = self.m.T
                    v = self.m.term(('loc', tl))
                elif not self.m.is_term(v):
                    ts = self.m.terminals(v)
                    if not all(isinstance(x, tuple) and x[0] in ('loc', 'obj', 'bad')
                               for x in ts):
                        tl = (('L', fr.ctx, (pid, 'tmp')),)
                        st.env[tl] = v
                        st.env[tl + ('#own',)] = self.m.T
                        v = self.m.term(('loc', tl))
                st.env[loc] = v
            else:
                v = self.deloc(v, pt, st)
                if int_type(pt):
                    v = self.fit(v, pt, st)
                self.clear_tree(loc, st)
                self.assign(loc, v, st, unref(pt))
        self.frames.append(fr)
        return fr

    def leave(self, fr, fn, st):
        """Merge the return states; leaves st at the joined state."""
        m = self.m
        self.frames.pop()
        self.ctx = fr.oldctx
        self.depth -= 1
        rets = [r for r in fr.rets if r[0] != m.F]
        val = None
        if st.g != m.F:
            rets.append((st.g, m.term(('opq', 'void')), st.env))
        if not rets:
            st.g = m.F
            return m.term(('bad',))
        g, v, env = rets[-1]
        tot = g
        for g2, v2, env2 in reversed(rets[:-1]):
            v = self._mergeval(g2, v2, v)
            env = self.merge_env(g2, env2, env, st)
            tot = m.OR(tot, g2)
        st.env = env
        st.g = tot
        if fr.looprets and self.stops == fr.stops and \
                strip_cv(fn['ret']) in ('void', 'str', 'P<const i8>', 'P<i8>'):
            # a call that always comes back: which iteration it came back from
            # says nothing about what follows
            st.g = fr.g0
        v = m.restrict(v, tot) if not m.is_term(v) else v
        # drop the frame's locals
        ctx = fr.ctx
        if len(self.frames) and not fr.vars:
            keep = set()
            for t in m.terminals(v):
                if isinstance(t, tuple) and t[0] in ('obj', 'loc', 'ptr'):
                    keep.add(t[1][0])
            st.env = {k: x for k, x in st.env.items()
                      if not (k[0][0] == 'L' and k[0][1] == ctx and k[0] not in keep)}
        return v

    def _mergeval(self, g, a, b):
        return self.m.ite(g, a, b)

    def call_fn(self, fn, vs, st, this, e):
        fr = self.enter(fn, vs, st, this, e)
        try:
            self.exec(fn['body'], st)
        except Undecided:
            self.frames.pop()
            self.ctx = fr.oldctx
            self.depth -= 1
            raise
        return self.leave(fr, fn, st)

    def rv_call(self, e, st):
        mangled, q, args = e[3], e[4], e[5]
        return self.do_call(e, mangled, q, args, st, None)

    def rv_icall(self, e, st):
        m = self.m
        c = self.rv(e[3], st) if e[3][0] != 'ref' else self.loadlv(
            self.lv(e[3], st), 'Z', st)
        if m.is_term(c) and m.val(c)[0] == 'fn':
            return self.do_call(e, m.val(c)[1], m.val(c)[2], e[4], st, None)
        if m.is_term(c) and m.val(c)[0] == 'lam':
            return self.call_lambda(m.val(c), e[4], st, e)
        for a in e[4]:
            self.arg(a, st)
        self.ev('unknowncall', st, e[1], name='indirect', args=[])
        r = trange(e[2])
        nm = ('icall', self.src(e), self.opq_ord('icall', e))
        if r:
            return m.term(m.atom(nm, *r))
        return m.term(('opq',) + nm)

    def call_lambda(self, t, args, st, e):
        lam, caps, this = self.lambdas[t[1]]
        mg, ps, body, ret = lambda_spec(lam, e)
        if body is None:
            raise Undecided('generic lambda')
        fn = {'q': self.fr().fn['q'] + '::lambda', 'm': mg + '#' + str(t[1]),
              'file': self.fr().fn['file'], 'line': lam[1], 'ps': [],
              'body': body, 'ret': ret}
        fn['ps'] = [[p[0], p[1], p[2]] for p in ps]
        vs = [self.arg(a, st) for a in args]
        fr = self.enter(fn, vs, st, this, e)
        fr.vars = caps
        self.exec(fn['body'], st)
        return self.leave(fr, fn, st)

    def opq_ord(self, what, e):
        k = (what, self.ctxid(self.ctx), id(e))
        d = self.opaque_n.setdefault(what, {})
        if k not in d:
            d[k] = len(d)
        return d[k]

    def do_call(self, e, mangled, q, args, st, this, virt=False, thistype=None):
        m = self.m
        b = self.o.boundary.get(q)
        if b is not None and (b.get('n') is None or b['n'] == len(args)) and \
                (b.get('pred') is None or b['pred'](args)):
            if not (b.get('root') and not self.frames[1:]):
                return self.boundary_call(e, q, args, st, this, b)
        fn = self.P.fns.get(mangled)
        if fn is not None and (self.o.inline_filter is None or
                               self.o.inline_filter(fn)):
            vs = [self.arg(a, st) for a in args]
            if fn.get('static') or 'cls' not in fn:
                this = None
            return self.call_fn(fn, vs, st, this, e)
        import models
        r = models.call(self, e, q, args, st)
        if r is not None:
            return r
        vs = [self.arg(a, st) for a in args]
        self.ev('extcall', st, e[1], name=q, args=vs)
        r = trange(e[2])
        nm = ('call', q.split('::')[-1], self.opq_ord('call' + q, e))
        if r:
            return m.term(m.atom(nm, *r))
        if is_ptr(e[2]):
            loc = (('S', nm),)
            nn = m.atom(('nonnull', nm), 0, 1)
            return m.ite(m.NOT(m.eq0(nn)), m.term(('ptr', loc)), m.term(('null',)))
        if is_obj(e[2]):
            return m.term(('obj', (('S', nm),)))
        return m.term(('opq',) + nm)

    def boundary_call(self, e, q, args, st, this, b):
        """A sub-structure parser (or a modelled helper)."""
        m = self.m
        vs = [self.arg(a, st) for a in args]
        site = (self.ctxid(self.ctx), id(e))
        h = b.get('model')
        if h is not None:
            return h(self, e, q, vs, st, this, site)
        root = ('O',) + site
        loc = (root,)
        self.clear_tree(loc, st)
        rec = b.get('rec')
        if rec:
            self.ptee[loc] = rec
        # value arguments that matter (bit buffers are implicit)
        av = []
        fn = None
        for c in self.P.byq.get(q, ()):
            if len(c['ps']) == len(args):
                fn = c
        ps = fn['ps'] if fn else [(None, None, a[2]) for a in args]
        for (pn, pi, pt), v in zip(ps, vs):
            if 'BitBuffer' in pt:
                continue
            av.append((pt, self.deloc(v, pt, st)))
        lens = []
        for pt, v in av:
            ln = None
            if unref(pt)[:4] == 'P<V<' or unref(pt)[:10] == 'P<const V<' or \
                    unref(pt)[:2] == 'V<':
                try:
                    ln = self.length(m.bind(v, lambda x: m.term(
                        ('loc', x[1]) if x[0] in ('ptr', 'obj') else x)), st)
                except Undecided:
                    pass
            lens.append(ln)
        okg = m.T
        if self.o.may_fail and b.get('nullable', True):
            a = m.atom(('ok', 'sub', site), 0, 1)
            okg = m.NOT(m.eq0(a))
        name = self.resolve(loc)
        if okg != m.T:
            self.poison(st, okg, ('sub', q, e[1]))
        self.ev('sub', st, e[1], site=site, q=q, rec=rec, args=av, loc=loc,
                ok=okg, name=name, lens=lens,
                stream=any('BitBuffer' in pt for _, _, pt in ps),
                env=dict(st.env) if self.o.keep_env else None)
        if self.recording:
            self.readorder.append(('sub', site))
        v = m.term(('ptr', loc))
        if okg != m.T:
            v = m.ite(okg, v, m.term(('null',)))
        if b.get('ret') == 'bool':
            return self.guard2val(okg)
        return v

    def rv_mcall(self, e, st):
        m = self.m
        mangled, q, obj, arrow, args, virt = e[3], e[4], e[5], e[6], e[7], e[8]
        cls = q.rsplit('::', 1)[0]
        meth = q.rsplit('::', 1)[1]
        if cls == 'h265nal::BitBuffer':
            return self.bitbuffer(e, meth, obj, arrow, args, st)
        ot = unref(obj[2])
        if arrow and ot.startswith('P<'):
            ot = targ(ot)
        b = self.o.boundary.get(q)
        if b is None and self.P.fns.get(mangled) is None and not virt:
            import models
            r = models.method(self, e, ot, meth, obj, arrow, args, st)
            if r is not None:
                return r
        if arrow:
            l = self.deref(self.rv(obj, st), st, e[1], obj)
        else:
            l = self.lvobj(obj, st)
        if meth == 'fdump' and self.o.dump_boundary:
            vs = [self.arg(a, st) for a in args]
            self.ev('dump', st, e[1], q=q, obj=l, args=vs, what=self.src(obj),
                    ctx=self.ctx, call=e, m=mangled,
                    objs=[self.scalars(v, a[2], st) for v, a in zip(vs, args)])
            return m.term(('opq', 'void'))
        if virt:
            return self.virtual_call(e, mangled, q, l, args, st)
        if not m.is_term(l):
            outs = [x for x in m.terminals(l) if x[0] == 'loc']
            if len(outs) == 1:
                l = m.term(outs[0])
            elif not outs:
                st.g = m.F
                return m.term(('bad',))
            else:
                return self.split_call(e, l, outs, mangled, q, args, st)
        if m.val(l)[0] != 'loc':
            raise Undecided('call on %s' % (m.val(l),))
        return self.do_call(e, mangled, q, args, st, m.val(l)[1])

    def split_call(self, e, l, outs, mangled, q, args, st):
        m = self.m
        res = []
        for x in outs:
            g = m.where(l, lambda y: y == x)
            s = st.copy()
            s.g = m.AND(st.g, g)
            if s.g == m.F:
                continue
            v = self.do_call(e, mangled, q, args, s, x[1])
            res.append((g, v, s))
        g, v, s = res[-1]
        env, tot = s.env, s.g
        for g2, v2, s2 in reversed(res[:-1]):
            v = m.ite(g2, v2, v)
            env = self.merge_env(g2, s2.env, env, st)
            tot = m.OR(tot, s2.g)
        st.env, st.g = env, tot
        return v

    def virtual_call(self, e, mangled, q, l, args, st):
        m = self.m
        res = []
        targets = [x for x in m.terminals(l) if x[0] == 'loc']
        for x in targets:
            g = m.where(l, lambda y: y == x)
            s = st.copy()
            s.g = m.AND(st.g, g)
            if s.g == m.F:
                continue
            dyn = s.env.get(x[1] + ('#dyn',))
            if dyn is None:
                vs = [self.arg(a, s) for a in args]
                self.ev('virtualcall', s, e[1], q=q, obj=x[1], args=vs)
                r = trange(e[2])
                if r:
                    v = m.term(m.atom(('vcall', q, self.opq_ord('v', e)), *r))
                elif is_ptr(e[2]):
                    loc = (('S', ('vcall', q, self.opq_ord('v', e))),)
                    v = m.term(('ptr', loc))
                else:
                    v = m.term(('opq', 'vcall', q))
            else:
                v = None
                for t in m.terminals(dyn):
                    g1 = m.where(dyn, lambda y: y == t)
                    s1 = s.copy()
                    s1.g = m.AND(s.g, g1)
                    if s1.g == m.F:
                        continue
                    fm = self.find_override(t[1], mangled)
                    fn = self.P.fns.get(fm)
                    if fn is None:
                        raise Undecided('no body for virtual ' + q)
                    vs = [self.arg(a, s1) for a in args]
                    v1 = self.call_fn(fn, vs, s1, x[1], e)
                    if v is None:
                        v, env, tot = v1, s1.env, s1.g
                    else:
                        v = m.ite(g1, v1, v)
                        env = self.merge_env(g1, s1.env, env, s)
                        tot = m.OR(tot, s1.g)
                s.env, s.g = env, tot
            res.append((g, v, s))
        if not res:
            st.g = m.F
            return m.term(('bad',))
        g, v, s = res[-1]
        env, tot = s.env, s.g
        for g2, v2, s2 in reversed(res[:-1]):
            v = m.ite(g2, v2, v)
            env = self.merge_env(g2, s2.env, env, st)
            tot = m.OR(tot, s2.g)
        st.env, st.g = env, tot
        return v

    def find_override(self, rec, mangled):
        seen = rec
        while rec:
            r = self.P.records.get(rec)
            if r is None:
                return mangled
            for mm in r['methods']:
                if mangled in mm['over'] or mm['m'] == mangled:
                    return mm['m']
            rec = r['bases'][0][2:] if r['bases'] else None
        return mangled

    def rv_opcall(self, e, st):
        return self.opcall(e, st, want='rv')

    def opcall(self, e, st, want):
        m = self.m
        op, mangled, q, args, t0 = e[3], e[4], e[5], e[6], e[7]
        t0 = unref(t0)
        if op == '()' :
            c = self.lvobj(args[0], st)
            v = None
            if m.is_term(c) and m.val(c)[0] == 'loc':
                v = st.env.get(m.val(c)[1])
            if v is None:
                v = self.rv(args[0], st)
            if m.is_term(v) and m.val(v)[0] == 'lam':
                return self.call_lambda(m.val(v), args[1:], st, e)
            raise Undecided('call operator')
        fn = self.P.fns.get(mangled)
        if fn is not None:
            this = None
            vs = args
            if 'cls' in fn:
                l = self.lvobj(args[0], st)
                if not m.is_term(l):
                    raise Undecided('operator on several objects')
                this = m.val(l)[1]
                vs = args[1:]
            return self.call_fn(fn, [self.arg(a, st) for a in vs], st, this, e)
        import models
        return models.operator(self, e, op, t0, args, st, want)

    # ---------------------------------------------------------------- bit buffer
    def bitbuffer(self, e, meth, obj, arrow, args, st):
        m = self.m
        if arrow:
            self.rv(obj, st)
        site = (self.ctxid(self.ctx), id(e))
        line = e[1]
        if meth in READS:
            desc = READS[meth]
            width = None
            if desc == 'u':
                width = self.rv(args[0], st)
                dst = args[1]
            elif desc in ('u8', 'u16', 'u32'):
                width = self.num(int(desc[1:]))
                desc = 'u'
                dst = args[0]
            elif desc == 'ns':
                width = self.rv(args[0], st)
                dst = args[1]
            elif desc == 'bytes':
                width = self.rv(args[0], st)
                dst = args[1]
            else:
                dst = args[0]
            dlv = self.lv(dst, st) if desc != 'bytes' else self.rv(dst, st)
            dt = unref(dst[2])
            return self.do_read(e, st, site, desc, width, dlv, dt, line)
        vs = [self.arg(a, st) for a in args]
        if meth in ('RemainingBitCount',):
            o = self.opq_ord(meth, e)
            self.ev('bb', st, line, meth=meth, args=vs)
            return m.term(m.atom(('bb', meth, o, self.iotas()), 0, 2 ** 40))
        if meth == 'GetCurrentOffset':
            o = self.opq_ord(meth, e)
            self.ev('bb', st, line, meth=meth, args=vs)
            for i, v in enumerate(vs):
                l = self.deref(v, st, line, args[i])
                hi = 2 ** 40 if i == 0 else 7
                self.store(l, m.term(m.atom(('bb', meth, o, i, self.iotas()), 0, hi)), st, 'u64')
            return m.term(('opq', 'void'))
        self.ev('bb', st, line, meth=meth, args=[self.deloc(v, 'Z', st) for v in vs])
        if meth in ('PeekBits',):
            l = self.lv(args[1], st)
            w = self.rv(args[0], st)
            lo, hi = self.vrange(w, st.g)
            mx = 2 ** min(64, int(hi) if hi != INF else 64) - 1
            o = self.opq_ord(meth, e)
            okg = m.NOT(m.eq0(m.atom(('bbok', meth, o, self.iotas()), 0, 1)))
            self.store(l, m.term(m.atom(('bb', meth, o, self.iotas()), 0, mx)), st, 'u64')
            return self.guard2val(okg)
        if meth in ('ConsumeBits', 'ConsumeBytes', 'Seek'):
            if not self.o.may_fail:
                return self.num(1)
            o = self.opq_ord(meth, e)
            return self.guard2val(m.NOT(m.eq0(m.atom(('bbok', meth, o, self.iotas()), 0, 1))))
        raise Undecided('BitBuffer::' + meth)

    def poison(self, st, okg, label):
        """From here on, a state in which the operation failed is marked."""
        m = self.m
        old = st.env.get(FAILED)
        if old is None:
            old = m.term(('none',))
        f = self.fr()
        st.env[FAILED] = m.ite(okg, old, m.bind(old, lambda t: m.term(
            t if t[0] != 'none' else ('failed',) + label + (f.fn.get('file'), f.fn['q']))))

    def iotas(self):
        return len(self.loops)

    def do_read(self, e, st, site, desc, width, dlv, dt, line):
        m = self.m
        n = self.o.naming
        if width is not None:
            wlo, whi = self.vrange(width, st.g)
        if desc == 'u':
            w = 64 if whi == INF else max(0, min(64, int(whi)))
            tr = trange(dt)
            rng = (0, (1 << w) - 1)
        elif desc == 'ue':
            rng = (0, 2 ** 32 - 2)
        elif desc == 'se':
            rng = (-(2 ** 31 - 1), 2 ** 31 - 1)
        else:
            rng = (0, MAXU32)
        if n is None:
            name = ('rd', site)
            nm = name
        else:
            d = n.read.get(site)
            if site in n.alias:
                nm = n.alias[site]
            elif d is None:
                nm = ('f', '$%d' % n.anon.get(site, 0))
            else:
                nm = self.name(self.thaw(d[0]))
                if d[1]:
                    nm = nm + ('#p%d' % d[1],)
            p = self.pattern(nm[1:])
            old = self.obs_ranges.get(p)
            self.obs_ranges[p] = rng if old is None else (
                min(old[0], rng[0]), max(old[1], rng[1]))
            rr = self.o.ranges.get(p)
            if rr:
                rng = (min(rng[0], rr[0]), max(rng[1], rr[1]))
            name = nm
        okg = m.T
        if self.o.may_fail:
            a = m.atom(('ok', 'read', site), 0, 1)
            okg = m.NOT(m.eq0(a))
            self.poison(st, okg, ('read', name, line))
        self.ev('read', st, line, site=site, desc=desc, width=width, name=nm,
                dst=dlv, ok=okg, dt=dt)
        if self.recording and site not in self.sub_ok:
            self.sub_ok[site] = True
            self.readorder.append(('read', site))
        if desc == 'bytes':
            return self.guard2val(okg)
        v = m.term(m.atom(name, rng[0], rng[1]))
        if okg != m.T:
            for x in m.terminals(dlv):
                if x[0] == 'loc':
                    old = self.load(x[1], dt, st)
                    v = m.ite(okg, v, old)
                    break
        self.store(dlv, v, st, dt)
        return self.guard2val(okg)

    # ---------------------------------------------------------------- statements
    def exec(self, s, st):
        if s is None or st.g == self.m.F:
            return
        getattr(self, 'st_' + s[0])(s, st)

    def st_blk(self, s, st):
        for x in s[2:]:
            if st.g == self.m.F:
                return
            self.exec(x, st)

    def st_expr(self, s, st):
        e = s[2]
        if e[0] in ('ref', 'mem', 'gref', 'idx'):
            return
        if e[0] == 'cast' and e[3] == 'void' and e[4][0] in ('ref', 'mem', 'gref'):
            return
        if e[0] == 'opcall' and e[3] in ('=', '<<', '+='):
            self.opcall(e, st, want='lv')
            return
        self.rv(e, st)

    def st_unkst(self, s, st):
        raise Undecided('unsupported statement %s at line %s' % (s[2], s[1]))

    def st_decl(self, s, st):
        for d in s[2:]:
            vid, name, t, init, static, cexpr = d[:6]
            loc = (('L', self.fr().ctx, vid),)
            if static:
                g = (('G', self.fr().fn['q'] + '::' + name),)
                self.statics[name] = g
                if not (t.startswith('const ') or cexpr):
                    self.ev('staticlocal', st, s[1], name=name, ty=t)
                loc = g
                self.fr().vars[vid] = loc
            self.vartype[loc] = t
            if strip_cv(t).startswith('R<'):
                l = self.lv(init, st)
                st.env[loc] = l
                continue
            if t == 'lambda':
                v = self.rv(init, st)
                st.env[loc] = v
                continue
            self.clear_tree(loc, st)
            if init is None:
                self.init_obj(loc, t, st)
            else:
                self.init_from(loc, t, init, st)

    def st_if(self, s, st):
        m = self.m
        c = self.cond(s[2], st)
        gt = m.AND(st.g, c)
        ge = m.ANDN(st.g, c)
        if gt == m.F:
            st.g = ge
            if s[4] is not None:
                self.exec(s[4], st)
            return
        if ge == m.F:
            st.g = gt
            self.exec(s[3], st)
            return
        sa = st.copy()
        sa.g = gt
        self.exec(s[3], sa)
        sb = State(ge, st.env)
        if s[4] is not None:
            sb = State(ge, dict(st.env))
            self.exec(s[4], sb)
        self.join(c, sa, sb, st)

    def join(self, c, sa, sb, st):
        m = self.m
        if sa.g == m.F:
            st.g, st.env = sb.g, sb.env
        elif sb.g == m.F:
            st.g, st.env = sa.g, sa.env
        else:
            st.env = self.merge_env(c, sa.env, sb.env, st)
            st.g = m.OR(sa.g, sb.g)

    def merge_env(self, c, ea, eb, st):
        m = self.m
        if ea is eb:
            return ea
        out = dict(eb)
        for k, v in ea.items():
            w = eb.get(k)
            if w == v:
                continue
            last = k[-1]
            if last == '#alias' or last == '#own' or isinstance(v, tuple):
                out[k] = v
                continue
            if w is None:
                w = self.missing(k, eb, st)
                if w is None:
                    out[k] = v
                    continue
            out[k] = m.ite(c, v, w)
        for k, w in eb.items():
            if k not in ea:
                if k[-1] in ('#alias', '#own') or isinstance(w, tuple):
                    continue
                v = self.missing(k, ea, st)
                if v is not None:
                    out[k] = m.ite(c, v, w)
        return out

    def missing(self, k, env, st):
        """Value of location k in an environment that has no entry for it."""
        root = k[0]
        if root[0] == 'L' or root[0] == 'O':
            # not created on that path (dead) unless symbolic sub-object
            if root[0] == 'O' and (root,) in self.ptee and (root,) + ('#own',) not in env:
                pass
            else:
                for i in range(len(k) - 1, 0, -1):
                    a = env.get(k[:i] + ('#alias',))
                    if a is not None:
                        return self.load(a + k[i:], self.ltype.get(k, 'Z'),
                                         State(st.g, env))
                # an element cell of an owned vector
                for i in range(1, len(k)):
                    if isinstance(k[i], tuple) and k[i][0] == '[':
                        if k[:i] + ('#own',) in env or k[:i] + ('#len',) in env:
                            t = self.ltype.get(k)
                            if t is None:
                                return None
                            return self.load(k, t, State(st.g, env))
                return None
        t = self.ltype.get(k)
        if k[-1] == '#len':
            t = 'u64'
        if k[-1] == '#str':
            return self.m.term(('strin', self.name(k[:-1])))
        if t is None:
            return None
        return self.load(k, t, State(st.g, env))

    def st_ret(self, s, st):
        m = self.m
        f = self.fr()
        v = m.term(('opq', 'void'))
        if s[2] is not None:
            if strip_cv(f.fn['ret']).startswith('R<'):
                v = self.lv(s[2], st)
            else:
                v = self.rv(s[2], st)
                v = self.deloc(v, s[2][2], st)
        if not self.frames[1:] :
            self.ev('return', st, s[1], val=v)
        f.rets.append((st.g, v, st.env))
        if self.recording and len(self.frames) == 1:
            for t in m.terminals(v):
                if isinstance(t, tuple) and t[0] == 'ptr' and t[1][0][0] == 'O':
                    self.objflow.setdefault(t[1][0], []).append((('R',),))
                if isinstance(t, tuple) and t[0] == 'obj' and t[1][0][0] in ('O', 'L'):
                    self.copyflow.setdefault(t[1], []).append((('R',),))
        st.env = dict(st.env)
        st.g = m.F

    def st_break(self, s, st):
        self.fr().loopstack[-1][0].append((st.g, dict(st.env)))
        st.g = self.m.F

    def st_continue(self, s, st):
        for b, c in reversed(self.fr().loopstack):
            if c is not None:
                c.append((st.g, dict(st.env)))
                break
        st.g = self.m.F

    def merge_states(self, states, st):
        """Join of (guard, env) pairs with disjoint guards."""
        m = self.m
        states = [x for x in states if x[0] != m.F]
        if not states:
            st.g = m.F
            return
        g, env = states[-1]
        for g2, e2 in reversed(states[:-1]):
            env = self.merge_env(g2, e2, env, st)
            g = m.OR(g, g2)
        st.g, st.env = g, env

    def st_switch(self, s, st):
        m = self.m
        v = self.rv(s[2], st)
        f = self.fr()
        secs = s[3]
        g0 = st.g
        base = st.env
        any_g = m.F
        guards = []
        for labels, body in secs:
            g = m.F
            for l in labels:
                if l == 'default':
                    continue
                lo, hi = l

                def t(x, lo=lo, hi=hi):
                    if isinstance(x, tuple) and x[0] == 'L':
                        return m.AND(m.le(('L', x[1] - hi, x[2])),
                                     m.le(m.lin_scale(('L', x[1] - lo, x[2]), -1)))
                    return m.NOT(m.eq0(m.atom(('swl', x, lo), 0, 1)))
                g = m.OR(g, m.bind(v, t))
            any_g = m.OR(any_g, g)
            guards.append(g)
        for i, (labels, body) in enumerate(secs):
            if 'default' in labels:
                guards[i] = m.OR(guards[i], m.NOT(any_g))
                hasdef = True
        covered = m.F
        for g in guards:
            covered = m.OR(covered, g)
        breaks = []
        f.loopstack.append((breaks, None))
        cur = State(m.F, base)
        for (labels, body), g in zip(secs, guards):
            ent = State(m.AND(g0, g), dict(base))
            if cur.g == m.F:
                cur = ent
            elif ent.g != m.F:
                ns = State(m.OR(cur.g, ent.g), self.merge_env(g, ent.env, cur.env, st))
                cur = ns
            for x in body:
                if cur.g == m.F:
                    break
                self.exec(x, cur)
        f.loopstack.pop()
        outs = [(cur.g, cur.env)] + breaks
        rest = m.ANDN(g0, covered)
        if rest != m.F:
            outs.append((rest, base))
        self.merge_states(outs, st)

    # ---------------------------------------------------------------- loops
    UNROLL = 9

    def st_for(self, s, st):
        if s[2] is not None:
            self.exec(s[2], st)
        self.loop(st, s, cond=s[3], body=[s[5]], inc=s[4], pre_test=True)

    def st_do(self, s, st):
        # do B while (C) is while (C) B when C holds at first
        pre = st.g == self.m.F
        if not pre:
            r = self.quiet()
            t = st.copy()
            try:
                c = self._cond(s[3], t)
                pre = self.m.ANDN(st.g, c) == self.m.F and t.env == st.env and \
                    t.g == st.g
            finally:
                self.recording = r
        self.loop(st, s, cond=s[3], body=[s[2]], inc=None, pre_test=pre)

    def st_forrange(self, s, st):
        m = self.m
        vid, name, t = s[2]
        rng = self.lvobj(s[3], st)
        if not m.is_term(rng) or m.val(rng)[0] != 'loc':
            raise Undecided('range-for over several objects %s' % (m.show(rng) if hasattr(m,'show') else str(sorted(map(str, m.terminals(rng)))[:4])))
        loc = m.val(rng)[1]
        rt = unref(s[3][2])
        if rt.startswith('M<'):
            raise Undecided('range-for over map')
        if rt.startswith('A<'):
            n = m.const(int(targ(rt, 0)))
        else:
            n = self.load(loc + ('#len',), 'u64', st)
        iloc = (('L', self.fr().ctx, (vid, 'idx')),)
        self.ranged[id(s)] = None if rt.startswith('A<') else loc + ('#len',)
        st.env[iloc] = m.const(0)
        self.vartype[(('L', self.fr().ctx, vid),)] = t

        def condf(s1):
            return self.compare('<', s1.env[iloc], n, s1)

        et = targ(rt, 1) if rt.startswith('A<') else targ(rt, 0)

        def bodyf(s1):
            l = self.elem(m.term(('loc', loc)), s1.env[iloc], s1)
            vl = (('L', self.fr().ctx, vid),)
            if strip_cv(t).startswith('R<'):
                s1.env[vl] = l
            else:
                self.clear_tree(vl, s1)
                self.assign(vl, self.loadlv(l, et, s1), s1, unref(t))
            self.exec(s[4], s1)

        def incf(s1):
            s1.env[iloc] = m.bind(s1.env[iloc], lambda x: m.term(('L', x[1] + 1, x[2])))
        self.loop(st, s, cond=condf, body=[bodyf], inc=incf, pre_test=True)

    def _cond(self, c, st):
        if c is None:
            return self.m.T
        if callable(c):
            return c(st)
        return self.cond(c, st)

    def _run(self, x, st):
        if callable(x):
            x(st)
        else:
            self.exec(x, st)

    def _inc(self, inc, st):
        if inc is None or st.g == self.m.F:
            return
        if callable(inc):
            inc(st)
        else:
            self.st_expr(['expr', 0, inc], st)

    def body_once(self, st, body, inc):
        """Run body+inc from st.  Returns the list of break states."""
        f = self.fr()
        breaks, conts = [], []
        f.loopstack.append((breaks, conts))
        for x in body:
            self._run(x, st)
        f.loopstack.pop()
        if conts:
            self.merge_states([(st.g, st.env)] + conts, st)
        self._inc(inc, st)
        return breaks

    def quiet(self):
        r = self.recording
        self.recording = False
        return r

    def loop(self, st, node, cond, body, inc, pre_test):
        m = self.m
        f = self.fr()
        if st.g == m.F:
            return
        # 1. constant trip count: unroll
        plan = self.try_unroll(st, node, cond, body, inc, pre_test)
        if plan is not None:
            brk = []
            for i in range(plan):
                if pre_test or i > 0:
                    self._cond(cond, st)
                old = self.ctx
                self.ctx = self.ctx + ('u', id(node), i)
                brk += self.body_once(st, body, inc)
                self.ctx = old
                if st.g == m.F:
                    break
            if st.g != m.F and cond is not None and not (not pre_test and plan == 0):
                self._cond(cond, st)
            if brk:
                self.merge_states([(st.g, st.env)] + brk, st)
            return
        self.symloop(st, node, cond, body, inc, pre_test)

    def try_unroll(self, st, node, cond, body, inc, pre_test):
        m = self.m
        if cond is None:
            return None
        # quick test: the first condition must be constant
        if pre_test:
            r = self.quiet()
            s = st.copy()
            try:
                c = m.restrict(self._cond(cond, s), s.g)
            finally:
                self.recording = r
            if c == m.F or m.AND(c, st.g) == m.F:
                return 0
            if m.ANDN(st.g, c) != m.F:
                return None
        r = self.quiet()
        s = st.copy()
        nret = len(self.fr().rets)
        try:
            for i in range(self.UNROLL + 1):
                if pre_test or i > 0:
                    c = self._cond(cond, s)
                    if m.AND(c, s.g) == m.F:
                        return i
                    if m.ANDN(s.g, c) != m.F:
                        return None
                if i == self.UNROLL:
                    return None
                self.loops = self.loops + (('u',),)
                try:
                    self.body_once(s, body, inc)
                finally:
                    self.loops = self.loops[:-1]
                if s.g == m.F:
                    return i + 1
        except Undecided:
            raise
        finally:
            self.recording = r
            del self.fr().rets[nret:]
        return None

    def symloop(self, st, node, cond, body, inc, pre_test):
        m = self.m
        f = self.fr()
        depth = sum(1 for l in self.loops if l[0] != 'u') + 1
        head = dict(st.env)
        g0 = st.g
        iota = ('L', 0, ((m.atoms.get(('i', depth), 0, MAXU32), 1),))
        iname = ('i', depth)
        mod = {}          # loc -> phi atom lin
        induct = {}       # loc -> step
        dropvec = set()
        rec0 = self.quiet()
        nret = len(f.rets)
        saved_loops = self.loops
        lp = ('loop', depth, id(node), self.ctxid(self.ctx))
        try:
            for rnd in range(8):
                s = State(g0, dict(head))
                self._apply_head(s, head, mod, induct, iota, dropvec)
                self.loops = saved_loops + (lp,)
                if pre_test:
                    c = self._cond(cond, s)
                    s.g = m.AND(s.g, c)
                s0env = dict(s.env)
                brk = self.body_once(s, body, inc)
                if not pre_test:
                    c = self._cond(cond, s)
                    s.g = m.AND(s.g, c)
                self.loops = saved_loops
                del f.rets[nret:]
                changed = False
                if s.g == m.F:
                    break
                for k, v in s.env.items():
                    if isinstance(v, tuple) or k[-1] in ('#own', '#alias', '#dyn') or \
                            k == FAILED:
                        continue
                    cellidx = None
                    for i in range(1, len(k)):
                        if isinstance(k[i], tuple) and k[i][0] == '[' and \
                                (k not in head or self.variant_index(k[i][1], depth)):
                            cellidx = i
                            if self.variant_index(k[i][1], depth):
                                break
                    if k not in head and cellidx is None:
                        # created inside: visible only for outer objects
                        if k[0][0] in ('L', 'O'):
                            root = (k[0],)
                            if not any(hk[0] == k[0] for hk in head):
                                continue
                            t = self.ltype.get(k)
                            if t is None and k[-1] != '#len':
                                continue
                        elif k[0][0] == 'S' or k[0][0] == 'R':
                            pass
                        else:
                            continue
                    if cellidx is not None and (k not in head):
                        vec = k[:cellidx]
                        if vec not in dropvec and any(
                                hk[0] == k[0] for hk in head):
                            dropvec.add(vec)
                        continue
                    cur = s0env.get(k)
                    if cur is None:
                        cur = self.missing(k, s0env, st)
                    if cellidx is not None:
                        if v != cur:
                            if k[:cellidx] not in dropvec:
                                dropvec.add(k[:cellidx])
                                changed = True
                        continue
                    if k in mod:
                        phi = mod[k]
                        if induct.get(k) is not None:
                            # verify the step from the induction value
                            base = s0env[k]
                            st_ok = (v == m.bind(base, lambda x: m.term(
                                ('L', x[1] + induct[k], x[2]))
                                if isinstance(x, tuple) and x[0] == 'L' else m.term(x)))
                            if not st_ok:
                                rv_, rb_ = m.restrict(v, s.g), m.restrict(m.bind(
                                    base, lambda x: m.term(('L', x[1] + induct[k], x[2]))), s.g)
                                st_ok = m.AND(s.g, self.differs(rv_, rb_)) == m.F
                            if not st_ok:
                                induct[k] = None
                                changed = True
                        elif k not in induct:
                            d = None
                            v2 = m.restrict(v, s.g)
                            if m.is_term(v2) and isinstance(m.val(v2), tuple) and \
                                    m.val(v2)[0] == 'L':
                                dd = m.lin_add(m.val(v2), phi, -1)
                                if not dd[2]:
                                    d = dd[1]
                                else:
                                    d = self.wrapped_step(m.val(v2), phi)
                            if d == 0:
                                d = None
                                induct[k] = None
                            else:
                                induct[k] = d
                            changed = True
                    elif v != cur and m.AND(s.g, self.differs(v, cur)) != m.F:
                        t = self.ltype.get(k, 'Z')
                        if k[-1] == '#len':
                            t = 'u64'
                        if is_ptr(t) or not (int_type(t)):
                            mod[k] = ('opq', 'phi', depth, self.phiname(k))
                            induct[k] = None
                        else:
                            r = trange(t)
                            if k[-1] == '#len':
                                r = (0, MAXU32)
                            # a counter whose head value is bounded below and
                            # only grows keeps that bound (set once inducted)
                            mod[k] = m.atom(('phi', depth, self.phiname(k)), *r)
                        changed = True
                if not changed:
                    break
            else:
                raise Undecided('loop state does not stabilise (line %s)' % node[1])
        finally:
            self.recording = rec0
            self.loops = saved_loops
            del f.rets[nret:]
        # bounded counters: every iteration adds between 0 and c
        for k, phi in list(mod.items()):
            if induct.get(k) is not None or phi[0] != 'L' or s.g == m.F:
                continue
            b = self.counter_bounds(k, phi, s, head, st, cond, pre_test, iname,
                                    mod, induct, iota, dropvec)
            if b is not None:
                mod[k] = m.atom(('cphi', depth, self.phiname(k)) + b, *b)
        self.canon_phis(mod, induct, s, head, depth, st)
        # final pass ------------------------------------------------------
        s = State(g0, dict(head))
        self._apply_head(s, head, mod, induct, iota, dropvec)
        self.loopcount += 1
        trip = None
        info = {'id': lp, 'depth': depth, 'node': node, 'iota': iota}
        if pre_test:
            r = self.quiet()
            s1 = s.copy()
            c = self._cond(cond, s1)
            self.recording = r
            trip = self.trip_count(c, iname, s1)
        info['trip'] = trip
        lkey = ('loop', depth, trip, info_key(info))
        entry = ('loop', depth, trip, lp)
        self.loops = saved_loops + (entry,)
        rets0 = len(f.rets)
        try:
            if pre_test:
                c = self._cond(cond, s)
                info['cond'] = c
                exit_g = m.ANDN(s.g, c)
                s.g = m.AND(s.g, c)
            self.ev('loop', s, node[1], trip=trip, cond=c if pre_test else None,
                    mod={k: (v, induct.get(k)) for k, v in mod.items()},
                    pre_test=pre_test, node=id(node), entry_g=g0,
                    inits={k: head.get(k) for k in mod},
                    ranged=id(node) in self.ranged and self.ranged[id(node)] not in mod)
            body_g = s.g
            brk = self.body_once(s, body, inc)
            if not pre_test:
                c = self._cond(cond, s)
            end_g = s.g
            self.ev('loopend', State(body_g, s.env), node[1], node=id(node),
                    end_g=end_g, failed=s.env.get(FAILED) if self.o.may_fail else None,
                    ends={k: s.env.get(k) for k in mod}, iname=iname)
        finally:
            self.loops = saved_loops
        # exit --------------------------------------------------------------
        retg = m.F
        for r in f.rets[rets0:]:
            retg = m.OR(retg, r[0])
        for b in brk:
            pass
        T = trip
        if brk or T is None:
            hi = MAXU32
            if T is not None:
                hi = self.vrange(T, g0)[1]
            T = m.term(m.atom(('T', depth, self.loopname(node, brk, trip)), 0,
                              hi))
        out = dict(head)
        for k in list(out):
            for vec in dropvec:
                n = len(vec)
                if len(k) > n and k[:n] == vec and (k[n] == '#each' or (
                        isinstance(k[n], tuple) and k[n][0] == '[')):
                    out.pop(k, None)
                    break
        never = self.truth(m.bind(T, lambda x: m.term(x))) if T is not None else m.T
        if self.o.may_fail and FAILED in head:
            v = out[FAILED]
            live = [b for b in brk if b[0] != m.F]
            which = m.atom(('brk', depth, self.loopname(node, live, trip)), 0, len(live)) \
                if live else None
            for i, (bg, benv) in enumerate([(end_g, s.env)] + live):
                fv = benv.get(FAILED)
                if bg == m.F or fv is None:
                    continue
                # nothing fails in a loop that is not entered; what fails on a
                # way out by break fails when that way is taken
                here = never
                if i:
                    here = m.AND(here, self.is_const(which, i))
                for t in m.terminals(m.restrict(fv, bg)):
                    if t[0] == 'failed' and m.feasible(m.AND(
                            bg, m.where(fv, lambda y, t=t: y == t))) is not None:
                        a = m.atom(('loopfail', depth, t), 0, 1)
                        v = m.ite(m.ANDN(here, m.eq0(a)), m.term(t), v)
            out[FAILED] = v
        for k, phi in mod.items():
            h = head.get(k)
            if h is None:
                h = self.missing(k, head, st)
            step = induct.get(k)
            if step is not None and h is not None:
                v = m.bind2(h, T, lambda x, y: m.term(m.lin_add(x, y, step))
                            if isinstance(x, tuple) and x[0] == 'L' and y[0] == 'L'
                            else m.term(('opq', 'phx', depth)))
            else:
                t = self.ltype.get(k, 'Z')
                if phi[0] == 'opq':
                    # pointer: the value after the last iteration
                    x = s.env.get(k)
                    pv = self.exit_ptr(x, iota, iname, T, k, depth)
                    v = m.ite(never, pv, h) if h is not None else pv
                else:
                    r = trange(t)
                    if k[-1] == '#len':
                        r = (0, MAXU32)
                    pr = self.o.ranges.get(self.pattern(self.resolve(k)))
                    x = s.env.get(k)
                    nm = self.phxname(k, phi, T, brk, x)
                    # last written value does not depend on the iteration
                    cand = m.restrict(x, end_g) if x is not None and end_g != m.F else None
                    if cand is not None and not brk and not (
                            self.loop_variant(cand, iname, mod)) and \
                            not self.in_loop_names(cand):
                        v = cand
                    else:
                        pn = m.atoms.names[phi[2][0][0]]
                        if pn[0] == 'cphi':
                            r = (max(r[0], pn[3]), min(r[1], pn[4]))
                        v = m.term(m.atom(nm, *r))
                    if h is not None:
                        v = m.ite(never, v, h)
            out[k] = v
        self.broken_out(brk, out, head, s0env, mod, iname, never, depth, node, trip, st)
        st.env = out
        if retg != m.F:
            f.looprets = True
            # no iteration returned: an opaque fact named by the loop's exits
            rr = retg
            okg = m.NOT(m.eq0(m.atom(('nofail', depth, self.retname(retg, g0)), 0, 1)))
            # if T == 0 no return happens
            st.g = m.AND(g0, m.OR(okg, m.NOT(never)))
        else:
            st.g = g0
        if brk:
            pass
        if self.o.may_fail and False:
            pass

    def broken_out(self, brk, out, head, at, mod, iname, entered, depth, node, trip, st):
        """What only the ways out by break change."""
        m = self.m
        brk = [b for b in brk if b[0] != m.F]
        if not brk:
            return
        how = ('brk', depth, self.loopname(node, brk, trip))
        which = m.atom(how, 0, len(brk))
        keys = {k for _, env in brk for k in env}
        for k in sorted(keys, key=repr):
            if k in mod or k[-1] in ('#own', '#alias', '#dyn') or k == FAILED:
                continue
            h = head.get(k)
            if h is None:
                if k[0][0] not in ('S', 'R') and not any(hk[0] == k[0] for hk in head):
                    continue
                if any(isinstance(x, tuple) and x[0] == '[' for x in k[1:]):
                    continue
                if self.ltype.get(k) is None and k[-1] != '#len':
                    continue
                h = self.missing(k, head, st)
            if h is None or isinstance(h, tuple):
                continue
            r = out.get(k, h)
            hit = False
            for i, (bg, env) in enumerate(brk):
                v = env.get(k)
                if v is None or isinstance(v, tuple):
                    continue
                if v == h or m.AND(bg, self.differs(v, h)) == m.F:
                    continue
                v = m.restrict(v, bg)
                if self.loop_variant(v, iname, mod):
                    t = self.ltype.get(k, 'Z')
                    rng = (0, MAXU32) if k[-1] == '#len' else trange(t)
                    if rng is None or any(not (isinstance(x, tuple) and x[0] == 'L')
                                          for x in m.terminals(v)):
                        v = m.term(('opq', 'phx', depth, self.phiname(k)))
                    else:
                        v = m.term(m.atom(('phx', ('brk', self.phiname(k), how, i)), *rng))
                hit = True
                r = m.ite(self.is_const(which, i + 1), v, r)
            if hit:
                out[k] = m.ite(entered, r, out.get(k, h))

    def is_const(self, lin, c):
        m = self.m
        return m.eq0(('L', lin[1] - c, lin[2]))

    def phiname(self, k):
        return self.name(k)

    def localname(self, nm):
        return len(nm) > 1 and isinstance(nm[1], tuple) and nm[1] and nm[1][0] == 'L'

    def canon_phis(self, mod, induct, s, head, depth, st):
        """Names loop-carried locals after what they compute, not after the
        variable: two loops that compute the same sequence share the name."""
        m = self.m
        if s.g == m.F:
            return
        todo = {}
        for k, phi in mod.items():
            if induct.get(k) is not None or phi[0] != 'L':
                continue
            if not self.localname(self.phiname(k)):
                continue
            v = s.env.get(k)
            h = head.get(k)
            if h is None:
                h = self.missing(k, head, st)
            if v is None or h is None:
                continue
            todo[k] = (phi[2][0][0], m.restrict(v, s.g), m.restrict(h, st.g))
        if not todo:
            return
        keys = {k: ('K', self.ltype.get(k, 'Z'), ('N', h)) for k, (a, v, h) in todo.items()}
        for rnd in range(len(todo) + 1):
            sub = {a: m.atom(('ph', depth, keys[k]), *m.atoms.rng[a])
                   for k, (a, v, h) in todo.items()}
            memo = {}
            nk = {}
            for k, (a, v, h) in todo.items():
                nk[k] = ('K', self.ltype.get(k, 'Z'), ('N', h),
                         ('N', m.subst(v, sub.get, memo)))
            stable = rnd > 0 and len(set(nk.values())) == len(set(keys.values()))
            keys = nk
            if stable:
                break
        for k, (a, v, h) in todo.items():
            old = m.atoms.names[a]
            nm = (old[0], old[1], keys[k]) + tuple(old[3:])
            mod[k] = m.atom(nm, *m.atoms.rng[a])

    def phxname(self, k, phi, T, brk, x):
        m = self.m
        nm = self.phiname(k)
        if not self.localname(nm):
            return ('phx', nm)
        key = m.atoms.names[phi[2][0][0]]
        ends = tuple(sorted(('N', b[1][k]) for b in brk if k in b[1]))
        return ('phx', key, ('N', T), ('N', x if x is not None else m.F), ends)

    def counter_bounds(self, k, phi, s, head, st, cond, pre_test, iname, mod,
                       induct, iota, dropvec):
        m = self.m
        v = s.env.get(k)
        h = head.get(k)
        if h is None:
            h = self.missing(k, head, st)
        if v is None or h is None:
            return None
        c = 0
        for t in m.terminals(m.restrict(v, s.g)):
            if not (isinstance(t, tuple) and t[0] == 'L'):
                return None
            d = m.lin_add(t, phi, -1)
            if d[2] or d[1] < 0:
                return None
            c = max(c, d[1])
        lo, hi = self.vrange(h, s.g)
        if lo < 0 or hi == INF:
            return None
        mx = None
        if pre_test:
            r = self.quiet()
            s1 = State(s.g, dict(head))
            self._apply_head(s1, head, mod, induct, iota, dropvec)
            t = self.trip_count(self._cond(cond, s1), iname, s1)
            self.recording = r
            if t is not None:
                mx = self.vrange(t, st.g)[1]
        cap = trange(self.ltype.get(k, 'u64' if k[-1] == '#len' else 'Z'))
        if k[-1] == '#len':
            cap = (0, MAXU32)
        top = cap[1] if cap else INF
        if mx is not None:
            if hi + c * mx > top:
                mx = None
            else:
                top = hi + c * mx
        # every increment happens under a guard that bounds the counter
        lim = hi
        for t in m.terminals(m.restrict(v, s.g)):
            d = t[1] - phi[1]
            if d:
                g = m.AND(s.g, m.where(v, lambda y, t=t: y == t))
                lim = max(lim, self.vrange(m.term(phi), g)[1] + d)
        if lim < top:
            return (lo, lim)
        if mx is None and k[-1] != '#len':
            return None
        return (lo, top)

    def variant_index(self, lin, depth):
        for a, _ in lin[2]:
            n = self.m.atoms.names[a]
            if not (isinstance(n, tuple) and len(n) == 2 and n[0] == 'i' and n[1] < depth):
                return True
        return False

    def in_loop_names(self, v):
        """Values read inside the loop under an iteration index."""
        m = self.m
        for a in m.atoms_of(v):
            n = m.atoms.names[a]
            if isinstance(n, tuple) and n and n[0] == 'rd':
                return False
        return False

    def exit_ptr(self, x, iota, iname, T, k, depth):
        m = self.m
        if x is not None and not self.loop_variant(x, iname, {}):
            return x
        return m.term(('opq', 'phx', depth, self.phiname(k)))

    def loop_variant(self, v, iname, mod):
        m = self.m
        phis = set()
        for p in mod.values():
            if p[0] == 'L':
                phis.add(p[2][0][0])
        for a in m.atoms_of(v):
            if a in phis or self.mentions(m.atoms.names[a], iname):
                return True
        return False

    def mentions(self, nm, iname):
        if nm == iname:
            return True
        if isinstance(nm, tuple):
            if len(nm) == 3 and nm[0] == 'L' and isinstance(nm[2], tuple):
                return any(self.mentions(self.m.atoms.names[a], iname) for a, _ in nm[2])
            if len(nm) == 2 and nm[0] == 'val' and isinstance(nm[1], int):
                return any(self.mentions(self.m.atoms.names[a], iname)
                           for a in self.m.atoms_of(nm[1]))
            return any(self.mentions(x, iname) for x in nm)
        return False

    def retname(self, retg, g0):
        m = self.m
        return m.restrict(retg, g0)

    def loopname(self, node, brk, trip):
        m = self.m
        g = m.F
        for b in brk:
            g = m.OR(g, b[0])
        return (g, trip if trip is not None else -1)

    def differs(self, a, b):
        """Guard under which two values differ."""
        m = self.m
        if a == b:
            return m.F
        if a is None or b is None:
            return m.T
        return m.bind2(a, b, lambda x, y: m.F if x == y else m.T)

    def _apply_head(self, s, head, mod, induct, iota, dropvec):
        m = self.m
        for k in list(s.env):
            for vec in dropvec:
                n = len(vec)
                if len(k) > n and k[:n] == vec and (k[n] == '#each' or (
                        isinstance(k[n], tuple) and k[n][0] == '[')):
                    s.env.pop(k, None)
                    break
        for k, phi in mod.items():
            step = induct.get(k)
            if step is not None:
                h = head.get(k)
                if h is None:
                    h = self.missing(k, head, s)
                s.env[k] = m.bind(h, lambda x: m.term(m.lin_add(x, iota, step))
                                  if isinstance(x, tuple) and x[0] == 'L'
                                  else m.term(x))
            else:
                s.env[k] = m.term(phi)

    def wrapped_step(self, t, phi):
        """Step of a counter whose increment could not be shown not to wrap: taken
        as a hypothesis, which the next round verifies."""
        if t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1:
            nm = self.m.atoms.names[t[2][0][0]]
            if nm[0] == 'wrap' and isinstance(nm[3], tuple) and nm[3][0] == 'L':
                dd = self.m.lin_add(nm[3], phi, -1)
                if not dd[2] and abs(dd[1]) <= 16:
                    return dd[1]
        return None

    def trip_count(self, c, iname, st):
        """Smallest iteration index at which the condition is false."""
        m = self.m
        ia = m.atoms.ids[iname]
        c = m.restrict(c, st.g)

        def go(n):
            nd = m.nodes[n]
            if nd[0] == INF:
                if n == m.F:
                    return m.const(0)
                return None
            terms = m.keyterms[nd[0]]
            co = dict(terms).get(ia)
            if co is None:
                if any(self.mentions(m.atoms.names[a], iname) for a, _ in terms):
                    return None
                rs = [go(x) if x != m.T else None for x in nd[2]]
                if any(r is None for r in rs):
                    return None
                r = rs[-1]
                for i in range(len(nd[1]) - 1, -1, -1):
                    g = m.mk(nd[0], (nd[1][i],), (m.T, m.F))
                    r = m.ite(g, rs[i], r)
                return r
            if abs(co) != 1 or len(nd[2]) != 2:
                return None
            rest = ('L', 0, tuple((a, k) for a, k in terms if a != ia))
            b = nd[1][0]
            lo_kid, hi_kid = nd[2]
            if co == 1 and hi_kid == m.F:
                # i + rest <= b  ->  T = b - rest + 1
                t = m.lin_add(('L', b + 1, ()), rest, -1)
                inner = lo_kid
            elif co == -1 and lo_kid == m.F:
                # -i + rest >= b+1 -> i <= rest - b - 1 -> T = rest - b
                t = ('L', rest[1] - b, rest[2])
                inner = hi_kid
            else:
                return None
            lo, hi = m.range_under(t, st.g)
            tv = m.term(t)
            if lo < 0:
                pos = m.NOT(m.le(t))
                tv = m.ite(pos, m.term(t), m.const(0))
            if inner == m.T:
                return tv
            if any(self.mentions(m.atoms.names[a], iname) for a in m.atoms_of(inner)):
                r = go(inner)
                if r is None:
                    return None
                # min of the two
                return m.bind2(tv, r, lambda x, y: m.ite(
                    m.le(m.lin_add(x, y, -1)), m.term(x), m.term(y)))
            return m.ite(inner, tv, m.const(0))
        return go(c)


def lambda_spec(lam, e):
    """(mangled, parameters, body, return type) of the body that e calls."""
    if len(lam) > 8:
        for sp in lam[8]:
            if e[0] == 'opcall' and sp[0] == e[4]:
                return sp
        if len(lam[8]) == 1:
            return lam[8][0]
        return (None, None, None, None)
    return (lam[6], lam[3], lam[4], lam[7])


def info_key(i):
    return i['id']


def _tdiv(a, c):
    if a in (INF, -INF):
        return a
    return a // c if a >= 0 else -((-a) // c)


def mulinf(i, j):
    if i == 0 or j == 0:
        return 0
    return i * j


def norm_float(x):
    """Drop multiplications by one and nested conversions."""
    if isinstance(x, tuple) and x and x[0] == 'flop':
        a, b = norm_float(x[2]), norm_float(x[3])
        one = ('L', 1, ())
        if x[1] == '*':
            if _is_one(a):
                return b
            if _is_one(b):
                return a
        return ('flop', x[1], a, b)
    if isinstance(x, tuple) and x and x[0] == 'fcall':
        return x[:2] + tuple(norm_float(y) for y in x[2:])
    return x


def _is_one(x):
    return isinstance(x, tuple) and (
        (x[0] == 'i2f' and x[1] == ('L', 1, ())) or
        (x[0] == 'flt' and not isinstance(x[1], tuple) and float(x[1]) == 1.0))


def clog2_pattern(x):
    """ceil(log2(i2f L)) -> L"""
    if isinstance(x, tuple) and x and x[0] == 'fcall' and x[1] == 'ceil':
        y = x[2]
        if isinstance(y, tuple) and y and y[0] == 'fcall' and y[1] == 'log2':
            z = y[2]
            if isinstance(z, tuple) and z and z[0] == 'i2f':
                return z[1]
    return None
