"""Conformance of a parser with its reference table.

Both functions are evaluated in one diagram manager, so their guards and values
are directly comparable.  Every obligation is a pair of diagrams that must
agree on the inputs neither side refuses; a disagreement is reported only with
a concrete valuation of the decoded elements and arguments that exhibits it.
"""
import idd as iddmod
from idd import INF, show_name
import witness
import copy
import difflib
from analysis import derive_naming, DERIVE

CONSUME = ('read', 'sub', 'trailing', 'bb', 'unescape', 'mrd')


class Finding:
    def __init__(self, sid, kind, key, text, where, verdict):
        self.sid, self.kind, self.key = sid, kind, key
        self.text, self.where, self.verdict = text, where, verdict

    def ident(self):
        return '%s:%s:%s' % (self.sid, self.kind, self.key)


def cofactor(m, n, pred, value):
    """Fix every boolean atom whose name satisfies pred to value."""
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is not None:
            return r
        v, bs, ks = m.nodes[x] if m.nodes[x][0] != INF else (INF, None, None)
        if v == INF:
            r = x
        else:
            ts = m.keyterms[v]
            if len(ts) == 1 and pred(m.atoms.names[ts[0][0]]):
                want = value * ts[0][1]
                i = 0
                for b in bs:
                    if want <= b:
                        break
                    i += 1
                r = go(ks[i])
            else:
                kids = [go(k) for k in ks]
                if all(a == b for a, b in zip(kids, ks)):
                    r = x
                else:
                    r = kids[-1]
                    for i in range(len(bs) - 1, -1, -1):
                        g = m.mk(v, (bs[i],), (m.T, m.F))
                        r = m.ite(g, kids[i], r)
        cache[x] = r
        return r
    return go(n)


def is_nofail(nm):
    return isinstance(nm, tuple) and nm and nm[0] == 'nofail'


def is_any(nm):
    return isinstance(nm, tuple) and len(nm) > 1 and nm[0] == 'call' and nm[1] == 'any'


class Model:
    """One side of the comparison."""

    def __init__(self, r, is_spec):
        self.r, self.m, self.I = r, r.m, r.I
        m = self.m
        self.spec = is_spec
        # objects are called after where this very evaluation puts them
        n2 = derive_naming(self.I)
        for e in r.events:
            if e.kind == 'sub' and e.d['loc'][0] in n2.obj:
                self.I.o.naming.obj[e.d['loc'][0]] = n2.obj[e.d['loc'][0]]
                e.d['name'] = self.I.resolve(e.d['loc'])
        self._nf = {}
        self.events = [(e, self.norm(e.g)) for e in r.events]
        self.events = [(e, g) for e, g in self.events if g != m.F]
        self.rejs = []
        for g, v, env in r.rets:
            rej = m.AND(g, m.where(v, lambda t: t == ('null',) or t == ('L', 0, ())
                                   and False))
            raw = cofactor(m, rej, is_nofail, 1)
            if raw != m.F:
                self.rejs.append(raw)
        rej = m.F
        for x in self.rejs:
            rej = m.OR(rej, x)
        if is_spec:
            self.rej_max = cofactor(m, rej, is_any, 1)
            self.rej_min = cofactor(m, rej, is_any, 0)
        else:
            self.rej_max = self.rej_min = rej
        self.rej = self.rej_min
        self.S = self.norm(r.S)
        self.build()

    def norm(self, g):
        r = self._nf.get(g)
        if r is None:
            r = cofactor(self.m, g, is_nofail, 1)
            if self.spec:
                r = cofactor(self.m, r, is_any, 0)
            self._nf[g] = r
        return r

    def canon(self, v):
        """Value diagram with locations spelled by canonical name."""
        def f(t):
            return self.m.term(self.ct(t))
        return self.norm(self.m.bind(v, f))

    def ct(self, t):
        if isinstance(t, tuple) and t:
            if t[0] in ('ptr', 'obj', 'loc') and len(t) == 2:
                n = self.I.name(t[1])
                if len(n) > 1 and isinstance(n[1], tuple) and n[1] and \
                        n[1][0] in ('L', 'O'):
                    n = ('f', '#local') + n[2:]
                return (t[0],) + n
        return t

    def add(self, key, e, g, desc):
        """desc: value diagram."""
        self.keys.setdefault(key, []).append((e, g, desc))

    def build(self):
        m = self.m
        self.keys = {}
        self.order = []
        self.idx = {}
        for e, g in self.events:
            d = e.d
            key = None
            if e.kind == 'read':
                w = d.get('width')
                key = ('read', d['name'])
                v = m.term((d['desc'], None)) if w is None else \
                    m.bind(self.canon(w), lambda t: m.term((d['desc'], t)))
                self.add(key, e, g, v)
            elif e.kind == 'sub':
                key = ('sub', e.d['q'].split('::')[-1], d['name'])
                v = m.term(())
                for pt, a in d['args']:
                    v = m.bind2(v, self.canon(a), lambda x, y: m.term(x + (y,)))
                self.add(key, e, g, v)
            elif e.kind in ('trailing', 'mrd'):
                key = (e.kind,)
                self.add(key, e, g, m.term(()))
            elif e.kind == 'unescape':
                key = (e.kind,)
                v = m.term(())
                for a in d['args']:
                    v = m.bind2(v, self.canon(a), lambda x, y: m.term(x + (y,)))
                self.add(key, e, g, v)
            elif e.kind == 'derive':
                key = (e.kind,)
                v = m.term(())
                for a in d['args']:
                    v = m.bind2(v, self.canon(a), lambda x, y: m.term(x + (y,)))
                self.add(key, e, g, v)
            elif e.kind == 'bb':
                if d['meth'] in ('RemainingBitCount', 'GetCurrentOffset',
                                 'get_current_offset', 'PeekBits'):
                    continue
                key = ('bb', d['meth'])
                v = m.term(())
                for a in d['args']:
                    v = m.bind2(v, self.canon(a), lambda x, y: m.term(x + (y,)))
                self.add(key, e, g, v)
            if key is not None:
                self.order.append((e, g, key))
        # cell contents
        self.cells = {}
        I = self.I

        def cell(nm, e, g, v):
            if nm is None:
                return
            comps = nm[1:]
            if not any(isinstance(c, tuple) and c and c[0] == '[' for c in comps):
                return
            if comps and isinstance(comps[0], tuple) and comps[0][0] != '[':
                return          # an object that never leaves the function
            self.cells.setdefault(comps, []).append((e, g, v))
        for e, g in self.events:
            d = e.d
            if e.kind == 'fill':
                cell(I.name(d['loc']), e, g, self.canon(d['val']))
            elif e.kind == 'push' and d['val'] is not None and \
                    str(d['ty']).startswith('V<'):
                continue        # what it holds is compared, element by element
            elif e.kind == 'push' and d['val'] is not None:
                cell(I.name(d['vec'] + (('[', d['idx']),)), e, g, self.canon(d['val']))
            elif e.kind == 'alloc' and d.get('vec') is not None:
                nm = I.name(d['vec'])
                cell(nm + ('#len',) if nm is not None else None, e, g,
                     self.canon(d['size']))
            elif e.kind == 'store' or e.kind == 'read':
                lv = d['lv'] if e.kind == 'store' else d['dst']
                for t in m.terminals(lv):
                    if not (isinstance(t, tuple) and t[0] == 'loc'):
                        continue
                    gg = m.AND(g, self.norm(m.where(lv, lambda x, t=t: x == t)))
                    if e.kind == 'store':
                        cell(I.name(t[1]), e, gg, self.canon(d['val']))
                    elif d['desc'] != 'bytes':
                        a = m.atoms.ids.get(d['name'])
                        if a is not None:
                            cell(I.name(t[1]), e, gg, m.term(('L', 0, ((a, 1),))))
        # final scalars of the returned object and of the parser state
        self.final = {}
        for loc, v in self.r.env.items():
            if isinstance(v, tuple) or loc[-1] in ('#own', '#alias', '#dyn'):
                continue
            if loc[0][0] in ('L', 'G'):
                continue
            root = (loc[0],)
            if not (root in self.r.roots or loc[0] == ('S', 'state')):
                # sub-objects created here and owned by the result
                nm = I.resolve(loc)
                if not (nm and isinstance(nm[0], str)):
                    continue
                if loc[0][0] != 'O':
                    continue
            nm = I.name(loc)[1:]
            if loc[0] == ('S', 'state'):
                nm = ('#state',) + nm
            elif any(isinstance(c, tuple) for c in nm):
                continue
            if nm and isinstance(nm[0], tuple):
                continue
            self.final[nm] = self.canon(v)

    def fold(self, evs, none):
        m = self.m
        v = m.term(none)
        for e, g, d in sorted(evs, key=lambda x: x[0].seq):
            nv = m.bind2(v, d, lambda x, y: m.term(x + ((y,),)))
            v = m.ite(g, nv, v)
        return v

    def foldlast(self, evs):
        m = self.m
        v = m.term(('none',))
        for e, g, d in sorted(evs, key=lambda x: x[0].seq):
            v = m.ite(g, d, v)
        return v


def islin(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'L' and \
        isinstance(t[2], tuple)


def neq(m, x, y):
    """Guard: the two terminals differ."""
    if x == y:
        return m.F
    if islin(x) and islin(y):
        d = m.lin_add(x, y, -1)
        if not d[2]:
            return m.T if d[1] else m.F
        return m.NOT(m.eq0(d))
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) \
            and not islin(x) and not islin(y):
        r = m.F
        for a, b in zip(x, y):
            r = m.OR(r, neq(m, a, b))
        return r
    return m.T


def opaque_terminal(t):
    """A value the evaluator could not follow."""
    if isinstance(t, tuple):
        if t and t[0] in ('opq', 'undef', 'nonint', 'flop', 'bad'):
            return True
        return any(opaque_terminal(x) for x in t if isinstance(x, tuple))
    return False


class Compare:
    def __init__(self, sid, code, spec):
        self.sid = sid
        self.c, self.s = code, spec
        self.m = code.m
        m = self.m
        self.care = m.AND(m.NOT(code.rej_min), m.NOT(spec.rej_min))
        self.findings = []
        self.checked = 0
        self.samples = []
        self._free = None

    # -- base facts -------------------------------------------------------
    def free(self):
        """Opaque atoms that occur on both sides."""
        if self._free is None:
            def atoms(md):
                out = set()
                for lst in (md.keys, md.cells):
                    for evs in lst.values():
                        for e, g, d in evs:
                            out |= md.m.atoms_of(g)
                for g in md.rejs:
                    out |= md.m.atoms_of(g)
                for v in md.final.values():
                    out |= md.m.atoms_of(v)
                return out
            a, b = atoms(self.c), atoms(self.s)
            both = a & b
            self._free = {x for x in both
                          if self.m.atoms.names[x][0] in ('T', 'phx', 'phi', 'cphi', 'call',
                                                       'truth')
                          and not is_any(self.m.atoms.names[x])}
            # buffer positions and lookahead only mean the same thing when the
            # two sides ask for them in the same places
            self._one = {x for x in (a ^ b)
                         if self.m.atoms.names[x][0] in
                         ('bb', 'more_rbsp_data', 'byte_aligned', 'bbok', 'T', 'phx',
                          'call', 'phi', 'cphi', 'len')}
        return self._free

    def report(self, kind, key, D, text, where):
        m = self.m
        self.checked += 1
        if D == m.F:
            return
        f = self.free()
        if kind != 'rejects' and m.atoms_of(D) & self._one:
            w = None
        else:
            w = witness.search(m, D, f)
        ks = key if isinstance(key, str) else self.kstr(key)
        if w is None:
            if m.feasible(D) is None:
                return
            self.findings.append(Finding(self.sid, kind, ks, text + ' when ' +
                                         m.show_guard(D, 2), where, 'undecided'))
        else:
            self.findings.append(Finding(self.sid, kind, ks, text + ' for ' +
                                         (witness.show(m, w) or 'every input'), where,
                                         'violation'))

    def kstr(self, key):
        m = self.m
        if key[0] == 'read':
            return show_name(m, key[1])
        if key[0] == 'sub':
            return key[1] + '->' + show_name(m, ('f',) + tuple(key[2]))
        return '.'.join(str(x) for x in key)

    # -- rejections ----------------------------------------------------------
    def rejections(self):
        m = self.m
        c, s = self.c, self.s
        both = m.F
        # a structure refused by the tables must be refused by the code
        D = m.ANDN(s.rej_min, c.rej_max)
        self.report('accepts', 'range', D, 'accepts a structure that must be refused',
                    self.where(c))
        D = m.ANDN(c.rej_min, s.rej_max)
        self.report('rejects', 'range', D, 'refuses a structure that is well-formed',
                    self.where(c))

    def where(self, md, evs=None):
        if evs:
            e = evs[0][0]
            return '%s:%s %s' % (e.file, e.line, e.fn)
        fn = md.r.fn
        return '%s:%s %s' % (fn.get('file', '?'), fn.get('line', '?'), fn['q'])

    # -- reads and calls -----------------------------------------------------
    def patterns(self, keys, name):
        """pattern -> set of index kinds ('c' constant, 's' symbolic)."""
        out = {}
        for k in keys:
            comps = name(k)
            if comps is None:
                continue
            idx = tuple(c[1] for c in comps if isinstance(c, tuple) and c and c[0] == '[')
            kinds = out.setdefault(self.c.I.pattern(comps), set())
            for i in idx:
                kinds.add('s' if i[2] else 'c')
        return out

    @staticmethod
    def keyname(k):
        if k[0] == 'read':
            return k[1][1:]
        if k[0] == 'sub':
            return (k[1],) + tuple(k[2])
        return (k[0],)

    def resplit(self, parts):
        """Fields read in other pieces, but as many bits in all, by both sides:
        the values of the pieces do not compare, and what depends on them is
        not a difference."""
        m = self.m
        self.free()

        def total(md, base):
            n, gs, ids = 0, set(), set()
            for k, evs in md.keys.items():
                if k[0] != 'read' or (k[1] != base and k[1][:-1] != base):
                    continue
                a = m.atoms.ids.get(k[1])
                if a is not None:
                    ids.add(a)
                v = md.foldlast([(e, m.T, d) for e, g, d in evs])
                t = m.val(v) if m.is_term(v) else None
                w = t[1] if isinstance(t, tuple) and len(t) == 2 else None
                if len(evs) != 1 or not islin(w) or w[2]:
                    return None, gs, ids
                n += w[1]
                gs.add(m.AND(self.care, md.norm(evs[0][1])))
            return n, gs, ids
        for base, cnt in parts.items():
            if cnt[0] == cnt[1]:
                continue
            a, ga, ia = total(self.c, base)
            b, gb, ib = total(self.s, base)
            if a is not None and a == b and len(ga) == 1 and ga == gb:
                self._one |= ia | ib

    def consumption(self):
        m = self.m
        c, s = self.c, self.s
        pc = self.patterns(c.keys, self.keyname)
        ps = self.patterns(s.keys, self.keyname)
        allk = list(dict.fromkeys(list(s.keys) + list(c.keys)))
        anon_c = [k for k in c.keys if self.anon(k)]
        anon_s = [k for k in s.keys if self.anon(k)]
        parts = {}
        for md, i in ((c, 0), (s, 1)):
            for k in md.keys:
                if k[0] == 'read' and isinstance(k[1][-1], str) and \
                        k[1][-1].startswith('#p'):
                    parts.setdefault(k[1][:-1], [0, 0])[i] += 1
        self.resplit(parts)
        for k in allk:
            ce, se = c.keys.get(k, []), s.keys.get(k, [])
            p = c.I.pattern(self.keyname(k))
            text = None
            vc, vs = c.fold(ce, ()), s.fold(se, ())
            D = m.AND(self.care, m.bind2(vc, vs, lambda x, y: neq(m, x, y)))
            if not ce:
                text = 'never decodes %s' % self.kstr(k)
            elif not se:
                text = 'decodes %s, which is not in the syntax' % self.kstr(k)
            else:
                text = 'decodes %s differently' % self.kstr(k)
            mix = pc.get(p, set()) | ps.get(p, set())
            if D != m.F and len(mix) > 1 and pc.get(p) != ps.get(p):
                self.undecided('shape', k, 'indexed by constants on one side and by a '
                               'loop on the other', self.where(c, ce))
                continue
            if D != m.F and k[0] == 'read' and k[1][:-1] in parts and \
                    len(set(parts[k[1][:-1]])) > 1:
                self.undecided('parts', k, 'read in a different number of parts',
                               self.where(c, ce))
                continue
            if D != m.F and k[0] == 'read' and (k[1][:-1] in parts or k[1] in parts):
                if k[1] in parts and not (k[1][:-1] in parts):
                    self.undecided('parts', k, 'read in a different number of parts',
                                   self.where(c, ce))
                    continue
            if D != m.F and not se and self.anon(k) and not self.anon_excess(k):
                self.undecided('anonymous', k, 'a value whose destination is not followed',
                               self.where(c, ce))
                continue
            if D != m.F and not ce and (anon_c and len(anon_c) > len(anon_s)):
                self.undecided('anonymous', k, 'possibly decoded into a local',
                               self.where(c, ce))
                continue
            self.report('syntax', k, D, text, self.where(c, ce))

    def anon(self, k):
        if k[0] == 'read':
            n = k[1]
            return isinstance(n[1], str) and n[1].startswith('$') or \
                isinstance(n[1], tuple)
        if k[0] == 'sub':
            return bool(k[2]) and isinstance(k[2][0], tuple)
        return False

    def anon_excess(self, k):
        """An extra anonymous read although nothing else is missing."""
        return all(x in self.c.keys for x in self.s.keys)

    def undecided(self, kind, key, text, where):
        self.checked += 1
        self.findings.append(Finding(self.sid, kind, self.kstr(key), text, where,
                                     'undecided'))

    # -- order ---------------------------------------------------------------
    def sequence(self):
        m = self.m
        c, s = self.c, self.s
        common = [k for k in s.keys if k in c.keys and k[0] in CONSUME]
        if not common:
            return
        pos = {}
        n = 0

        def share(e1, e2):
            d = 0
            l1 = [l for l in e1.loops if l[0] == 'loop']
            l2 = [l for l in e2.loops if l[0] == 'loop']
            for a, b in zip(l1, l2):
                if a[3] != b[3]:
                    break
                d += 1
            return d
        first = {}
        for md in (c, s):
            for k in common:
                first[(md, k)] = md.keys[k]
        for i, a in enumerate(common):
            for b in common[i + 1:]:
                ca, cb = c.keys[a], c.keys[b]
                sa, sb = s.keys[a], s.keys[b]
                n += 1
                for x, gx, _ in sa:
                    for y, gy, _ in sb:
                        gs = m.AND(gx, gy)
                        if gs == m.F:
                            continue
                        ds, os_ = share(x, y), x.seq < y.seq
                        for u, gu, _ in ca:
                            for v, gv, _ in cb:
                                dc, oc = share(u, v), u.seq < v.seq
                                if dc == ds and oc == os_:
                                    continue
                                G = m.AND(m.AND(gu, gv), m.AND(gs, self.care))
                                if G == m.F:
                                    continue
                                if oc != os_:
                                    self.report('order', self.kstr(a) + ' / ' + self.kstr(b), G,
                                                'decodes %s and %s in the wrong order' % (
                                                    self.kstr(a), self.kstr(b)),
                                                self.where(c, ca))
                                    continue
                                # interleaving: needs a second iteration
                                dep = min(dc, ds) + 1
                                io = m.atoms.ids.get(('i', dep))
                                if io is None:
                                    continue
                                G = m.AND(G, m.le(('L', 1, ((io, -1),))))
                                self.report('order', self.kstr(a) + ' / ' + self.kstr(b), G,
                                            'interleaves %s and %s wrongly' % (
                                                self.kstr(a), self.kstr(b)),
                                            self.where(c, ca))
        self.checked += n

    # -- values ---------------------------------------------------------------
    def values(self):
        m = self.m
        c, s = self.c, self.s
        name = lambda k: k
        pc = self.patterns(c.cells, name)
        ps = self.patterns(s.cells, name)
        for k in dict.fromkeys(list(s.cells) + list(c.cells)):
            ce, se = c.cells.get(k, []), s.cells.get(k, [])
            vc, vs = c.foldlast(ce), s.foldlast(se)
            p = c.I.pattern(k)
            D = m.AND(self.care, m.bind2(vc, vs, lambda x, y: neq(m, x, y)))
            if k[-1] == '#len':
                # sized in one step by both sides
                D = m.ANDN(D, m.OR(m.where(vc, lambda t: t == ('none',)),
                                   m.where(vs, lambda t: t == ('none',))))
            if D == m.F:
                self.checked += 1
                continue
            mix = pc.get(p, set()) | ps.get(p, set())
            if len(mix) > 1 and pc.get(p) != ps.get(p):
                self.undecided('cellshape', ('read', ('f',) + k), 'written by constant index '
                               'on one side and by a loop on the other', self.where(c, ce))
                continue
            self.value(k, vc, vs, D, self.where(c, ce))
        care = m.AND(m.AND(c.S, s.S), self.care)
        for k in dict.fromkeys(list(s.final) + list(c.final)):
            vc, vs = c.final.get(k), s.final.get(k)
            if vc is None or vs is None:
                # a location one side never mentions keeps its initial value
                if k[0] == '#state':
                    self.statechange(k, vc, vs, care)
                continue
            D = m.AND(care, m.bind2(vc, vs, lambda x, y: neq(m, x, y)))
            if D == m.F:
                self.checked += 1
                continue
            self.value(k, vc, vs, D, self.where(c))

    def statechange(self, k, vc, vs, care):
        m = self.m
        I = self.c.I
        v = vc if vc is not None else vs
        if k[-1] == '#len':
            return
        if k[-1] == '#gone':
            self.report('state', self.kstr(('read', ('f',) + k)), m.AND(care, v),
                        'removes a stored parameter set', self.where(self.c))
            return
        # unchanged: still points to itself
        D = m.AND(care, m.where(v, lambda t: not (
            isinstance(t, tuple) and t[:2] == ('ptr', 'f') and t[2:] == k[1:])))
        self.report('state', self.kstr(('read', ('f',) + k)), D,
                    'changes the parser state' if vs is None else
                    'does not update the parser state', self.where(self.c))

    def value(self, k, vc, vs, D, where):
        m = self.m
        op = m.OR(m.where(vc, opaque_terminal), m.where(vs, opaque_terminal))
        D2 = m.ANDN(D, op)
        if D2 == m.F:
            self.undecided('value', ('read', ('f',) + k), 'value not followed', where)
            return
        self.report('value', self.kstr(('read', ('f',) + k)), D2,
                    '%s gets a different value' % self.kstr(('read', ('f',) + k)), where)

    def run(self, parts=('rejections', 'consumption', 'sequence', 'values')):
        for p in parts:
            getattr(self, p)()
        return self


def compare(W, sid, m, code=None, **kw):
    prog = W.prog
    spec = prog.byq['h265spec::' + sid]
    fn = spec[0]
    kw.setdefault('extra_boundary', DERIVE)
    rc = code or W.analyse(sid, m=m, **kw)
    rs = W.analyse(sid, m=m, fn=fn, qname='h265spec::' + sid, **kw)
    if code is None:
        al = align(rc, rs)
        if al:
            n = copy.copy(rc.naming)
            n.alias = al
            kw.pop('naming', None)
            rc = W.analyse(sid, m=m, naming=n, **kw)
    return Compare(sid, Model(rc, False), Model(rs, True))


def isanon(nm):
    return len(nm) > 1 and isinstance(nm[1], str) and nm[1].startswith('$')


def align(rc, rs):
    """{site: name} for elements the code only ever holds in locals: they stand
    where the syntax has as many elements of the same kind."""
    def order(r):
        out, seen = [], set()
        for e in r.events:
            if e.kind == 'read' and e.d.get('name') and e.site is not None and \
                    e.site not in seen:
                seen.add(e.site)
                out.append(e)
            elif e.kind == 'sub':
                out.append(e)
        return out

    def token(e):
        if e.kind == 'sub':
            return ('sub', e.d.get('q') or e.d.get('sid') or '')
        nm = e.d['name']
        return '$' if isanon(nm) else nm
    ca, sa = order(rc), order(rs)
    ct, st = [token(e) for e in ca], [token(e) for e in sa]
    if '$' not in ct or ct.count('$') <= st.count('$'):
        return {}
    al = {}
    sm = difflib.SequenceMatcher(None, ct, st, autojunk=False)
    have = set(ct)
    for op, a, b, c, d in sm.get_opcodes():
        if op != 'replace' or b - a != d - c or any(t != '$' for t in ct[a:b]) or \
                any(e.kind != 'read' for e in sa[c:d]) or any(t in have for t in st[c:d]):
            continue
        if all(x.d['desc'] == y.d['desc'] and x.d['width'] == y.d['width'] and
               len(x.loops) == len(y.loops) for x, y in zip(ca[a:b], sa[c:d])):
            for x, y in zip(ca[a:b], sa[c:d]):
                al[x.site] = y.d['name']
    if not al:
        return {}
    # the anonymous ones left over are counted anew
    k = 0
    for e in ca:
        if isanon(e.d.get('name') or ()) and e.site not in al:
            k += 1
            al[e.site] = ('f', '$%d' % k)
    return al
