"""Which pointer members a returned structure can hold null, derived from its
parser: never; exactly when some flag of the same structure is zero; or freely."""
import interp
import witness

NULL = ('null',)


def is_null(t):
    return t == NULL


def is_ptr(t):
    return isinstance(t, tuple) and t and t[0] == 'ptr'


class Nulls:
    """{pattern: ('never',) | ('flags', [field], free)}  of one record."""

    def __init__(self):
        self.d = {}

    def lookup(self, I, rel, base, nm, st):
        """Diagram with ('ptr',) / ('null',) terminals, or None."""
        m = I.m
        p = I.pattern(c for c in rel if c != '*')
        x = self.d.get(p)
        if x is None:
            return None
        ptr = m.term(('ptr',))
        if x[0] == 'never':
            return ptr
        kind = 'nonnull' if x[2] else 'nonnull?'
        v = m.ite(m.eq0(m.atom((kind, nm), 0, 1)), m.term(NULL), ptr)
        for f, ty in x[1]:
            g = I.load(base + (f,), ty, st)
            zero = m.bind(g, lambda t: m.eq0(t) if isinstance(t, tuple) and t[0] == 'L' else m.T)
            v = m.ite(zero, v, ptr)
        return v


def merge(tab, p, x):
    """Join of two producers' facts."""
    o = tab.get(p)
    if o is None:
        tab[p] = x
    elif o[0] == 'never':
        if x[0] != 'never':
            tab[p] = x
    elif x[0] != 'never':
        tab[p] = ('flags', [f for f in o[1] if f in x[1]], o[2] or x[2])


def of_result(W, r, tab):
    I, m = r.I, r.m
    if r.S == m.F:
        return
    roots = list(r.roots)

    def rel_of(loc):
        for root in roots:
            n = len(root)
            if loc[:n] == root:
                return None if '*' in loc[n:] else tuple(loc[n:])
        if loc[0][0] in ('S', 'G'):
            return None
        nm = I.resolve(loc)
        return nm if nm and isinstance(nm[0], str) else None

    flags = []
    for loc, v in r.env.items():
        if isinstance(v, tuple) or len(loc) != 2 or loc[:1] not in roots or \
                not isinstance(loc[1], str) or loc[1].startswith('#'):
            continue
        t = I.ltype.get(loc)
        if t is None or not interp.int_type(interp.unref(t)):
            continue
        if all(isinstance(x, tuple) and x and x[0] == 'L' for x in m.terminals(v)):
            flags.append((loc[1], interp.unref(t), m.bind(v, m.eq0)))

    def fact(N, P):
        """N: a null value is kept, P: a pointer is kept."""
        if N == m.F or m.feasible(N) is None:
            return ('never',)
        fl = []
        for f, ty, z in flags:
            n1 = m.ANDN(N, z)
            if m.ANDN(P, z) != m.F and (n1 == m.F or m.feasible(n1) is None):
                fl.append((f, ty))
        return ('flags', fl, witness.search(m, N) is not None)

    for loc, v in r.env.items():
        if isinstance(v, tuple) or len(loc) != 2 or loc[:1] not in roots:
            continue
        ts = m.terminals(v)
        if not any(is_ptr(t) or is_null(t) for t in ts):
            continue
        if not all(is_ptr(t) or is_null(t) or t[0] in ('unset', 'undef') for t in ts):
            merge(tab, (loc[1],), ('flags', [], False))
            continue
        merge(tab, (loc[1],), fact(m.AND(r.S, m.where(v, is_null)),
                                   m.AND(r.S, m.where(v, is_ptr))))
    fails = [e for e in r.events if e.kind == 'return']
    for e in r.events:
        if e.kind == 'push':
            rel, v = rel_of(e.d['vec']), e.d['val']
            if rel is None or v is None or not interp.is_ptr(e.d['ty']):
                continue
            N = m.AND(e.g, m.where(v, is_null))
            for x in fails:      # the same iteration refuses the structure
                if x.loops == e.loops and x.seq > e.seq:
                    N = m.ANDN(N, m.AND(x.g, m.where(x.d['val'], is_null)))
            merge(tab, I.pattern(rel) + ('[]',), fact(N, m.AND(e.g, m.where(v, is_ptr))))
        elif e.kind == 'alloc' and e.d.get('vec') is not None:
            rel = rel_of(e.d['vec'])
            if rel is not None:
                merge(tab, I.pattern(rel) + ('[]',), ('flags', [], False))


def build(ctx, result):
    """{record: Nulls} from every parser's result."""
    W = ctx.world()
    out = {}
    for sid in W.sids:
        r, err = result(sid)
        if r is None:
            continue
        rec = W.rec(r)
        if rec:
            of_result(W, r, out.setdefault(rec, Nulls()).d)
    return out
