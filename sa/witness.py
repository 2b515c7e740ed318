"""Confirms that a difference between two diagrams is realisable: looks for a
valuation of the base facts (decoded elements, arguments, iteration indices)
under which a guard holds, computing every interpreted term from its operands.
A guard for which no valuation is found is never reported as a violation."""
import itertools
import random
from idd import INF

INTERP = {'wrap', 'or', 'and', 'xor', 'mul', 'shl', 'shr', 'div', 'mod', 'cdiv',
          'val', 'clog2'}
FREE = {'f', 'i', 'bb', 'more_rbsp_data', 'byte_aligned', 'len', 'nonnull',
        'present', 'ok', 'bbok', 'mapsize', 'derived'}


class Unknown(Exception):
    pass


def _tdiv(a, b):
    if b == 0:
        raise Unknown('division by zero')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Eval:
    def __init__(self, m, asg, free):
        self.m = m
        self.asg = asg
        self.free = free
        self.cache = {}

    def atom(self, a):
        v = self.asg.get(a)
        if v is not None:
            return v
        v = self.cache.get(a)
        if v is not None:
            return v
        nm = self.m.atoms.names[a]
        k = nm[0] if isinstance(nm, tuple) and nm else None
        if k not in INTERP:
            raise Unknown(nm)
        r = self.compute(nm, k)
        self.cache[a] = r
        return r

    def compute(self, nm, k):
        if k == 'wrap':
            bits, signed, x = nm[1:4]
            v = self.term(x) & ((1 << bits) - 1)
            if signed and v >> (bits - 1):
                v -= 1 << bits
            return v
        if k == 'val':
            t = self.node(nm[1])
            return self.term(t)
        if k == 'clog2':
            v = self.term(nm[1])
            if v < 1:
                raise Unknown(nm)
            return (v - 1).bit_length()
        a, b = self.term(nm[1]), self.term(nm[2])
        if k == 'or':
            return a | b
        if k == 'and':
            return a & b
        if k == 'xor':
            return a ^ b
        if k == 'mul':
            return a * b
        if k == 'shl':
            if not 0 <= b < 256:
                raise Unknown(nm)
            return a << b
        if k == 'shr':
            if not 0 <= b < 256:
                raise Unknown(nm)
            return a >> b
        if k == 'div':
            return _tdiv(a, b)
        if k == 'mod':
            return a - b * _tdiv(a, b)
        if k == 'cdiv':
            if b == 0:
                raise Unknown(nm)
            return -((-a) // b)
        raise Unknown(nm)

    def term(self, t):
        if isinstance(t, int) and not isinstance(t, bool):
            return t
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'L':
            r = t[1]
            for a, c in t[2]:
                r += c * self.atom(a)
            return r
        raise Unknown(t)

    def node(self, n):
        """Terminal value reached."""
        m = self.m
        while True:
            nd = m.nodes[n]
            if nd[0] == INF:
                return nd[1]
            v = 0
            for a, c in m.keyterms[nd[0]]:
                v += c * self.atom(a)
            lo, hi = m.dom[nd[0]]
            if v < lo or v > hi:
                raise Unknown('outside domain')
            i = 0
            for b in nd[1]:
                if v <= b:
                    break
                i += 1
            n = nd[2][i]


def values_in(m, n):
    """The elements (name without index) that atoms of guard n are about."""
    out, seen = set(), set()

    def name(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple):
                for b, _ in x[2]:
                    atom(b)
            elif x and x[0] in ('f', 'len', 'derived', 'phi', 'phx', 'cphi', 'K'):
                out.add(tuple(y for y in x if isinstance(y, str)))
                for y in x[1:]:
                    name(y)
            else:
                for y in x[1:]:
                    name(y)

    def atom(a):
        if a not in seen:
            seen.add(a)
            nm = m.atoms.names[a]
            if isinstance(nm, tuple) and nm and nm[0] == 'val' and isinstance(nm[1], int):
                for b in m.atoms_of(nm[1]):
                    atom(b)
            else:
                name(nm)
    for a in m.atoms_of(n):
        atom(a)
    return out


def nofail_free(m, nm, path):
    """Whether 'no earlier iteration returned' says nothing about the values on
    the path: the iterations return for failed reads only, or because of other
    elements than those."""
    import conform
    n = nm[2]
    if isinstance(n, bool) or not isinstance(n, int):
        return False
    lost = {m.atoms.names[a][:3] for u, lo, hi in path if hi == 0
            for a, _ in m.keyterms[u] if m.atoms.names[a][0] in ('ok', 'bbok')}
    if lost and any(isinstance(m.atoms.names[a], tuple) and m.atoms.names[a][:3] in lost
                    for a in m.atoms_of(n)):
        return False        # a failed read of the path may be one that returns
    memo = m.__dict__.setdefault('_nofail', {})
    if n not in memo:
        r = conform.cofactor(m, n, lambda x: isinstance(x, tuple) and x and
                             x[0] in ('ok', 'bbok'), 1)
        r = conform.cofactor(m, r, conform.is_nofail, 1)
        memo[n] = frozenset() if r == m.F else frozenset(values_in(m, r)) or None
    v = memo[n]
    if v is None:
        return False
    if not v:
        return True
    mine = set()
    for u, _, _ in path:
        for a, _ in m.keyterms[u]:
            x = m.atoms.names[a]
            if isinstance(x, tuple) and x and x[0] == 'nofail':
                continue
            mine |= values_in(m, m.eq0(m.lin_of(a)) if hasattr(m, 'lin_of')
                              else m.eq0(('L', 0, ((a, 1),))))
    return not (v & mine)


BAR = [None]      # atoms a caller excludes from valuations


def base_atoms(m, a, free, out, opq, seen):
    """Base atoms a depends on; unresolvable ones go to opq."""
    if a in seen:
        return
    seen.add(a)
    nm = m.atoms.names[a]
    k = nm[0] if isinstance(nm, tuple) and nm else None
    if k in INTERP:
        def terms(x):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'L':
                for b, _ in x[2]:
                    base_atoms(m, b, free, out, opq, seen)
        if k == 'val':
            for b in m.atoms_of(nm[1]):
                base_atoms(m, b, free, out, opq, seen)
        else:
            for x in nm[1:]:
                terms(x)
            if any(isinstance(x, tuple) and not (len(x) == 3 and x[0] == 'L')
                   for x in nm[1:]):
                opq.add(a)
    elif (k in FREE or a in free) and not (BAR[0] and BAR[0](nm, m.atoms.rng[a])):
        out.add(a)
    else:
        opq.add(a)


def search(m, g, free=(), tries=60, seed=1, paths=24, bar=None):
    BAR[0] = bar
    try:
        return search1(m, g, free, tries, seed, paths)
    finally:
        BAR[0] = None


def search1(m, g, free, tries, seed, paths):
    """A valuation {atom: int} under which guard g is true, or None."""
    if g == m.F:
        return None
    for path in itertools.islice(m.fpaths(g), paths):
        base, opq, seen = set(), set(), set()
        for v, _, _ in path:
            for a, _ in m.keyterms[v]:
                base_atoms(m, a, free, base, opq, seen)
        opq = {a for a in opq if not (m.atoms.names[a][0] == 'nofail' and
                                      nofail_free(m, m.atoms.names[a], path))}
        if opq:
            continue
        base |= {a for v, _, _ in path for a, _ in m.keyterms[v]
                 if m.atoms.names[a][0] == 'nofail'}
        for t in range(tries):
            rnd = random.Random(seed * 1000 + t)
            asg = {}
            box = tighten(m, path)
            for a in sorted(base):
                lo, hi = box.get(a, m.atoms.rng[a])
                asg[a] = pick(rnd, lo, hi, t)
            r = repair(m, path, asg, base, free, rnd)
            if r is not None:
                ev = Eval(m, r, free)
                try:
                    if ev.node(g) is True and consistent(m, r, ev):
                        return r
                except Unknown:
                    pass
    return None


def ground(x, ev):
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple):
            return ev.term(x)
        return tuple(ground(y, ev) for y in x)
    return x


# Elements of a stored parameter set that are nonzero only when another element
# of the same structure is in a range: clause 7.3.2 codes them under that
# condition and 7.4.3 infers zero otherwise (C01 to C03 decide that the parsers
# of the parameter sets do so).
CODED_UNDER = {
    'separate_colour_plane_flag': ('chroma_format_idc', 3, 3),
    'num_long_term_ref_pics_sps': ('long_term_ref_pics_present_flag', 1, 1),
    'pcm_loop_filter_disabled_flag': ('pcm_enabled_flag', 1, 1),
    'deblocking_filter_override_enabled_flag':
        ('deblocking_filter_control_present_flag', 1, 1),
    'pps_deblocking_filter_disabled_flag':
        ('deblocking_filter_control_present_flag', 1, 1),
    'num_tile_columns_minus1': ('tiles_enabled_flag', 1, 1),
    'num_tile_rows_minus1': ('tiles_enabled_flag', 1, 1),
    'diff_cu_qp_delta_depth': ('cu_qp_delta_enabled_flag', 1, 1),
}


def storable(m, asg):
    """The elements of stored parameter sets form a set that can be decoded."""
    ids = None
    for a, v in asg.items():
        nm = m.atoms.names[a]
        if v and nm[0] == 'f' and len(nm) > 3 and nm[1] in ('sps', 'pps', 'vps') and \
                isinstance(nm[-1], str) and nm[-1] in CODED_UNDER:
            f, lo, hi = CODED_UNDER[nm[-1]]
            if ids is None:
                ids = {m.atoms.names[b]: w for b, w in asg.items()}
            w = ids.get(nm[:-1] + (f,))
            if w is not None and not lo <= w <= hi:
                return False
    return True


def consistent(m, asg, ev):
    """Elements that turn out to be the same one have the same value."""
    if not storable(m, asg):
        return False
    seen = {}
    for a, v in asg.items():
        nm = m.atoms.names[a]
        if nm[0] == 'i':
            continue
        try:
            gn = ground(nm, ev)
        except Unknown:
            continue
        if seen.setdefault(gn, v) != v:
            return False
    return True


def tighten(m, path):
    box = {}
    for v, lo, hi in path:
        ts = m.keyterms[v]
        if len(ts) == 1:
            a, c = ts[0]
            l, h = box.get(a, m.atoms.rng[a])
            if c == 1:
                box[a] = (max(l, lo), min(h, hi))
            elif c == -1:
                box[a] = (max(l, -hi), min(h, -lo))
    return box


def pick(rnd, lo, hi, t):
    if lo == -INF:
        lo = min(-8, hi if hi != INF else 0)
    if hi == INF:
        hi = lo + 64
    if lo > hi:
        return lo
    c = [lo, hi, min(lo + 1, hi)]
    if lo <= 0 <= hi:
        c.append(0)
    if hi - lo <= 16:
        return rnd.randint(lo, hi)
    c += [rnd.randint(lo, min(hi, lo + 8)), rnd.randint(lo, min(hi, lo + 40))]
    if t % 3 == 2:
        c.append(rnd.randint(lo, hi))
    if t == 0:
        return lo
    return rnd.choice(c)


def repair(m, path, asg, base, free, rnd, steps=120):
    asg = dict(asg)
    for _ in range(steps):
        ev = Eval(m, asg, free)
        bad = None
        order = list(path)
        rnd.shuffle(order)
        for v, lo, hi in order:
            try:
                s = sum(c * ev.atom(a) for a, c in m.keyterms[v])
            except Unknown:
                return None
            if s < lo or s > hi:
                bad = (v, lo, hi, s)
                break
        if bad is None:
            return asg
        v, lo, hi, s = bad
        ts = list(m.keyterms[v])
        rnd.shuffle(ts)
        done = False
        for a, c in ts:
            if a in asg:
                need = (lo - s) if s < lo else (hi - s)
                d = need // c
                if d * c != need and (d * c < need) == (need > 0):
                    d += 1 if c > 0 else -1
                l, h = m.atoms.rng[a]
                x = min(max(asg[a] + d, l), h)
                if x != asg[a]:
                    asg[a] = x
                    done = True
                    break
            else:
                sub, opq, seen = set(), set(), set()
                base_atoms(m, a, free, sub, opq, seen)
                if sub:
                    b = rnd.choice(sorted(sub))
                    asg[b] = pick(rnd, *m.atoms.rng[b], rnd.randint(0, 5))
                    done = True
                    break
        if not done:
            return None
    return None


def show(m, asg, limit=12):
    from idd import show_name
    out = []
    for a in sorted(asg):
        nm = m.atoms.names[a]
        if nm[0] in ('f', 'i', 'bb', 'more_rbsp_data', 'len', 'nonnull', 'present'):
            out.append('%s=%d' % (show_name(m, nm), asg[a]))
    return ', '.join(out[:limit])
