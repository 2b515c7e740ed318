"""Every loop consumes input in each iteration or runs a bounded number of times;
every requested size is bounded; no recursion."""
import witness
import idd
from props import prop
from p_safe import lin, given

LIMIT = 65536          # the largest count of any element the formats allow in a loop


def sizes(sid, outer):
    """Facts that are sizes of data that exists already (bounding by them is
    bounding by the input): container lengths, and the sizes a caller passes."""
    def f(nm):
        if nm[0] == 'len' or nm[-1] == '#len':
            return True
        if outer:
            return True
        return sid.startswith('sei') and nm[0] == 'f' and len(nm) == 2 and nm[1] == 'arg0'
    return f


def small(m, g, is_size, kinds=('f', 'len')):
    """g, with every size at most LIMIT."""
    for a in m.atoms_of(g):
        nm = m.atoms.names[a]
        if isinstance(nm, tuple) and nm and (kinds is None or nm[0] in kinds) and is_size(nm) and \
                m.atoms.rng[a][1] > LIMIT:
            g = m.AND(g, m.le(('L', -LIMIT, ((a, 1),))))
    return g


def left(m):
    """Facts that are the remaining number of bits, bytes, ... of the reader."""
    def f(nm, d=0):
        if 'RemainingBitCount' in str(nm):
            return True
        if d > 3 or not isinstance(nm, tuple) or nm[0] not in ('div', 'shr', 'cast', 'trunc'):
            return False
        return all(all(f(m.atoms.names[a], d + 1) for a, _ in t[2])
                   for t in nm[1:] if lin(t))
    return f


CONSUME = ('read', 'sub', 'trailing')
OTHER = ('bb', 'extcall', 'unknowncall', 'virtualcall', 'derive', 'mem', 'stdcall', 'vecmut')


def inside(e, lp):
    return any(isinstance(l, tuple) and l and l[0] == 'loop' and l[3] == lp for l in e.loops)


def halved(m, t, phi, g):
    """t is phi shifted right or divided, and phi is at least 1."""
    if t[1] or len(t[2]) != 1 or t[2][0][1] != 1:
        return False
    nm = m.atoms.names[t[2][0][0]]
    if not isinstance(nm, tuple) or nm[0] not in ('shr', 'div') or nm[1] != phi:
        return False
    by = m.range_under(nm[2], g)[0] if lin(nm[2]) else nm[2] if isinstance(nm[2], int) else 0
    return by >= (1 if nm[0] == 'shr' else 2) and m.range_under(phi, g)[0] >= 1


def unwrap(m, t, g):
    """t, when the sum it wraps fits on g."""
    if not t[1] and len(t[2]) == 1 and t[2][0][1] == 1:
        nm = m.atoms.names[t[2][0][0]]
        if isinstance(nm, tuple) and nm[0] == 'wrap' and lin(nm[3]):
            lo, hi = m.range_under(nm[3], g)
            if m.atoms.rng[t[2][0][0]][0] <= lo and hi <= m.atoms.rng[t[2][0][0]][1]:
                return nm[3]
    return t


def progress(m, end, is_size):
    """A loop-carried integer that every further iteration moves one way."""
    d = end.d
    out = []
    for k, v in d['ends'].items():
        phi, step = d['mod'][k]
        if v is None or phi[0] != 'L' or step is not None:
            continue
        lo, hi = float('inf'), float('-inf')
        for t in m.terminals(m.restrict(v, d['end_g'])):
            if not lin(t):
                break
            g = small(m, m.AND(d['end_g'], m.where(v, lambda y, t=t: y == t)), is_size)
            if g == m.F or m.feasible(g) is None:
                continue
            if halved(m, t, phi, g):
                lo, hi = min(lo, float('-inf')), max(hi, -1)
                continue
            t = unwrap(m, t, g)
            dl = m.lin_add(t, phi, -1)
            r = m.range_under(dl, g)
            lo, hi = min(lo, r[0]), max(hi, r[1])
        else:
            if lo > hi:
                continue
            if lo >= 1:
                out.append((k, phi, 1))
            elif hi <= -1:
                out.append((k, phi, -1))
    return out


def stuck(m, e, end, rest):
    """A valuation under which the first iteration goes on, reads nothing and
    leaves all that the conditions on its path depend on unchanged."""
    d = end.d
    g, sub, done = rest, {}, set()
    for _ in range(8):
        used = set(m.atoms_of(g))
        todo = [k for k in d['mod'] if d['mod'][k][0] and d['mod'][k][0][0] == 'L' and
                {a for a, _ in d['mod'][k][0][2]} & used and k not in done]
        if not todo:
            break
        for k in todo:
            done.add(k)
            phi, step = d['mod'][k]
            v, v0 = d['ends'].get(k), (e.d.get('inits') or {}).get(k)
            if step is not None or v is None or v0 is None:
                return None
            t0 = set(m.terminals(v0))
            if len(t0) != 1 or not lin(next(iter(t0))) or len(phi[2]) != 1 or phi[1] or \
                    phi[2][0][1] != 1:
                return None
            same = m.bind(v, lambda t: m.eq0(m.lin_add(t, phi, -1)) if lin(t) else m.F)
            g = m.AND(g, same)
            sub[phi[2][0][0]] = next(iter(t0))
            if g == m.F:
                return None
    if any(m.atoms.names[a] == d['iname'] for a in m.atoms_of(g)):
        return None
    g = m.AND(m.subst(g, sub.get), e.d['entry_g'])
    if g == m.F:
        return None
    return witness.search(m, g, (), bar=given_size)


def given_size(nm, rng):
    return False


def stops(m, cond, phi, sign):
    """Every way to go on bounds the moving integer on the side it moves to."""
    a = phi[2][0][0]
    for path in m.sat_paths(cond, 64):
        for v, lo, hi in path:
            ok = False
            for b, c in m.keyterms[v]:
                if b == a:
                    if c * sign > 0 and hi < m.dom[v][1] or c * sign < 0 and lo > m.dom[v][0]:
                        ok = True
            if ok:
                break
        else:
            return False
    return True


def check(rep, sid, m, events, outer=False):
    is_size = sizes(sid, outer)
    n = 0
    ends = {}
    past = m.T
    for e in events:
        if e.kind == 'loopend':
            ends[e.loops] = e
    for e in events:
        if e.kind == 'alloc':
            n += 1
            alloc(rep, sid, m, e, is_size, past)
        if e.kind != 'loop':
            continue
        n += 1
        lp = e.loops[-1][3]
        end = ends.get(e.loops)
        key = 'loop %s' % loopname(m, e)
        where = '%s:%s %s' % (e.file, e.line, e.fn)
        if end is None:
            rep.undec(sid, 'loop', key, 'end of the loop not reached', where)
            continue
        how = bounded(rep, sid, m, e, end, events, lp, is_size, past)
        if how[0] == 'violation':
            rep.violation(sid, 'loop', key, how[1], where)
        elif how[0] == 'undecided':
            rep.undec(sid, 'loop', key, how[1], where)
        else:
            if how[0].startswith('consumes'):
                past = m.AND(past, consumed(m, e))
            rep.extra.setdefault('how', {}).setdefault(how[0], 0)
            rep.extra['how'][how[0]] += 1
    return n


def consumed(m, e):
    """After a loop that reads in each iteration its count is bounded by the input
    (taken here as LIMIT bits)."""
    t = e.d['trip']
    if t is None or not set(l[0] for l in e.loops[:-1]) <= {'u'}:
        return m.T
    ok = m.bind(t, lambda x: m.le(('L', x[1] - LIMIT, x[2])) if lin(x) else m.T)
    return m.OR(m.NOT(e.d['entry_g']), ok)


def loopname(m, e):
    c = e.d.get('cond')
    return e.fn.split('::')[-1] + ' ' + (m.show_guard(c, 1)[:60] if c is not None else '')


def failed(m, v):
    if v is None:
        return m.F
    return m.where(v, lambda t: isinstance(t, tuple) and t[0] == 'failed')


def bounded(rep, sid, m, e, end, events, lp, is_size, past):
    end_g = end.d['end_g']
    if end_g == m.F or m.feasible(end_g) is None:
        return ('at most once',)
    if e.d.get('ranged'):
        return ('elements of an existing container',)
    got = m.F
    other = False
    own = any(x.kind == 'bitbuffer' and inside(x, lp) for x in events)
    for x in events:
        if not inside(x, lp) or x.loops[-1][3] != lp:
            if inside(x, lp) and x.kind in OTHER:
                other = True
            continue
        if x.kind in CONSUME and x.d.get('stream', True) and not own:
            # (what is read from a buffer made by the iteration itself is no progress)
            got = m.OR(got, x.g)
        elif x.kind in OTHER:
            other = True
    idle = m.ANDN(end_g, got)
    dead = m.AND(end_g, failed(m, end.d['failed']))
    rest = m.OR(idle, dead)
    if rest == m.F or m.feasible(rest) is None:
        return ('consumes input in each iteration',)
    # bounded number of iterations
    i = m.atom(end.d['iname'], 0, 2 ** 32 - 1)
    far = m.AND(rest, m.le(('L', LIMIT - i[1], tuple((a, -c) for a, c in i[2]))))
    if far == m.F or m.feasible(far) is None:
        return ('count of limited range',)
    near = small(m, m.AND(far, past), is_size)
    if near == m.F or m.feasible(near) is None:
        return ('size of data given',)
    end.d['mod'] = e.d['mod']
    for k, phi, sign in progress(m, end, is_size):
        c = e.d.get('cond')
        if c is None:
            continue
        if stops(m, c, phi, sign):
            return ('an integer moves towards the bound',)
    w = stuck(m, e, end, rest)
    if w is not None:
        return ('violation', 'an iteration changes nothing that its condition depends on and is '
                'repeated for ever: ' + (witness.show(m, w) or 'every input'))
    if not other:
        w = witness.search(m, near, (), bar=given)
    if w is not None:
        return ('violation', 'more than %d iterations without reading: %s' % (
            LIMIT, witness.show(m, w) or 'every input'))
    return ('undecided', 'neither consumption nor a bound is shown: ' + m.show_guard(near, 2))


def alloc(rep, sid, m, e, is_size, past):
    v = e.d['size']
    big = m.bind(v, lambda t: m.le(('L', LIMIT + 1 - t[1], tuple((a, -c) for a, c in t[2])))
                 if lin(t) else m.F)
    unk = m.AND(e.g, m.where(v, lambda t: not lin(t)))
    D = m.AND(m.AND(e.g, big), past)
    if sid.startswith('sei_'):
        # the payload size is announced by the input; what is left of it bounds memory
        D = small(m, D, left(m), None)
        D = small(m, D, lambda nm: nm[0] == 'len' or nm[-1] == '#len')
    else:
        D = small(m, D, is_size)
    key = e.d.get('what') or ''
    where = '%s:%s %s' % (e.file, e.line, e.fn)
    if D != m.F and m.feasible(D) is not None:
        w = witness.search(m, D, (), bar=given)
        if w is not None:
            rep.violation(sid, 'alloc', key, '%s requests more than %d elements for %s' % (
                key, LIMIT, witness.show(m, w) or 'every input'), where)
            return
        rep.undec(sid, 'alloc', key, '%s: size not bounded: %s' % (key, m.show(v)[:80]), where)
    elif unk != m.F and m.feasible(unk) is not None:
        rep.undec(sid, 'alloc', key, key + ': size not followed', where)


def calls_in(x, out):
    if isinstance(x, (list, tuple)):
        if x and x[0] in ('call', 'mcall', 'opcall') and len(x) > 3 and isinstance(x[3], str):
            out.add(x[3])
        for y in x:
            calls_in(y, out)


def recursion(ctx, rep):
    P = ctx.world().prog
    g = {}
    for mg, fn in P.fns.items():
        if fn.get('body') is None or not fn['file'].startswith(('src/', 'include/')):
            continue
        s = set()
        calls_in(fn['body'], s)
        g[mg] = s
    # functions that can reach themselves
    reach = {}
    for f in g:
        seen, todo = set(), list(g[f])
        while todo:
            h = todo.pop()
            if h in seen or h not in g:
                continue
            seen.add(h)
            todo.extend(g[h])
        reach[f] = seen
    rep.obligations += len(g)
    for f in sorted(g):
        if f in reach[f]:
            rep.undec(P.fns[f]['q'], 'recursion', P.fns[f]['q'],
                      'recursion whose depth is not bounded by this check',
                      '%s:%s' % (P.fns[f]['file'], P.fns[f]['line']))


@prop('C13', 'Every loop left after unrolling constant counts, in every parser '
      'and every other library function: each continuing iteration must pass '
      'a bit read or nested parse that succeeded, or the iteration index is at most 65536 '
      'by the ranges of the elements decoded before, by a count already consumed bit by bit, or by the size of '
      'existing data; requested container sizes likewise. A valuation of decoded elements beyond is a '
      'violation.', min=60)
def c13(ctx, rep, tier):
    import compose
    W = ctx.world()
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        ev = r.events
        if sid == 'sei':
            ev = [x for x in ev if not x.fn.endswith('::parse_payload')]
        n = check(rep, sid, r.m, ev)
        rep.obligations += n
        rep.units.append({'parser': r.fn['q'], 'loops and allocations': n})
    for fn, m, ev, err in compose.rest(ctx, True):
        if fn['q'].endswith('::ReadFile'):
            continue                  # reads whatever file the user names
        if err:
            rep.undecided.append('%s: not analysed (%s)' % (fn['q'], err[:200]))
            continue
        n = check(rep, '::'.join(fn['q'].split('::')[-2:]), m, ev, outer=True)
        rep.obligations += n
        rep.units.append({'function': fn['q'], 'loops and allocations': n})
    recursion(ctx, rep)
