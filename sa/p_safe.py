"""Value-range obligations at every operation of the parsers: bit-read widths,
container indices, shift amounts, divisors, signed arithmetic, null pointers."""
import idd
import interp
import witness
from props import prop


def lin(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'L'


def outside(m, v, lo, hi):
    """(guard: some followed value of v outside lo..hi, guard: value not followed)."""
    def f(t):
        if not lin(t):
            return m.F
        r = m.F
        if lo is not None:
            r = m.OR(r, m.le((t[0], t[1] - lo + 1, t[2])))
        if hi is not None:
            r = m.OR(r, m.le(neg((t[0], t[1] - hi - 1, t[2]))))
        return r
    return m.bind(v, f), m.where(v, lambda t: not lin(t))


def neg(t):
    return (t[0], -t[1], tuple((a, -c) for a, c in t[2]))


def sub(x, y):
    d = dict(x[2])
    for a, c in y[2]:
        d[a] = d.get(a, 0) - c
    return ('L', x[1] - y[1], tuple(sorted((a, c) for a, c in d.items() if c)))


def unwrapped(m, t):
    """An upper bound of a wrapped-around unsigned index: the unwrapped one."""
    if len(t[2]) == 1 and t[2][0][1] == 1:
        nm = m.atoms.names[t[2][0][0]]
        if isinstance(nm, tuple) and nm[0] == 'wrap' and nm[2] is False and lin(nm[3]):
            if all(m.atoms.rng[a][0] >= 0 and c > 0 for a, c in nm[3][2]) and nm[3][1] >= 0:
                x = nm[3]
                return ('L', x[1] + t[1], x[2])
    return None


def beyond(m, idx, ln):
    """idx < 0 or idx >= len."""
    def f(i, n):
        if not lin(i) or not lin(n):
            return m.F
        r = m.le(sub(n, i))               # len - idx <= 0
        x = unwrapped(m, i)
        if x is not None:
            r = m.AND(r, m.le(sub(n, x)))
        return m.OR(m.le(('L', i[1] + 1, i[2])), r)
    return m.bind2(idx, ln, f), m.OR(m.where(idx, lambda t: not lin(t)),
                                     m.where(ln, lambda t: not lin(t)))


def beyond1(m, idx, ln):
    """idx > len."""
    def f(i, n):
        if not lin(i) or not lin(n):
            return m.F
        d = sub(n, i)
        return m.le(('L', d[1] + 1, d[2]))
    return m.bind2(idx, ln, f), m.OR(m.where(idx, lambda t: not lin(t)),
                                     m.where(ln, lambda t: not lin(t)))


def bits(t):
    it = interp.int_type(t)
    return None if it is None else it[0]


def obligations(m, e):
    """[(kind, key, guard of the violation, guard not followed, text)]"""
    d = e.d
    k = e.kind
    if k == 'read' and d.get('width') is not None:
        hi = 64
        b = bits(d['dt']) if d['desc'] == 'u' else None
        if b:
            hi = min(hi, b)
        if d['desc'] in ('u',):
            v, u = outside(m, d['width'], 1, hi)
            nm = idd.show_name(m, d['name'])
            yield 'width', nm, v, u, 'reading %s asks for fewer than 1 or more than %d bits' % (
                nm, hi)
    elif k in ('index', 'at') and d.get('len') is not None:
        v, u = beyond(m, d['index'], d['len'])
        yield 'index', d['what'], v, u, '%s is accessed outside its bounds' % d['what']
    elif k == 'nonempty':
        v, u = outside(m, d['len'], 1, None)
        yield 'index', d['what'], v, u, '%s of an empty container' % d['what']
    elif k == 'shift':
        b = bits(d['ty'])
        v, u = outside(m, d['b'], 0, b - 1)
        yield 'shift', d['what'], v, u, '%s shifts by a negative amount or by %d bits or more' % (
            d['what'], b)
    elif k == 'div':
        def z(t):
            return m.eq0(t) if lin(t) else m.F
        if interp.int_type(d['ty']):
            yield ('div', d['what'], m.bind(d['b'], z), m.where(d['b'], lambda t: not lin(t)),
                   '%s divides by zero' % d['what'])
    elif k == 'sovf' and not d.get('ok'):
        r = interp.trange(d['ty'])
        v, u = outside(m, d['val'], r[0], r[1])
        yield 'overflow', d['what'], v, u, '%s overflows a signed type' % d['what']
    elif k == 'sub' and d['q'].split('::')[-1] in PRESUB:
        i, j = PRESUB[d['q'].split('::')[-1]]
        if max(i, j) < len(d['args']) and d['lens'][j] is not None:
            what = '%s of %s' % (d['q'].split('::')[-1], e.fn.split('::')[-1])
            v, u = beyond1(m, d['args'][i][1], d['lens'][j])
            yield 'index', what, v, u, '%s is given fewer sets than it may refer to' % what
    elif k == 'terminate':
        yield 'abort', d['name'], m.T, m.F, 'execution ends in %s' % d['name']
    elif k == 'deref':
        n = d.get('null')
        if n is not None:
            yield 'null', d['what'], n, m.F, '%s may be null' % d['what']


# Sizes of members that equal a count held by the same object.  Assumed where an
# object is given from outside, checked wherever a parser returns one.
R = 'h265nal::H265StRefPicSetParser::StRefPicSetState'
S = 'h265nal::H265SpsParser::SpsState'
A = 'h265nal::H265RtpApParser::RtpApState'
LENINV = {
    R: {('delta_poc_s0_minus1',): ('num_negative_pics',),
        ('used_by_curr_pic_s0_flag',): ('num_negative_pics',),
        ('delta_poc_s1_minus1',): ('num_positive_pics',),
        ('used_by_curr_pic_s1_flag',): ('num_positive_pics',)},
    A: {('nal_unit_payloads',): ('nal_unit_headers', '#len'),
        ('nal_unit_sizes',): ('nal_unit_headers', '#len')},
    S: {('st_ref_pic_set',): ('num_short_term_ref_pic_sets',)},
}


def pre_rps(I, st, vs):
    """The sets before the one being parsed are given."""
    m = I.m
    ln = I.load((('S', 'arg2'), '#len'), 'u64', st)
    st.g = m.AND(st.g, m.le(sub(m.val(vs[1]), m.val(ln))))


# the same fact at the call sites: (index argument, vector argument)
PRESUB = {'ParseStRefPicSet': (0, 2)}

PRE = {'st_ref_pic_set': pre_rps}


def given(nm, rng):
    """Facts about objects from outside that other checks bound only by their
    type: never chosen freely in a witness."""
    if nm[0] != 'f' or len(nm) < 3:
        return nm[0] == 'len'
    if nm[-1] == '#len' and len(nm) > 3:
        return True
    if nm[1] == 'this' or not isinstance(nm[1], str) or (
            not nm[1].startswith('arg') and nm[1] not in ('vps', 'sps', 'pps', 'state')):
        return False
    return nm[-1] == '#len' or rng[1] - rng[0] >= 2 ** 32 - 1


def scan(rep, label, m, events, kinds, bar=None, assume=None):
    n = 0
    given_ = bar or given
    std = assume[1](m) if assume else m.T
    seen = set()
    for e in events:
        for kind, key, v, u, text in obligations(m, e):
            if kind not in kinds:
                continue
            n += 1
            D = m.AND(e.g, v)
            if assume and D != m.F:
                # beyond the standard's ranges only the lower limit counts
                low = outside(m, e.d['width'], 1, None)[0]
                D = m.OR(m.AND(D, low), m.AND(D, std))
            U = m.AND(e.g, u)
            where = '%s:%s %s' % (e.file, e.line, e.fn)
            if (kind, key) in seen:
                continue
            if D != m.F:
                w = witness.search(m, D, (), bar=given_)
                if w is not None:
                    seen.add((kind, key))
                    rep.violation(label, kind, key, '%s for %s' % (
                        text, witness.show(m, w) or 'every input'), where)
                    continue
                if m.feasible(D) is not None:
                    seen.add((kind, key))
                    rep.undec(label, kind, key, text + ' when ' + m.show_guard(D, 2), where)
                    continue
            if U != m.F and m.feasible(U) is not None:
                seen.add((kind, key))
                rep.undec(label, kind, key, text + ': value not followed', where)
    return n


# Elements whose range the standard limits and the library does not check.  Only
# the upper limit of a width computed from them is affected: values beyond make
# the read fail, within them it must not.
STDLIM = {'luma_bit_depth_entry_minus8': 8, 'chroma_bit_depth_entry_minus8': 8,
          'colour_remap_input_bit_depth': 16, 'colour_remap_output_bit_depth': 16}


def assume_std(m):
    g = m.T
    for a, nm in enumerate(m.atoms.names):
        if isinstance(nm, tuple) and nm and nm[0] == 'f' and nm[-1] in STDLIM:
            g = m.AND(g, m.le(('L', -STDLIM[nm[-1]], ((a, 1),))))
    return g


def own_this(nm, rng):
    """Nothing is assumed or invented about members of a foreign object."""
    return given(nm, rng) or (nm[0] in ('f', 'nonnull', 'len') and len(nm) > 1 and
                              (nm[1] == 'this' or len(nm) > 2))


def payload_only(e):
    return e.fn.endswith('::parse_payload')


def over_parsers(ctx, rep, kinds, assume=None):
    import compose
    W = ctx.world()
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        ev = r.events
        if sid == 'sei':
            ev = [e for e in ev if not payload_only(e)]     # analysed one by one
        n = scan(rep, sid, r.m, ev, kinds, assume=assume)
        rep.obligations += n
        rep.units.append({'parser': r.fn['q'], 'obligations': n})


def over_methods(ctx, rep, kinds):
    import compose
    W = ctx.world()
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            continue
        for fn, ev, rets, err in compose.each(ctx, sid):
            if err:
                rep.undecided.append('%s on the result of %s: not analysed (%s)' % (
                    fn['q'], sid, err[:200]))
                continue
            n = scan(rep, sid + '/' + fn['q'].split('::')[-1], r.m, ev, kinds)
            rep.obligations += n
            rep.units.append({'method': fn['q'], 'on result of': sid, 'obligations': n})


def over_rest(ctx, rep, kinds, only=None):
    import compose
    for fn, m, ev, err in compose.rest(ctx):
        if only and not only(fn):
            continue
        if err:
            rep.undecided.append('%s: not analysed (%s)' % (fn['q'], err[:200]))
            continue
        n = scan(rep, '::'.join(fn['q'].split('::')[-2:]) + '/%d' % len(fn['ps']), m, ev,
                 kinds, bar=own_this)
        rep.obligations += n
        rep.units.append({'function': fn['q'], 'obligations': n})


@prop('C10', 'Every bit read of every parser: the width, as a diagram over the elements '
      'decoded before it, must be at least 1 on every path, and at most what the reader and '
      'the destination hold whenever the elements it depends on are in the range of the '
      'standard. A valuation outside is a violation.', min=200)
def c10(ctx, rep, tier):
    over_parsers(ctx, rep, {'width'}, assume=('width', assume_std))


@prop('C11', 'Every element access of a vector, array or string in parsers, in methods '
      'run on exactly the states the parsers return, and in the other library functions: '
      'the index must be inside the length on every path. Sizes of members are tied to the '
      'counts of the same structure where its parser is shown to keep them equal.', min=120)
def c11(ctx, rep, tier):
    over_parsers(ctx, rep, {'index'})
    over_methods(ctx, rep, {'index'})
    over_rest(ctx, rep, {'index'})
    sizes(ctx, rep)


@prop('C12', 'Every dereference of a pointer in every public method (dump and accessors) '
      'run on exactly the states its parser returns, and in the parsers and utilities that '
      'use structures returned earlier: the pointer must be non-null on every path.', min=120)
def c12(ctx, rep, tier):
    over_parsers(ctx, rep, {'null'})
    over_methods(ctx, rep, {'null'})
    over_rest(ctx, rep, {'null'})


@prop('C24', 'Every shift, integer division and signed arithmetic operation evaluated while '
      'parsing, dumping or querying: the operands must keep the operation defined on every '
      'path.', min=60)
def c24(ctx, rep, tier):
    k = {'shift', 'div', 'overflow'}
    over_parsers(ctx, rep, k)
    over_methods(ctx, rep, k)
    over_rest(ctx, rep, k)


def sizes(ctx, rep):
    """The sizes assumed of given objects are those every parser returns."""
    import compose
    import interp
    W = ctx.world()
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        rec = W.rec(r) if r is not None else None
        if rec not in LENINV or r.S == r.m.F:
            continue
        m, I = r.m, r.I
        for root in r.roots:
            st = interp.State(r.S, dict(r.env))
            for vec, field in LENINV[rec].items():
                rep.obligations += 1
                ln = I.load(root + vec + ('#len',), 'u64', st)
                n = I.load(root + field, 'u32', st)

                def f(x, y):
                    if not lin(x) or not lin(y):
                        return m.F
                    return m.NOT(m.eq0(sub(x, y)))
                D = m.AND(r.S, m.bind2(ln, n, f))
                U = m.AND(r.S, m.OR(m.where(ln, lambda t: not lin(t)),
                                    m.where(n, lambda t: not lin(t))))
                key = '%s vs %s' % ('.'.join(vec), '.'.join(field))
                text = 'size of %s differs from %s' % ('.'.join(vec), '.'.join(field))
                where = '%s:%s %s' % (r.fn['file'], r.fn['line'], r.fn['q'])
                w = witness.search(m, D) if D != m.F else None
                if w is not None:
                    rep.violation(sid, 'size', key, '%s for %s' % (
                        text, witness.show(m, w) or 'every input'), where)
                elif (D != m.F and m.feasible(D) is not None) or (
                        U != m.F and m.feasible(U) is not None):
                    rep.undec(sid, 'size', key, text, where)
