"""Emulation prevention (C17) and NAL unit splitting (C21), on the bit-provenance
domain: input bytes are symbolic and traces are partitioned on the value classes the
code (or the definition it is compared with) distinguishes."""
import bitflow as B
from bitflow import H, L, UN, Bad, Stop, add, expect
from interp import strip_cv, unref, targ
from p_bits import fns, BB, N
from props import prop

UNESC = N + 'UnescapeRbsp'
NALP = N + 'H265NalUnitParser::ParseNalUnit'
BSP = N + 'H265BitstreamParser::'
# these are defined on input that carries no emulation prevention
RAW = {N + 'H265ConfigurationBoxParser::ParseConfigurationBox',
       N + 'H265NalUnitParser::ParseNalUnitUnescaped'}


def src(ev, n, fixed=None):
    return B.Bytes('b', n)


def byte(ev, k):
    return ev.byte(('b', k))


def unescaped(ev, n):
    """Indices of the bytes that stay."""
    zeros, keep = 0, []
    for k in range(n):
        x = byte(ev, k)
        if zeros >= 2 and ev.cmp('==', x, 3):
            zeros = 0
            continue
        keep.append(k)
        zeros = zeros + 1 if ev.cmp('==', byte(ev, k), 0) else 0
    return keep


def same_bytes(ev, got, keep, what):
    if len(got) != len(keep):
        raise Bad('%s has %d bytes instead of %d' % (what, len(got), len(keep)), {})
    for i, k in enumerate(keep):
        expect(ev, got[i], byte(ev, k), 'byte %d of %s' % (i, what))


def cls(vals):
    """Value set of a byte."""
    return sum(1 << v for v in vals)


def windows(n, w, step, fill):
    """Long inputs: a window of w free bytes in bytes of one value class."""
    for p in range(0, n - w + 1, step):
        yield {('b', k): fill for k in range(n) if not p <= k < p + w}, p


def unescape_cases(prog, tier):
    out = []
    fn = fns(prog, UNESC, None, None)
    top = 8 if tier == 'quick' else 10
    if fn is None:
        return out

    def mk(n):
        def j(ev):
            r = ev.call(fn, [B.Ptr(src(ev, n), 0), n])
            if not isinstance(r, B.Vec):
                raise Stop('result of UnescapeRbsp')
            same_bytes(ev, [h.v for h in r.items], unescaped(ev, n), 'the output')
        return j
    other = cls(range(256)) & ~cls([0, 3])
    for n in range(top + 1):
        if n < 6:
            out.append({'key': 'UnescapeRbsp', 'label': 'every input of %d bytes' % n,
                        'job': mk(n)})
            continue
        # the same, in 9 parts (for the sake of parallelism)
        for a in (1, 8, other):
            for b in (1, 8, other):
                out.append({'key': 'UnescapeRbsp', 'job': mk(n), 'limit': 10 ** 6,
                            'label': 'every input of %d bytes (part)' % n,
                            'dom': {('b', 2): a, ('b', 3): b}})
    for n in ((20, 70) if tier == 'quick' else (20, 70, 300)):
        for fill in (other, 1, 8):
            for dom, p in windows(n, 4, 1 if n == 20 else 7, fill):
                out.append({'key': 'UnescapeRbsp', 'job': mk(n), 'dom': dom,
                            'label': 'inputs of %d bytes, four of them free' % n})
    for n in (3, 4, 6, 7, 9, 12, 30, 31, 32, 64, 257):
        dom = {('b', k): 8 if k % 3 == 2 else 1 for k in range(n)}
        out.append({'key': 'UnescapeRbsp', 'job': mk(n), 'dom': dom,
                    'label': '00 00 03 repeated over %d bytes' % n})
        dom = {('b', k): 1 if k < n - 1 else 8 for k in range(n)}
        out.append({'key': 'UnescapeRbsp', 'job': mk(n), 'dom': dom,
                    'label': '%d zeros and 03' % (n - 1)})
    return out


def entries(prog):
    """Functions that take bytes and go on with a reader over them."""
    out = []
    for f in prog.fns.values():
        if f.get('body') is None or not f['q'].startswith(N) or len(f['ps']) < 2:
            continue
        t = [strip_cv(p[2]) for p in f['ps']]
        if t[0] != 'P<const u8>' or t[1] != 'u64':
            continue
        rest = t[2:]
        scope, name = f['q'].rsplit('::', 1)
        cands = []
        for q in (f['q'], scope + '::' + name.replace('Unescaped', '')):
            for g in prog.byq.get(q, []):
                u = [strip_cv(p[2]) for p in g['ps']]
                if u and u[0] == 'P<%s>' % ('T:' + BB) and u[1:][:len(rest)] == rest:
                    cands.append(g)
        if cands:
            out.append((f, cands))
    return out


def entry_cases(prog, tier):
    out = []
    for f, gs in entries(prog):
        raw = f['q'] in RAW

        def hook(ev, e, args, gs=gs):
            g = [g for g in gs if g['m'] == e[3]]
            if not g:
                return NotImplemented
            g = g[0]
            p = ev.val(args[0])
            h = ev.deref(p)
            rem = ev.call(fns(prog, BB + '::RemainingBitCount'), [], h)
            rem = ev.fix(rem)
            got = []
            for _ in range(rem // 8):
                v = H(UN, 'u8')
                if not ev.truth(ev.call(fns(prog, BB + '::ReadUInt8', None), [v], h)):
                    raise Stop('reading the reader')
                got.append(v.v)
            rest = []
            for a, p in zip(args[1:], g['ps'][1:]):
                rest.append(ev.lv(a) if strip_cv(p[2]).startswith('R<') else ev.val(a))
            ev.log.append((got, rem % 8, rest))
            ret = B.Ptr(B.One(H(B.Obj('T:marker', {}), 'T:marker')), 0)
            ev.log[-1] += (ret,)
            return ret

        def mk(n, f=f, raw=raw):
            def j(ev):
                args = [B.Ptr(src(ev, n), 0), n]
                for k, p in enumerate(f['ps'][2:]):
                    t = unref(strip_cv(p[2]))
                    if t.startswith('P<'):
                        a = B.Ptr(B.One(H(B.Obj(targ(t).replace('const ', ''), {}), '')), 0)
                    elif B.int_type(t):
                        lo, hi = B.trange(t)
                        a = ev.integer('arg%d' % k, lo, hi)
                    elif t.startswith('T:'):
                        o = ev.object(t)
                        for fi, (fn_, fh) in enumerate(sorted(o.f.items())):
                            if B.int_type(fh.t):
                                fh.v = ev.integer('opt%d' % fi, 0,
                                                  1 if fh.t == 'bool' else 9)
                        a = o
                    else:
                        raise Stop('argument of type ' + t)
                    args.append(a)
                r = ev.call(f, [H(a, 'T') if isinstance(a, B.Obj) else a for a in args])
                if len(ev.log) != 1:
                    raise Bad('%d parses instead of one' % len(ev.log), {})
                got, odd, rest, ret = ev.log[0]
                if odd:
                    raise Bad('the reader does not start on a byte boundary', {})
                keep = list(range(n)) if raw else unescaped(ev, n)
                same_bytes(ev, got, keep, 'the payload')
                for k, (a, b) in enumerate(zip(args[2:], rest)):
                    name = f['ps'][k + 2][0] or 'argument %d' % (k + 3)
                    if isinstance(b, H):
                        b = b.v
                    if isinstance(a, B.Ptr):
                        if not (isinstance(b, B.Ptr) and b.seq is a.seq):
                            raise Bad('%s is not handed on' % name, {})
                    elif isinstance(a, B.Obj):
                        for x in a.f:
                            if isinstance(a.f[x].v, (int, L)):
                                expect(ev, b.f[x].v, a.f[x].v, name + '.' + x)
                    else:
                        expect(ev, b, a, name)
                rv = r.v if isinstance(r, H) else r
                if not (isinstance(rv, B.Ptr) and rv.seq is ret.seq):
                    raise Bad('the result is not the result of the parse', {})
            return j
        ns = (0, 1, 3, 4, 7) if tier == 'quick' else (0, 1, 2, 3, 4, 5, 6, 7, 8)
        for n in ns:
            dom = {}
            if n >= 7:
                dom = {('b', 0): 1, ('b', 1): 1, ('b', 3): 1}
            out.append({'key': f['q'], 'label': '%s on %d bytes' % (
                f['q'].split('::')[-1], n), 'job': mk(n), 'dom': dom,
                'hooks': {gs[0]['q']: hook}})
    return out


def where(prog):
    def w(key):
        for q in (key, N + key, BSP + key):
            for f in prog.byq.get(q, []):
                if f.get('body') is not None:
                    return '%s:%s %s' % (f['file'], f['line'], f['q'])
        return 'src/h265_common.cc'
    return w


def run(ctx, rep, cases):
    prog = ctx.prog('normal')
    res = B.run_cases(prog, cases)
    B.report(rep, prog, res, where(prog))
    called = set()
    for r in res:
        called |= r['called']
    rep.extra['functions_analysed'] = sorted(called)
    rep.extra['parts'] = sum(r['parts'] for r in res)
    rep.samples += [r['label'] for r in res[:: max(1, len(res) // 10)]]


@prop('C17', 'abstract interpretation of the unescape routine over input bytes partitioned into the '
      'value classes it distinguishes, for every input up to 8 bytes (10 in the thorough '
      'tier) and for longer ones with a window of free bytes at every place; the output is '
      'compared, by provenance of each byte, with the input less every 0x03 that follows two '
      'zeros.  Every entry point that takes bytes is shown to hand exactly these bytes, and '
      'its other arguments, to its parser', min=20)
def c17(ctx, rep, tier):
    prog = ctx.prog('normal')
    cases = unescape_cases(prog, tier)
    if not cases:
        rep.undecided.append('UnescapeRbsp not found')
    run(ctx, rep, cases + entry_cases(prog, tier))


# ---------------------------------------------------------------- splitting
def starts(ev, n):
    """[(start, payload start)] of the start codes with a byte after them."""
    out, k = [], 0
    while k + 3 < n:
        if ev.cmp('==', byte(ev, k), 0) and ev.cmp('==', byte(ev, k + 1), 0) and \
                ev.cmp('==', byte(ev, k + 2), 1):
            s = k
            if k > 0 and ev.cmp('==', byte(ev, k - 1), 0):
                s -= 1
            out.append((s, k + 3))
            k += 3
        else:
            k += 1
    return out


def annexb(ev, n):
    st = starts(ev, n)
    return [(s, p, (st[i + 1][0] if i + 1 < len(st) else n) - p)
            for i, (s, p) in enumerate(st)]


def field(o, name):
    if not isinstance(o, B.Obj) or name not in o.f:
        raise Stop('field ' + name)
    return o.f[name].v


def index_cases(prog, tier):
    out = []
    fn = fns(prog, BSP + 'FindNaluIndices', None, None)
    fe = fns(prog, BSP + 'FindNaluIndicesExplicitFraming', None, None)

    def compare(ev, r, want):
        if not isinstance(r, B.Vec):
            raise Stop('result')
        if len(r.items) != len(want):
            raise Bad('%d NAL units instead of %d' % (len(r.items), len(want)), {})
        for i, (h, w) in enumerate(zip(r.items, want)):
            for name, x in zip(('start_offset', 'payload_start_offset', 'payload_size'), w):
                expect(ev, field(h.v, name), x, '%s of NAL unit %d' % (name, i))

    def mk(n):
        def j(ev):
            r = ev.call(fn, [B.Ptr(src(ev, n), 0), n])
            compare(ev, r, annexb(ev, n))
        return j
    other = cls(range(256)) & ~cls([0, 1])
    if fn is not None:
        for n in range((9 if tier == 'quick' else 11) + 1):
            if n < 7:
                out.append({'key': 'FindNaluIndices', 'label': 'every input of %d bytes' % n,
                            'job': mk(n)})
                continue
            for a in (1, 2, other):
                for b in (1, 2, other):
                    out.append({'key': 'FindNaluIndices', 'job': mk(n), 'limit': 10 ** 6,
                                'label': 'every input of %d bytes (part)' % n,
                                'dom': {('b', 2): a, ('b', 5): b}})
        for n in ((18, 66) if tier == 'quick' else (18, 66, 300)):
            for fill in (other, 1, 2):
                for dom, p in windows(n, 5, 1 if n == 18 else 9, fill):
                    out.append({'key': 'FindNaluIndices', 'job': mk(n), 'dom': dom,
                                'label': 'inputs of %d bytes, five of them free' % n})
        for gap in range(0, 9):
            for zero in (False, True):
                n = 3 * (3 + gap) + 3
                dom = {}
                for k in range(n):
                    p = k % (3 + gap)
                    dom[('b', k)] = 1 if p < 2 or zero and p > 2 else 2 if p == 2 else other
                out.append({'key': 'FindNaluIndices', 'job': mk(n), 'dom': dom,
                            'label': 'start codes every %d bytes' % (3 + gap)})
    if fe is not None:
        def mke(n):
            def j(ev):
                r = ev.call(fe, [B.Ptr(src(ev, n), 0), n])
                want, i = [], 0
                while i + 4 <= n:
                    v = 0
                    for k in range(4):
                        v = add(B.scale(v, 256), byte(ev, i + k))
                    if ev.cmp('>', v, n - i - 4):
                        break
                    v = ev.fix(v)
                    want.append((i, i + 4, v))
                    i += 4 + v
                compare(ev, r, want)
            return j
        few = cls([0, 1, 2, 3, 4, 5, 6, 8, 12, 128, 255])
        for n in range(0, 13 if tier == 'quick' else 14):
            out.append({'key': 'FindNaluIndicesExplicitFraming', 'job': mke(n),
                        'limit': 200000,
                        'dom': {('b', k): few if k % 4 == 3 else cls([0, 1, 128])
                                for k in range(n)} if n > 11 else None,
                        'label': 'every input of %d bytes' % n if n < 12 else
                        'inputs of %d bytes' % n})
    return out


def stream_cases(prog, tier):
    """ParseBitstream*: each NAL unit is parsed once, in order, and kept."""
    out = []

    def hook(ev, e, args):
        if len(args) != 4 or strip_cv(args[0][2]).startswith('P<T:'):
            return NotImplemented
        vs = [ev.val(a) for a in args[:3]]
        o = ev.lv(args[3]).v if args[3][0] != 'ctor' else ev.val(args[3])
        if not isinstance(vs[0], B.Ptr) or not isinstance(vs[0].seq, B.Bytes):
            raise Stop('data of a NAL unit')
        k = len(ev.log)
        good = ev.truth(ev.integer('ok%d' % k, 0, 1))
        r = None
        if good:
            r = B.Ptr(B.One(H(ev.object('T:' + N + 'H265NalUnitParser::NalUnitState', True),
                              'T:' + N + 'H265NalUnitParser::NalUnitState')), 0)
        ev.log.append((vs[0].i, vs[1], vs[2], o, r))
        return r

    def check(ev, r, want, opts, state, sets_opts):
        if len(ev.log) != len(want):
            raise Bad('%d NAL units are parsed instead of %d' % (len(ev.log), len(want)), {})
        kept = []
        st = None
        for k, ((off, ln, s, o, res), (woff, wln)) in enumerate(zip(ev.log, want)):
            expect(ev, off, woff, 'the offset of NAL unit %d' % k)
            expect(ev, ln, wln, 'the length of NAL unit %d' % k)
            if state is not None:
                if not (isinstance(s, B.Ptr) and s.seq is state.seq):
                    raise Bad('the parser state is not handed on', {})
            elif st is not None and not same(s, st):
                raise Bad('NAL units do not share their parser state', {})
            st = s
            for x in opts.f:
                if isinstance(opts.f[x].v, (int, L)):
                    expect(ev, field(o, x), opts.f[x].v, 'option ' + x)
            if res is not None:
                kept.append((res, woff, wln))
        if r is None:
            raise Bad('no result', {})
        bs = ev.deref(r).v
        units = field(bs, 'nal_units').items
        if len(units) != len(kept):
            raise Bad('%d NAL units are returned instead of %d' % (len(units), len(kept)), {})
        for k, (h, (res, woff, wln)) in enumerate(zip(units, kept)):
            if not isinstance(h.v, B.Ptr) or h.v.seq is not res.seq:
                raise Bad('NAL unit %d returned is not the one parsed' % k, {})
            nu = ev.deref(h.v).v
            expect(ev, field(nu, 'offset'), woff, 'the offset kept for NAL unit %d' % k)
            expect(ev, field(nu, 'length'), wln, 'the length kept for NAL unit %d' % k)
        if sets_opts:
            po = field(bs, 'parsing_options_')
            for x in opts.f:
                if isinstance(opts.f[x].v, (int, L)):
                    expect(ev, field(po, x), opts.f[x].v, 'kept option ' + x)

    def same(a, b):
        return isinstance(a, B.Ptr) and isinstance(b, B.Ptr) and (
            a.seq is b.seq or isinstance(a.seq, B.One) and isinstance(b.seq, B.One) and
            a.seq.h is b.seq.h)

    def options(ev):
        o = ev.object('T:' + N + 'ParsingOptions')
        for i, (x, h) in enumerate(sorted(o.f.items())):
            if B.int_type(h.t):
                h.v = ev.integer('opt%d' % i, 0, 1 if h.t == 'bool' else 9)
        return o
    hooks = {NALP: hook}
    for f in prog.byq.get(BSP + 'ParseBitstream', []):
        if f.get('body') is None:
            continue
        own = len(f['ps']) == 3

        def mk(n, f=f, own=own):
            def j(ev):
                o = options(ev)
                st = None if own else B.Ptr(B.One(H(B.Obj(
                    'T:' + N + 'H265BitstreamParserState', {}), '')), 0)
                args = [B.Ptr(src(ev, n), 0), n] + ([] if own else [st]) + [H(o, o.t)]
                r = ev.call(f, args)
                check(ev, r, [(p, s) for _, p, s in annexb(ev, n)], o, st, own)
            return j
        for n in (0, 3, 4, 5, 8):
            out.append({'key': 'ParseBitstream', 'label': 'every input of %d bytes' % n,
                        'job': mk(n), 'hooks': hooks})
        # three NAL units
        n = 15
        dom = {('b', k): v for k, v in ((0, 1), (1, 1), (2, 2), (5, 1), (6, 1), (7, 1), (8, 2),
                                        (11, 1), (12, 1), (13, 2))}
        out.append({'key': 'ParseBitstream', 'label': 'three NAL units', 'job': mk(n),
                    'dom': dom, 'hooks': hooks})
    for f in prog.byq.get(BSP + 'ParseBitstreamNALULength', []):
        if f.get('body') is None:
            continue
        own = len(f['ps']) == 4
        for pre in (0, 1, 2, 3, 4, 8):
            for n in (range(0, 7) if pre <= 2 else (0, 1, 2, 3, 4, 5, 6, 9) if pre == 3 else
                      (0, 3, 4, 5, 8, 9, 11)):
                def j(ev, f=f, own=own, pre=pre, n=n):
                    o = options(ev)
                    st = None if own else B.Ptr(B.One(H(B.Obj(
                        'T:' + N + 'H265BitstreamParserState', {}), '')), 0)
                    args = [B.Ptr(src(ev, n), 0), n, pre] + ([] if own else [st]) + [H(o, o.t)]
                    r = ev.call(f, args)
                    want, i = [], 0
                    while i < n:
                        if pre == 0:
                            want.append((0, n))
                            break
                        if n - i < pre:
                            break
                        v = 0
                        for k in range(pre):
                            v = add(B.scale(v, 256), byte(ev, i + k))
                        i += pre
                        if ev.cmp('==', v, 0) or ev.cmp('>', v, n - i):
                            break
                        v = ev.fix(v)
                        want.append((i, v))
                        i += v
                    check(ev, r, want, o, st, own)
                out.append({'key': 'ParseBitstreamNALULength',
                            'label': '%d-byte lengths, every input of %d bytes' % (pre, n),
                            'job': j, 'hooks': hooks, 'limit': 200000})
    return out


@prop('C21', 'abstract interpretation of the splitting functions over input bytes partitioned into the '
      'value classes they distinguish (all inputs up to 9 bytes, 11 in the thorough tier, '
      'longer ones with a window of free bytes at every place): offsets and lengths are '
      'compared with those the framing defines; the parse of a NAL unit is replaced by a '
      'stand-in with either outcome, to show that every unit is parsed once, in order, with '
      'its own bytes, the state and the options, and is kept with its offset and length',
      min=20)
def c21(ctx, rep, tier):
    prog = ctx.prog('normal')
    run(ctx, rep, index_cases(prog, tier) + stream_cases(prog, tier))
