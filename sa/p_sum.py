"""C30: the checksum of a NAL unit, and its printed form."""
import bitflow as B
from bitflow import H, L, UN, Bad, Stop, Obj, Ptr, One, Vec, Str, Lit, add, scale, norm, expect
from p_bits import Reader, fns, dombits
from props import prop
import witness

N = 'h265nal::'
Q = N + 'NaluChecksum'


def obj(v):
    if isinstance(v, H):
        v = v.v
    if isinstance(v, Ptr) and isinstance(v.seq, One):
        v = v.seq.h.v
    if not isinstance(v, Obj):
        raise Bad('no checksum is returned', {})
    return v


def call(ev, prog, name, types, args, this=None):
    fn = fns(prog, Q + '::' + name, *types)
    if fn is None:
        raise Stop(name + ' not found')
    r = ev.call(fn, args, this)
    return r


def parts(ev, prog, o):
    """(bytes, length) as the accessors give them."""
    h = H(o, 'T:' + Q)
    n = call(ev, prog, 'GetLength', [], [], h)
    p = call(ev, prog, 'GetChecksum', [], [], h)
    n = n.v if isinstance(n, H) else n
    p = p.v if isinstance(p, H) else p
    if isinstance(n, L):
        n = ev.fix(n)
    if not isinstance(n, int) or not isinstance(p, Ptr):
        raise Stop('the accessors of the checksum')
    return p, n


def folded(ev, words):
    s = 0
    for w in words:
        s = add(s, w)
    hi, lo = ev.divmod(s, 1 << 32)
    s = add(hi, lo)
    s = add(s, ev.divmod(s, 1 << 32)[0])
    s = ev.modpow(s, 32)
    return add((1 << 32) - 1, s, -1)


def cases(prog, tier):
    out = []

    def case(key, label, job, dom=None):
        out.append({'key': key, 'label': label, 'job': job, 'dom': dom})

    def sums(n, free, fill):
        """n bytes; those in free unknown, the others from the pattern."""
        fixed = {}
        for i in range(n):
            if i not in free:
                for k in range(8):
                    fixed[8 * i + k] = fill[i % len(fill)] >> (7 - k) & 1

        def j(ev):
            r = Reader(ev, prog, n, 0)
            v = call(ev, prog, 'GetNaluChecksum', [None], [Ptr(One(r.h), 0)])
            o = obj(v)
            r.at(0, 'the position after the checksum')
            words = [scale(r.num(32 * w, min(32, 8 * n - 32 * w)),
                           1 << max(0, 32 * w + 32 - 8 * n)) for w in range((n + 3) // 4)]
            want = folded(ev, words)
            p, ln = parts(ev, prog, o)
            if ln != 4:
                raise Bad('the checksum has %d bytes' % ln, {})
            got = 0
            for i in range(4):
                x = ev.at(p.seq, add(p.i, i)).v
                if x is UN:
                    raise Bad('byte %d of the checksum is not set' % i, {})
                got = add(scale(got, 256), ev.fit(x, 'u8'))
            expect(ev, got, want, 'the checksum of %d bytes' % n)
        case('GetNaluChecksum', '%d bytes, free %s, else %s' % (
            n, '%d..%d' % (min(free), max(free)) if free else 'none',
            ' '.join('%02x' % x for x in fill)), j, dombits(n, 0, fixed))
    pats = [[0], [255], [0x80, 0, 0, 0], [0x7f, 255, 255, 255], [1, 2, 3, 4, 5, 6, 7]]
    top = 21 if tier == 'thorough' else 13
    for n in range(top + 1):
        for fill in pats:
            for at in range(0, n, 4) if fill == [0] else sorted({0, n // 2, max(0, n - 1)}):
                free = set(range(at, min(n, at + (4 if fill == [0] else 1))))
                sums(n, free, fill)
        sums(n, set(), [255])
    # the low half full, so that adding the carries carries again
    full = [255] * 8 + [0, 0, 0, 1]
    for n in (12, 16, 24):
        sums(n, set(), full)
        sums(n, {11}, full)
    sums(11, {10}, [255] * 8 + [0, 0, 0])

    def offset(ev):
        """Somewhere inside a byte: the position stays."""
        b = ev.fix(ev.integer('bit offset', 1, 7))
        n = ev.fix(ev.integer('bytes', 1, 3))
        r = Reader(ev, prog, n, b)
        call(ev, prog, 'GetNaluChecksum', [None], [Ptr(One(r.h), 0)])
        r.at(0, 'the position after the checksum')
    case('GetNaluChecksum', 'inside a byte', offset)

    def make(ev, n):
        h = ev.make('T:' + Q, True)
        vs = []
        p, _ = parts(ev, prog, h.v)
        for f, c in h.v.f.items():
            if c.t in ('i32', 'u32', 'u64', 'i64'):
                c.v = n
        for i in range(n):
            c = ev.at(p.seq, add(p.i, i))
            c.v = ev.conv(ev.byte(('sum', i)), c.t)
            vs.append(ev.byte(('sum', i)))
        return h, vs

    def snprintf(log):
        def f(ev, e, args):
            a = [ev.val(x) for x in args]
            d, size, fmt = a[0], a[1], a[2]
            if not isinstance(d, Ptr) or not isinstance(fmt, Lit) or fmt.s[fmt.i:] not in (
                    '%02x', '%02hhx') or len(a) != 4:
                raise Stop('snprintf')
            size, i = ev.fix(size), ev.fix(d.i)
            room = len(d.seq.items) - i
            if size > room:
                raise Bad('snprintf is allowed %d bytes where %d are left' % (size, room), {})
            v = ev.fit(a[3], 'u32')
            txt = [('hi', v), ('lo', v), 0]
            for k in range(min(size, 3)):
                d.seq.items[i + k].v = txt[k] if k < size - 1 else 0
            return 2
        return f

    def digits(ev, cells, vs, n):
        """cells begin with the first n digits of vs and a terminator."""
        for k in range(n):
            x = cells[k].v
            which = ('hi', 'lo')[k % 2]
            if not (isinstance(x, tuple) and x[0] == which):
                raise Bad('character %d of the text is wrong' % k, {})
            expect(ev, x[1], vs[k // 2], 'byte %d of the text' % (k // 2))
        if cells[n].v != 0:
            raise Bad('the text is not ended after %d characters' % n, {})

    for n in range(0, 13 if tier == 'thorough' else 9):
        def j(ev, n=n):
            h, vs = make(ev, n)
            ev.hooks = {'snprintf': snprintf(None), 'std::snprintf': snprintf(None)}
            got = []
            import models  # noqa: F401

            def string(t, args):
                p = ev.val(args[0])
                if isinstance(p, Ptr):
                    got.append(p)
                    return Str('')
                return None
            ev.string_from = string
            call(ev, prog, 'GetPrintableChecksum', [], [], h)
            if not got:
                raise Stop('the text is built another way')
            p = got[-1]
            digits(ev, p.seq.items[ev.fix(p.i):], vs, 2 * n)
        case('GetPrintableChecksum', '%d bytes' % n, j)
        for room in sorted({1, 2, 3, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 65}):
            if room < 1 or n == 0:
                continue

            def j2(ev, n=n, room=room):
                h, vs = make(ev, n)
                ev.hooks = {'snprintf': snprintf(None), 'std::snprintf': snprintf(None)}
                v = Vec([H(UN, 'i8') for _ in range(room)], 'i8', True)
                call(ev, prog, 'fdump', [None, None], [Ptr(v, 0), room], h)
                fits = min(n, (room - 1) // 2)
                whole = [c.v for c in v.items]
                if fits == n:
                    digits(ev, v.items, vs, 2 * n)
                    return
                for k in range(2 * fits):
                    x = whole[k]
                    if isinstance(x, tuple):
                        expect(ev, x[1], vs[k // 2], 'byte %d of the text' % (k // 2))
                if 0 not in whole:
                    raise Bad('the text is not ended', {})
            case('fdump', '%d bytes, room for %d' % (n, room), j2)
    return out


@prop('C30', 'bit provenance: every byte of the checksum is followed, as an exact sum of weighted input bits with carries '
      'partitioned, through the lowered IR and compared with the end-around sum of the remaining bytes; the position of '
      'the reader before and after is compared, and nothing of a unit is read before it; the characters printed are followed to the bytes they show', min=20)
def c30(ctx, rep, tier):
    prog = ctx.prog('normal')

    def where(key):
        for f in prog.byq.get(Q + '::' + key, []):
            if f.get('body') is not None:
                return '%s:%s %s' % (f['file'], f['line'], f['q'])
        return 'src/h265_common.cc'
    B.report(rep, prog, B.run_cases(prog, cases(prog, tier)), where)
    order(ctx, rep)


def order(ctx, rep):
    """The checksum is taken before any bit of the NAL unit is."""
    for sid in ('nal_unit', 'nal_unit_payload'):
        c, err = ctx.compare(sid)
        if c is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        m = c.m
        sums = [(e, g) for e, g in c.c.events if e.kind == 'checksum']
        rep.obligations += len(sums) + 1
        rep.units.append({'function': c.c.r.fn['q'], 'checksums taken': len(sums)})
        for e, g in sums:
            before = m.F
            for x, h in c.c.events:
                if x.seq < e.seq and x.kind in ('read', 'sub', 'mrd', 'trailing'):
                    before = m.OR(before, h)
            D = m.AND(g, before)
            if D == m.F:
                continue
            w = witness.search(m, D)
            where = '%s:%s %s' % (e.file, e.line, e.fn)
            if w is not None:
                rep.violation(sid, 'order', 'checksum', 'the checksum is taken after a part of the '
                              'unit was read (%s)' % (witness.show(m, w) or 'every input'), where)
            elif m.feasible(D) is not None:
                rep.undec(sid, 'order', 'checksum', 'something may be read before', where)
