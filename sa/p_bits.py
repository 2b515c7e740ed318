"""The bit reader (C20), the RBSP helpers (C26) and the bit writer (C27): every
result is followed to the input bits it is made of and compared, bit by bit, with
the bits it has to be made of.  The byte offset of the position, the size of the
buffer and the content of the buffer are symbolic."""
import bitflow as B
from bitflow import H, L, UN, Bad, Stop, add, scale, expect
from props import prop

N = 'h265nal::'
BB = N + 'BitBuffer'
WR = N + 'BitBufferWriter'
BIG = 1 << 31


def fns(prog, q, *types):
    """The overload of q whose parameter types are as given."""
    from interp import strip_cv
    for f in prog.byq.get(q, []):
        if f.get('body') is None:
            continue
        if len(f['ps']) == len(types) and all(
                t is None or strip_cv(p[2]) == t for p, t in zip(f['ps'], types)):
            return f
    return None


class Missing(Exception):
    pass


class Reader:
    """A reader at byte O (symbolic) and bit b with n bytes left from byte O on."""

    def __init__(self, ev, prog, n, b, cls=BB, cells=None):
        self.ev, self.P, self.b, self.n = ev, prog, b, n
        self.cls = cls
        if cells is None:
            self.O = ev.integer('O', 0, BIG)
            self.size = add(self.O, n)
            seq = B.Bytes('b', self.size)
            pt = 'P<const u8>'
        else:
            self.O = 0
            self.size = len(cells)
            seq = B.Vec(cells, 'u8', True)
            pt = 'P<u8>'
        ctor = [f for f in prog.fns.values() if f.get('ctor') and f.get('cls') == 'T:' + cls
                and len(f['ps']) == 2 and f.get('body') is not None]
        if not ctor:
            raise Stop('no constructor')
        o = ev.construct('T:' + cls, ctor[0]['m'], [B.Ptr(seq, 0), self.size], None)
        self.h = H(o, 'T:' + cls)
        if b or cells is None:
            if not self.c('Seek', self.O, b):
                raise Bad('Seek to byte O, bit %d fails' % b, {})

    def c(self, name, *args, types=None, cls=None):
        fn = fns(self.P, (cls or BB) + '::' + name, *(types or [None] * len(args)))
        if fn is None:
            raise Stop('%s not found' % name)
        r = self.ev.call(fn, list(args), self.h)
        if isinstance(r, L):
            r = self.ev.truth(r) if fn['ret'] == 'bool' else r
        return r

    def pos(self):
        a, b = H(UN, 'u64'), H(UN, 'u64')
        self.c('GetCurrentOffset', B.Ptr(B.One(a), 0), B.Ptr(B.One(b), 0))
        return a.v, b.v

    def at(self, bits, what='the position'):
        """The position is bits after (O, b) (bits: int or linear form)."""
        p, q = self.pos()
        self.want_pos(p, q, add(bits, self.b), what)

    def want_pos(self, p, q, bits, what='the position'):
        ev = self.ev
        expect(ev, add(scale(add(p, self.O, -1), 8), q), bits, what + ' (in bits)')
        if not (ev.cmp('>=', q, 0) and ev.cmp('<=', q, 7)):
            raise Bad('the bit offset is outside 0..7', {})
        expect(ev, self.c('RemainingBitCount'), add(scale(add(self.size, self.O, -1), 8),
                                                    bits, -1), 'the remaining bit count')

    def bit(self, k):
        """Bit k after (O, b)."""
        k += self.b
        j = add(self.O, k // 8)
        return self.ev.bit(('b', str(j) if isinstance(j, L) else j), 7 - k % 8)

    def num(self, frm, w):
        v = 0
        for k in range(w):
            v = add(scale(v, 2), self.bit(frm + k))
        return v


def dombits(n, b, fixed):
    """Value sets of the bytes such that the bits after (O, b) are as given."""
    d = {}
    for k, v in fixed.items():
        k += b
        o = L(0, {('O', -1): 1})
        s = ('b', str(add(o, k // 8)))
        x = d.get(s, B.FULL)
        m = B._BIT[7 - k % 8]
        d[s] = x & m if v else x & ~m & B.FULL
    return d


def ok(r, want, what):
    if r is None or not isinstance(r, int):
        raise Stop('%s returns %r' % (what, r))
    if bool(r) != bool(want):
        raise Bad('%s %s' % (what, 'fails' if want else 'succeeds'), {})


def cases_reader(prog, tier):
    out = []

    def case(key, label, job, dom=None):
        out.append({'key': key, 'label': label, 'job': job, 'dom': dom})

    # construction, positions
    def j_new(ev):
        size = ev.integer('S', 0, 2 ** 32 - 1)
        ctor = [f for f in prog.fns.values() if f.get('ctor') and f.get('cls') == 'T:' + BB and
                len(f['ps']) == 2 and f.get('body') is not None][0]
        o = H(ev.construct('T:' + BB, ctor['m'], [B.Ptr(B.Bytes('b', size), 0), size], None),
              'T:' + BB)
        a, b = H(UN, 'u64'), H(UN, 'u64')
        ev.call(fns(prog, BB + '::GetCurrentOffset', None, None),
                [B.Ptr(B.One(a), 0), B.Ptr(B.One(b), 0)], o)
        expect(ev, a.v, 0, 'the initial byte offset')
        expect(ev, b.v, 0, 'the initial bit offset')
        expect(ev, ev.call(fns(prog, BB + '::RemainingBitCount'), [], o), scale(size, 8),
               'the remaining bit count')
    case('BitBuffer', 'a new reader', j_new)

    # Seek
    for b in range(8):
        for far in ('inside', 'end', 'beyond'):
            for bi in list(range(10)) + [255, 2 ** 32, 2 ** 63, 2 ** 64 - 1]:
                def j(ev, b=b, far=far, bi=bi):
                    r = Reader(ev, prog, 3 if b else 2, b)
                    k = ev.integer('T', 0, BIG)
                    if far == 'inside':
                        # any byte before the end: size = T + 1 + U
                        u = ev.integer('U', 0, 7)
                        r.O  # symbolic size O+n; targets relative to the end
                        t = add(r.size, add(u, 1), -1)
                        if ev.cmp('<', t, 0):
                            return
                    elif far == 'end':
                        t = r.size
                    else:
                        t = add(r.size, add(k, 1))
                    good = bi <= 7 and (far == 'inside' or far == 'end' and bi == 0)
                    ok(r.c('Seek', t, bi), good, 'Seek')
                    p, q = r.pos()
                    if good:
                        expect(ev, p, t, 'the byte offset')
                        expect(ev, q, bi, 'the bit offset')
                    else:
                        r.at(0)
                case('Seek', 'Seek %s the buffer, bit %d, from bit %d' % (far, bi, b), j)

    # widths
    wide = [2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 8]
    for name in ('PeekBits', 'ReadBits'):
        for t, mx in (('u32', 32), ('u64', 64)):
            for b in range(8):
                for w in list(range(1, 74)) + wide:
                    need = (b + min(w, 80) + 7) // 8
                    ns = {need, need + 1}
                    if tier == 'thorough':
                        ns |= {need + 2, need + 5}
                    if need > 0:
                        ns.add(need - 1)
                    if need > 1:
                        ns.add(1)
                    if b == 0:
                        ns.add(0)
                    for n in sorted(x for x in ns if x <= 12 and (x > 0 or b == 0)):
                        def j(ev, name=name, t=t, mx=mx, b=b, w=w, n=n):
                            r = Reader(ev, prog, n, b)
                            v = H(UN, t)
                            good = w <= mx and w <= 8 * n - b
                            ok(r.c(name, w, v, types=(None, 'R<%s>' % t)), good, name)
                            if good:
                                expect(ev, v.v, r.num(0, w), 'the value')
                            r.at(w if good and name == 'ReadBits' else 0)
                        case('%s(%s)' % (name, t), '%s of %d bits at bit %d with %d bits left'
                             % (name, w, b, 8 * n - b), j)
    for name, t, w in (('ReadUInt8', 'u8', 8), ('ReadUInt16', 'u16', 16),
                       ('ReadUInt32', 'u32', 32)):
        for b in range(8):
            for n in range(0 if b == 0 else 1, 7):
                def j(ev, name=name, t=t, w=w, b=b, n=n):
                    r = Reader(ev, prog, n, b)
                    v = H(UN, t)
                    good = w <= 8 * n - b
                    ok(r.c(name, v), good, name)
                    if good:
                        expect(ev, v.v, r.num(0, w), 'the value')
                    r.at(w if good else 0)
                case(name, '%s at bit %d with %d bits left' % (name, b, 8 * n - b), j)
    for b in range(8):
        for n in range(0 if b == 0 else 1, 7):
            for k in range(0, 8):
                def j(ev, b=b, n=n, k=k):
                    r = Reader(ev, prog, n, b)
                    vec = B.Vec([H(UN, 'u8') for _ in range(k)], 'u8', True)
                    good = 8 * k <= 8 * n - b
                    ok(r.c('ReadBytes', k, B.Ptr(vec, 0)), good, 'ReadBytes')
                    if good:
                        for i in range(k):
                            expect(ev, vec.items[i].v, r.num(8 * i, 8), 'byte %d' % i)
                        r.at(8 * k)
                case('ReadBytes', 'ReadBytes of %d at bit %d with %d bits left' % (
                    k, b, 8 * n - b), j)
    # consuming: the count is symbolic
    for b in range(8):
        for low in range(8):
            for n in range(0 if b + low == 0 else 1 if b + low <= 8 else 2, 4):
                def j(ev, b=b, low=low, n=n):
                    # count = 8 K + low, bytes left = K + n
                    r = Reader(ev, prog, 0, 0) if False else None
                    k = ev.integer('K', 0, BIG - 64)
                    r = Reader(ev, prog, add(k, n), b)
                    c = add(scale(k, 8), low)
                    ok(r.c('ConsumeBits', c), True, 'ConsumeBits')
                    r.at(c)
                case('ConsumeBits', 'ConsumeBits of 8K+%d at bit %d' % (low, b), j)
        for n in range(0 if b == 0 else 1, 4):
            for lo, hi in ((1, 8), (9, 2 ** 32), (2 ** 32 + 1, 2 ** 63), (2 ** 63 + 1,
                           2 ** 64 - 1 - 8 * n)):
                def j(ev, b=b, n=n, lo=lo, hi=hi):
                    r = Reader(ev, prog, n, b)
                    c = add(ev.integer('X', lo, hi), 8 * n - b)
                    ok(r.c('ConsumeBits', c), False, 'ConsumeBits')
                    r.at(0)
                case('ConsumeBits', 'ConsumeBits beyond the end at bit %d' % b, j)

                def j(ev, b=b, n=n, lo=lo, hi=hi):
                    r = Reader(ev, prog, n, b)
                    c = add(ev.integer('X', lo if b == 0 else lo - 1, hi), n)
                    ok(r.c('ConsumeBytes', c), False, 'ConsumeBytes')
                    r.at(0)
                case('ConsumeBytes', 'ConsumeBytes beyond the end at bit %d' % b, j)

                def j(ev, b=b, n=n):
                    k = ev.integer('K', 0, BIG - 64)
                    r = Reader(ev, prog, add(k, n), b)
                    ok(r.c('ConsumeBytes', k), True, 'ConsumeBytes')
                    r.at(scale(k, 8))
                case('ConsumeBytes', 'ConsumeBytes of K at bit %d' % b, j)
    # exp-Golomb
    for b in range(8):
        for z in range(0, 36):
            full = 2 * z + 1
            fixed = {k: 0 for k in range(z)}
            fixed[z] = 1
            need = (b + full + 7) // 8
            ns = {need, need + 1}
            ns |= {x for x in (need - 1, (b + z + 1 + 7) // 8) if 8 * x - b > z}
            for n in sorted(x for x in ns if x > 0):
                for signed, nd in ((False, False), (True, False), (False, True)):
                    def j(ev, b=b, z=z, n=n, full=full, signed=signed, nd=nd):
                        ev.ndebug = nd
                        r = Reader(ev, prog, n, b)
                        good = z < 32 and 8 * n - b >= full
                        v = H(UN, 'i32' if signed else 'u32')
                        name = 'ReadSignedExponentialGolomb' if signed else \
                            'ReadExponentialGolomb'
                        ok(r.c(name, v), good, name)
                        if good:
                            k = add(r.num(z + 1, z), (1 << z) - 1)
                            if not signed:
                                expect(ev, v.v, k, 'the value')
                            else:
                                low = r.bit(2 * z) if z else 1
                                # k odd <=> last bit of the suffix is 0 (k = suffix - 1)
                                odd = not ev.truth(low)
                                k = add(r.num(z + 1, z), (1 << z) - 1)
                                # k odd: (k+1)/2, k even: -(k/2)
                                if odd:
                                    w = ev.divmod(add(k, 1), 2)[0]
                                else:
                                    w = scale(ev.divmod(k, 2)[0], -1)
                                expect(ev, v.v, w, 'the value')
                        r.at(full if good else 0)
                    case('se(v)' if signed else 'ue(v)',
                         '%s with %d leading zeros at bit %d, %d bits left%s' % (
                             'se(v)' if signed else 'ue(v)', z, b, 8 * n - b,
                             ' (assertions compiled out)' if nd else ''), j,
                         dombits(n, b, fixed))
        # no stop bit
        for n in range(0 if b == 0 else 1, 6):
            for signed in (False, True):
                def j(ev, b=b, n=n, signed=signed):
                    r = Reader(ev, prog, n, b)
                    v = H(UN, 'i32' if signed else 'u32')
                    name = 'ReadSignedExponentialGolomb' if signed else \
                        'ReadExponentialGolomb'
                    ok(r.c(name, v), False, name)
                    r.at(0)
                case('se(v)' if signed else 'ue(v)', 'no stop bit in %d bits' % (8 * n - b), j,
                     dombits(n, b, {k: 0 for k in range(8 * n - b)}))
    # ns(n)
    for N_ in list(range(2, 34)) + [63, 64, 65, 127, 128, 255, 256, 257, 1000]:
        w = N_.bit_length()
        m = (1 << w) - N_
        for b in ((0, 5) if tier == 'quick' else range(8)):
            for short in (0, 1, 2):
                for n in sorted({(b + w + 7) // 8, (b + w - 1 + 7) // 8}):
                    left = 8 * n - b

                    def j(ev, N_=N_, w=w, m=m, b=b, n=n, left=left):
                        r = Reader(ev, prog, n, b)
                        v = H(UN, 'u32')
                        g = r.c('ReadNonSymmetric', N_, v, types=('u32', None))
                        if left < w - 1:
                            return ok(g, False, 'ReadNonSymmetric')
                        x = r.num(0, w - 1)
                        if ev.cmp('<', x, m):
                            ok(g, True, 'ReadNonSymmetric')
                            expect(ev, v.v, x, 'the value')
                            r.at(w - 1)
                        elif left < w:
                            ok(g, False, 'ReadNonSymmetric')
                        else:
                            ok(g, True, 'ReadNonSymmetric')
                            expect(ev, v.v, add(r.num(0, w), m, -1), 'the value')
                            r.at(w)
                    if short == 0:
                        case('ns(n)', 'ns(%d) at bit %d with %d bits left' % (N_, b, left), j)
    return out


def cases_rbsp(prog, tier):
    out = []

    def case(key, label, job, dom=None):
        out.append({'key': key, 'label': label, 'job': job, 'dom': dom})

    def helper(r, name):
        fn = fns(prog, N + name, None)
        if fn is None:
            raise Stop(name + ' not found')
        v = r.ev.call(fn, [B.Ptr(B.One(r.h), 0)])
        if isinstance(v, L) and fn['ret'] == 'bool':
            v = int(r.ev.truth(v))
        return v
    for b in range(8):
        for n in range(0 if b == 0 else 1, 5):
            for sym in (False, True):
                left = 8 * n - b

                def mk(ev, b=b, n=n, sym=sym):
                    k = ev.integer('K', 0, BIG - 64) if sym else 0
                    return Reader(ev, prog, add(k, n), b)

                def j_al(ev, b=b, mk=mk):
                    r = mk(ev)
                    ok(helper(r, 'byte_aligned'), b == 0, 'byte_aligned')
                    r.at(0)
                case('byte_aligned', 'at bit %d' % b, j_al)

                def j_off(ev, b=b, mk=mk):
                    r = mk(ev)
                    expect(ev, helper(r, 'get_current_offset'), add(r.O, 1 if b else 0),
                           'the number of bytes begun')
                    r.at(0)
                case('get_current_offset', 'at bit %d' % b, j_off)
                if sym and left <= 8:
                    continue

                def j_more(ev, b=b, mk=mk, left=left):
                    r = mk(ev)
                    v = helper(r, 'more_rbsp_data')
                    if left > 8:
                        ok(v, True, 'more_rbsp_data')
                    elif left == 0:
                        ok(v, False, 'more_rbsp_data')
                    else:
                        x = r.num(0, left)
                        ok(v, not ev.cmp('==', x, 1 << (left - 1)), 'more_rbsp_data')
                    r.at(0)
                case('more_rbsp_data', 'with %d%s bits left' % (
                    left, ' or more' if sym else ''), j_more)
        for n in range(0 if b == 0 else 1, 4):
            def j_tr(ev, b=b, n=n):
                r = Reader(ev, prog, n, b)
                left = 8 * n - b
                w = 8 - b
                v = helper(r, 'rbsp_trailing_bits')
                good = left > 0 and ev.cmp('==', r.num(0, w), 1 << (w - 1))
                ok(v, good, 'rbsp_trailing_bits')
                if good:
                    r.at(w)
            case('rbsp_trailing_bits', 'at bit %d with %d bits left' % (b, 8 * n - b), j_tr)
    return out


def cases_writer(prog, tier):
    out = []

    def case(key, label, job, dom=None):
        out.append({'key': key, 'label': label, 'job': job, 'dom': dom})

    class Writer(Reader):
        def __init__(self, ev, n, b):
            self.cells = [H(ev.byte(('b', k)), 'u8') for k in range(n)]
            Reader.__init__(self, ev, prog, n, b, WR, self.cells)

        def w(self, name, *args, types=None):
            return self.c(name, *args, types=types, cls=WR)

        def content(self, bits):
            """The bits written from the position on; all others are unchanged."""
            ev = self.ev
            for k, h in enumerate(self.cells):
                want = 0
                for p in range(8):
                    a = 8 * k + p - self.b
                    x = bits[a] if 0 <= a < len(bits) else ev.bit(('b', k), 7 - p)
                    want = add(scale(want, 2), x)
                expect(ev, h.v, want, 'byte %d of the buffer' % k)

    def vbits(ev, w):
        """The low w bits of the value, most significant first."""
        return [ev.bit(('v', k // 8), k % 8) for k in range(w - 1, -1, -1)]

    def val(ev, w):
        v = 0
        for x in vbits(ev, w):
            v = add(scale(v, 2), x)
        return v

    def check(r, good, bits, g, name):
        ok(g, good, name)
        r.content(bits if good else [])
        r.at(len(bits) if good else 0)
    for b in range(8):
        for w in range(1, 65):
            need = (b + w + 7) // 8
            for n in sorted(x for x in {need - 1, need, need + 1} if x > 0 or b == 0):
                for high in ((False,) if w == 64 else (False, True)):
                    def j(ev, b=b, w=w, n=n, high=high):
                        r = Writer(ev, n, b)
                        # bits of the value above the width are not written
                        g = r.w('WriteBits', val(ev, 64 if high else w), w)
                        check(r, w <= 8 * n - b, vbits(ev, w), g, 'WriteBits')
                    case('WriteBits', 'WriteBits of %d bits at bit %d with %d bits left' % (
                        w, b, 8 * n - b), j)
        for name, w in (('WriteUInt8', 8), ('WriteUInt16', 16), ('WriteUInt32', 32)):
            for n in range(1 if b else 0, 7):
                def j(ev, b=b, w=w, n=n, name=name):
                    r = Writer(ev, n, b)
                    g = r.w(name, val(ev, w))
                    check(r, w <= 8 * n - b, vbits(ev, w), g, name)
                case(name, '%s at bit %d with %d bits left' % (name, b, 8 * n - b), j)
        for z in range(0, 32):
            need = (b + 2 * z + 1 + 7) // 8
            for n in (need - 1, need, need + 1):
                if n < (1 if b else 0):
                    continue

                def j(ev, b=b, z=z, n=n):
                    # value + 1 = 1 followed by z free bits
                    r = Writer(ev, n, b)
                    k = add(val(ev, z), (1 << z) - 1)
                    g = r.w('WriteExponentialGolomb', k)
                    check(r, 2 * z + 1 <= 8 * n - b, [0] * z + [1] + vbits(ev, z), g,
                          'WriteExponentialGolomb')
                case('write ue(v)', '%d leading zeros at bit %d, %d bits left' % (
                    z, b, 8 * n - b), j)

                def js(ev, b=b, z=z, n=n):
                    r = Writer(ev, n, b)
                    k = add(val(ev, z), (1 << z) - 1)
                    odd = not ev.truth(ev.bit(('v', 0), 0)) if z else False
                    k = add(val(ev, z), (1 << z) - 1)
                    if odd:
                        x = ev.divmod(add(k, 1), 2)[0]
                    else:
                        x = scale(ev.divmod(k, 2)[0], -1)
                    g = r.w('WriteSignedExponentialGolomb', x)
                    check(r, 2 * z + 1 <= 8 * n - b, [0] * z + [1] + vbits(ev, z), g,
                          'WriteSignedExponentialGolomb')
                case('write se(v)', '%d leading zeros at bit %d, %d bits left' % (
                    z, b, 8 * n - b), js)

        def jm(ev, b=b):
            r = Writer(ev, 10, b)
            ok(r.w('WriteExponentialGolomb', 2 ** 32 - 1), False, 'WriteExponentialGolomb')
            r.content([])
            r.at(0)
        case('write ue(v)', 'the value that cannot be read back', jm)
    for N_ in list(range(2, 20)) + [31, 32, 33, 255, 256, 257]:
        w = N_.bit_length()
        m = (1 << w) - N_
        for v in (range(N_) if N_ < 20 else (0, m - 1, m, m + 1, N_ - 1)):
            if not 0 <= v < N_:
                continue
            ln = w - 1 if v < m else w
            code = v if v < m else v + m
            for b in (0, 6):
                for n in sorted({(b + ln + 7) // 8, (b + ln + 7) // 8 - 1}):
                    if n < (1 if b else 0):
                        continue

                    def j(ev, N_=N_, v=v, ln=ln, code=code, b=b, n=n):
                        r = Writer(ev, n, b)
                        g = r.w('WriteNonSymmetric', v, N_)
                        check(r, ln <= 8 * n - b, [code >> k & 1 for k in
                                                   range(ln - 1, -1, -1)], g,
                              'WriteNonSymmetric')
                        expect(ev, r.ev.call(fns(prog, WR + '::SizeNonSymmetricBits', None,
                                                 None), [v, N_]), ln, 'the size')
                    case('write ns(n)', 'ns(%d) of %d at bit %d' % (N_, v, b), j)
    return out


def run(ctx, rep, cases):
    prog = ctx.prog('normal')
    res = B.run_cases(prog, cases)
    called = set()
    for r in res:
        called |= r['called']

    def where(key):
        k = key.split('(')[0]
        k = {'ue': 'ReadExponentialGolomb', 'se': 'ReadSignedExponentialGolomb',
             'ns': 'ReadNonSymmetric'}.get(k, k)
        for q in (BB + '::' + k, WR + '::' + k, N + k):
            for f in prog.byq.get(q, []):
                if f.get('body') is not None:
                    return '%s:%s %s' % (f['file'], f['line'], f['q'])
        return 'src/rtc_common.cc'
    B.report(rep, prog, res, where)
    rep.extra['functions_analysed'] = sorted(called)
    rep.extra['parts'] = sum(r['parts'] for r in res)
    rep.samples += [r['label'] for r in res[:: max(1, len(res) // 10)]]


@prop('C20', 'bit provenance: every result of the bit reader is followed, as an exact sum of weighted input '
      'bits, through the lowered IR for every bit offset, width and amount of input left '
      '(the byte offset and the size of the buffer are symbolic), and compared with the '
      'bits it has to consist of; positions and remaining counts are compared as linear '
      'forms; traces are partitioned on input bits only where control flow depends on '
      'them', min=100)
def c20(ctx, rep, tier):
    run(ctx, rep, cases_reader(ctx.prog('normal'), tier))


@prop('C26', 'bit provenance: byte_aligned, more_rbsp_data, rbsp_trailing_bits and the current '
      'offset are evaluated for every bit offset and every content of the last byte (byte '
      'offset and, beyond one byte, the amount left are symbolic) and compared with their '
      'definition', min=20)
def c26(ctx, rep, tier):
    run(ctx, rep, cases_rbsp(ctx.prog('normal'), tier))


@prop('C27', 'bit provenance: every byte of the buffer after a write is followed to the bits it '
      'is made of, for every bit offset, width 1..64 and amount of room left, and compared: '
      'written bits come from the value in order, all other bits are the previous ones',
      min=100)
def c27(ctx, rep, tier):
    run(ctx, rep, cases_writer(ctx.prog('normal'), tier))
