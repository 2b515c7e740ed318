"""Derived values that are computed by whole procedures: the contents of an inter
predicted short-term reference picture set (7-61, 7-62) and the luma quantisation
parameter of a slice (7-54).  Both are followed with symbolic values over every shape
of their input up to a bound."""
import bitflow as B
from bitflow import Bad, H, L, Stop, UN, add, expect
from analysis import N

RPS = 'T:' + N + 'H265StRefPicSetParser::StRefPicSetState'
DERIVE = N + 'H265StRefPicSetParser::StRefPicSetState::DeriveValues'
QP = N + 'H265Utils::GetSliceQpY'
TOP = 32767


def new(ev, t, **kw):
    h = H(ev.object(t, True), t)
    for k, v in kw.items():
        f = h.v.f.get(k)
        if f is None:
            raise Stop('no member ' + k)
        if isinstance(v, list):
            et = f.v.et
            f.v.items[:] = [H(x, B.unref(et)) for x in v]
        else:
            f.v = v
    return h


def owned(h):
    return B.Ptr(B.One(h), 0)


# ------------------------------------------------- reference picture sets
def shapes(tier):
    """(n, p, sign, place, equal, free flags): every case of the candidate picture
    against the pictures of the set it is predicted from."""
    out = []
    small = 3 if tier == 'quick' else 5
    for total in range(small + 1):
        for n in range(total + 1):
            p = total - n
            for sign in (0, 1):
                q = n if sign == 0 else p       # the list that moves away from 0
                del q
                k = p if sign else n            # the list that crosses it
                for place in range(k + 1):
                    for equal in ((False, True) if place < k else (False,)):
                        out.append((n, p, sign, place, equal, None))
    for n, p in ((15, 0), (0, 15), (8, 7), (3, 12)):
        for sign in (0, 1):
            k = p if sign else n
            for place in sorted({0, k // 2, k}):
                out.append((n, p, sign, place, False, 1))
                if place < k:
                    out.append((n, p, sign, place, True, 1))
    return out


def rps_case(fn, n, p, sign, place, equal, flags):
    """The pictures of the list that crosses zero lie before the candidate up to
    `place`, and (equal) the next one on it."""
    def job(ev):
        tot = n + p
        lim = TOP // (tot + 3)
        cross, m = ('b', p) if sign else ('a', n), None
        # distances: those that make up the candidate are bounded so that it fits
        d = {}
        for name, cnt in (('a', n), ('b', p)):
            for i in range(cnt):
                near = name == cross[0] and i < place
                d[name, i] = ev.integer('%s%d' % (name, i), 0, lim if near else TOP)
        pos = 0
        for i in range(place):
            pos = add(pos, add(d[cross[0], i], 1))
        e = ev.integer('e', 1, lim)
        m = add(pos, e)                                     # |DeltaRps|
        if place < cross[1]:
            f = 0 if equal else ev.integer('f', 1, lim)
            d[cross[0], place] = add(add(e, f), -1)
        use = [ev.integer('u%d' % j, 0, 1) if flags is None else flags
               for j in range(tot + 1)]
        cur = [ev.integer('c%d' % j, 0, 1) for j in range(tot + 1)]
        ref = new(ev, RPS, num_negative_pics=n, num_positive_pics=p,
                  delta_poc_s0_minus1=[d['a', i] for i in range(n)],
                  delta_poc_s1_minus1=[d['b', i] for i in range(p)])
        me = new(ev, RPS, inter_ref_pic_set_prediction_flag=1, delta_rps_sign=sign,
                 abs_delta_rps_minus1=add(m, -1), use_delta_flag=list(use),
                 used_by_curr_pic_flag=list(cur))
        sets = H(B.Vec([H(None, 'U<%s>' % RPS), H(owned(ref), 'U<%s>' % RPS)],
                       'U<%s>' % RPS), 'V<U<%s>>' % RPS)
        ok = ev.call(fn, [B.Ptr(B.One(sets), 0), 1], me)
        if not ev.truth(ok):
            raise Bad('the set is refused', {})
        # 7-61, 7-62
        s0, s1, x = [], [], 0
        for i in range(n):
            x = add(x, add(d['a', i], 1), -1)
            s0.append(x)
        x = 0
        for i in range(p):
            x = add(x, add(d['b', i], 1))
            s1.append(x)
        delta = B.scale(m, -1) if sign else m

        def pick(op, first, second):
            r = []
            for xs, base, order in (first, (None, tot, None), second):
                js = [0] if xs is None else (
                    range(len(xs)) if order > 0 else range(len(xs) - 1, -1, -1))
                for j in js:
                    v = delta if xs is None else add(xs[j], delta)
                    if ev.truth(use[base + j]) and ev.cmp(op, v, 0):
                        r.append((v, cur[base + j]))
            return r
        neg = pick('<', (s1, n, -1), (s0, 0, 1))
        pos = pick('>', (s0, 0, -1), (s1, n, 1))
        for lst, cnt, dl, us, sg in (
                (neg, 'num_negative_pics', 'delta_poc_s0_minus1', 'used_by_curr_pic_s0_flag', -1),
                (pos, 'num_positive_pics', 'delta_poc_s1_minus1', 'used_by_curr_pic_s1_flag', 1)):
            expect(ev, me.v.f[cnt].v, len(lst), cnt)
            for nm in (dl, us):
                if len(me.v.f[nm].v.items) != len(lst):
                    raise Bad('%d entries in %s instead of %d' % (
                        len(me.v.f[nm].v.items), nm, len(lst)), {})
            prev = 0
            for i, (v, c) in enumerate(lst):
                expect(ev, me.v.f[dl].v.items[i].v, add(B.scale(add(v, prev, -1), sg), -1),
                       '%s[%d]' % (dl, i))
                expect(ev, me.v.f[us].v.items[i].v, c, '%s[%d]' % (us, i))
                prev = v
        if ref.v.f['num_negative_pics'].v != n or ref.v.f['num_positive_pics'].v != p:
            raise Bad('the set it is predicted from changes', {})
    return {'key': 'DeriveValues', 'label': '%d negative and %d positive pictures, DeltaRps %s, '
            'after %d of them%s' % (n, p, '< 0' if sign else '> 0', place,
                                    ', equal to the next' if equal else ''),
            'job': job, 'cost': 3 ** (n + p)}


def rps_cases(prog, tier):
    fns = [f for f in prog.byq.get(DERIVE, []) if f.get('body') is not None]
    if len(fns) != 1 or len(fns[0]['ps']) != 2:
        return []
    return [rps_case(fns[0], *s) for s in shapes(tier)]


# ------------------------------------------------- slice QP
PAY = 'T:' + N + 'H265NalUnitPayloadParser::NalUnitPayloadState'
LAYER = 'T:' + N + 'H265SliceSegmentLayerParser::SliceSegmentLayerState'
SHDR = 'T:' + N + 'H265SliceSegmentHeaderParser::SliceSegmentHeaderState'
HDR = 'T:' + N + 'H265NalUnitHeaderParser::NalUnitHeaderState'
NAL = 'T:' + N + 'H265NalUnitParser::NalUnitState'
PPS = 'T:' + N + 'H265PpsParser::PpsState'
STATE = 'T:' + N + 'H265BitstreamParserState'
RTP = 'T:' + N + 'H265RtpParser::RtpState'
SINGLE = 'T:' + N + 'H265RtpSingleParser::RtpSingleState'
AP = 'T:' + N + 'H265RtpApParser::RtpApState'
FU = 'T:' + N + 'H265RtpFuParser::RtpFuState'
BSTATE = 'T:' + N + 'H265BitstreamParser::BitstreamState'


class Unit:
    """A NAL unit of any type with any payload."""

    def __init__(self, ev, k, lo=0, hi=63, depth=None):
        self.k = k
        self.type = ev.integer('type%d' % k, lo, hi)
        self.header = owned(new(ev, HDR, nal_unit_type=self.type,
                                nuh_layer_id=ev.integer('layer%d' % k, 0, 63)))
        self.id = ev.integer('pps%d' % k, 0, 63)
        self.delta = ev.integer('delta%d' % k, -2 ** 30, 2 ** 30)
        self.depth = ev.fix(ev.integer('depth%d' % k, 0, 2)) if depth is None else depth
        h = l = None
        if self.depth > 1:
            h = owned(new(ev, SHDR, slice_pic_parameter_set_id=self.id,
                          slice_qp_delta=self.delta, nal_unit_type=self.type))
        if self.depth > 0:
            l = owned(new(ev, LAYER, slice_segment_header=h))
        self.payload = owned(new(ev, PAY, slice_segment_layer=l))


def lookup(ev, e, args):
    """GetPps: the set with the identifier of each unit, present or not, as it is
    after the NAL units parsed so far."""
    v = ev.val(args[0])
    for u in ev.units:
        if v == u.id:
            return pps(ev, u.k)
    return owned(new(ev, PPS, init_qp_minus26=ev.integer('other', -62, 25)))


def pps(ev, k):
    at = len(ev.log)
    if not ev.truth(ev.integer('has%d@%d' % (k, at), 0, 1)):
        return None
    return owned(new(ev, PPS, init_qp_minus26=ev.integer('init%d@%d' % (k, at), -62, 25)))


def qp_of(ev, u, at=0):
    """7-54, with the parameter set in force after `at` NAL units."""
    t = u.type
    if not (ev.cmp('<=', t, 9) or (ev.cmp('>=', t, 16) and ev.cmp('<=', t, 21))):
        return None
    if u.depth < 2 or not ev.truth(ev.integer('has%d@%d' % (u.k, at), 0, 1)):
        return None
    return add(add(ev.integer('init%d@%d' % (u.k, at), -62, 25), 26), u.delta)


def qp_cases(prog, tier):
    out = []
    hooks = {N + 'H265BitstreamParserState::GetPps': lookup}
    for f in prog.byq.get(QP, []):
        if f.get('body') is None:
            continue
        if len(f['ps']) == 2 and 'RtpState' in f['ps'][0][2]:
            for kind in range(4 if tier == 'quick' else 5):
                out.append({'key': QP, 'label': ('a single NAL unit packet', 'an aggregation packet',
                                                 'a fragment', 'any other packet',
                                                 'an aggregation packet of three')[kind],
                            'job': rtp_job(f, kind), 'hooks': hooks})
        elif len(f['ps']) == 3:
            for n in (0, 1, 2):
                hk = dict(hooks)
                hk[N + 'H265NalUnitParser::ParseNalUnit'] = unit_hook
                # four bytes of start code and header each, two of payload
                dom = {('b', i): 1 << (0, 0, 1, 2, 2)[i % 5] for i in range(5 * n)}
                out.append({'key': QP, 'label': 'a stream of %d NAL units' % n, 'dom': dom,
                            'job': stream_job(f, n), 'hooks': hk, 'limit': 100000})
    return out


def rtp_job(f, kind):
    def job(ev):
        st = owned(H(B.Obj(STATE, {}), STATE))
        kw = {}
        used = None
        if kind == 0:
            u = Unit(ev, 0, 0, 47)
            ev.units = [u]
            kw = dict(nal_unit_header=owned(new(ev, HDR, nal_unit_type=u.type)),
                      rtp_single=owned(new(ev, SINGLE, nal_unit_header=u.header,
                                           nal_unit_payload=u.payload)))
            used = u
        elif kind in (1, 4):
            n = 3 if kind == 4 else ev.fix(ev.integer('units', 0, 2))
            ev.units = [Unit(ev, k, depth=None if k == n - 1 else 2) for k in range(n)]
            head = new(ev, HDR, nal_unit_type=48)
            kw = dict(nal_unit_header=owned(new(ev, HDR, nal_unit_type=48)),
                      rtp_ap=owned(new(ev, AP, header=owned(head),
                                       nal_unit_sizes=[9] * n,
                                       nal_unit_headers=[u.header for u in ev.units],
                                       nal_unit_payloads=[u.payload for u in ev.units])))
            used = ev.units[-1] if n else None
        elif kind == 2:
            u = Unit(ev, 0)
            ev.units = [u]
            s = ev.integer('s', 0, 1)
            start = ev.truth(s)
            kw = dict(nal_unit_header=owned(new(ev, HDR, nal_unit_type=49)),
                      rtp_fu=owned(new(ev, FU, header=owned(new(ev, HDR, nal_unit_type=49)),
                                       s_bit=1 if start else 0, e_bit=ev.integer('end', 0, 1),
                                       fu_type=u.type,
                                       nal_unit_payload=u.payload if start else None)))
            used = u if start else None
        else:
            ev.units = []
            kw = dict(nal_unit_header=owned(new(ev, HDR, nal_unit_type=ev.integer('t', 50, 63))))
        r = ev.call(f, [H(owned(new(ev, RTP, **kw)), 'U<%s>' % RTP), st])
        r = r.v if isinstance(r, H) else r
        want = qp_of(ev, used) if used is not None else None
        one(ev, r, want)
    return job


def one(ev, r, want):
    if (r is None) != (want is None):
        raise Bad('no value' if r is None else 'a value instead of none', {})
    if want is not None:
        expect(ev, ev.deref(r).v, want, 'the slice QP')


def unit_hook(ev, e, args):
    """ParseNalUnit: any unit, or none."""
    if len(args) != 4 or B.strip_cv(args[0][2]).startswith('P<T:'):
        return NotImplemented
    vs = [ev.val(a) for a in args[:3]]
    if not isinstance(vs[2], B.Ptr) or vs[2].seq is not ev.state.seq:
        raise Bad('a NAL unit is not parsed with the given parser state', {})
    k = len(ev.log)
    if k >= len(ev.units):
        raise Bad('more NAL units are parsed than there are', {})
    if not isinstance(vs[0], B.Ptr) or vs[0].seq is not ev.data:
        raise Stop('data of a NAL unit')
    expect(ev, vs[0].i, 5 * k + 3, 'the offset of NAL unit %d' % k)
    expect(ev, vs[1], 2, 'the length of NAL unit %d' % k)
    ev.log.append(k)
    u = ev.units[k]
    if not u.ok:
        return None
    return owned(new(ev, NAL, nal_unit_header=u.header, nal_unit_payload=u.payload))


def stream_job(f, n):
    def job(ev):
        ev.units = [Unit(ev, k) for k in range(n)]
        for u in ev.units:
            u.ok = ev.truth(ev.integer('ok%d' % u.k, 0, 1))
        ev.state = owned(H(B.Obj(STATE, {}), STATE))
        ev.data = B.Bytes('b', 5 * n)
        r = ev.call(f, [B.Ptr(ev.data, 0), 5 * n, ev.state])
        r = r.v if isinstance(r, H) else r
        if not isinstance(r, B.Vec):
            raise Stop('result %r' % (r,))
        if len(ev.log) != n:
            raise Bad('%d NAL units are parsed instead of %d' % (len(ev.log), n), {})
        want = [q for q in (qp_of(ev, u, u.k + 1) for u in ev.units if u.ok) if q is not None]
        if len(r.items) != len(want):
            raise Bad('%d values instead of %d' % (len(r.items), len(want)), {})
        for i, (h, q) in enumerate(zip(r.items, want)):
            expect(ev, h.v, q, 'slice QP %d' % i)
    return job


def run(ctx, rep, tier):
    prog = ctx.prog('normal')
    cases = rps_cases(prog, tier) + qp_cases(prog, tier)

    def where(key):
        for q in (key, DERIVE):
            for f in prog.byq.get(q, []):
                if f.get('body') is not None and (q == key or key == 'DeriveValues'):
                    return '%s:%s %s' % (f['file'], f['line'], f['q'])
        return 'src/h265_utils.cc'
    if not any(c['key'] == 'DeriveValues' for c in cases):
        rep.undecided.append('DeriveValues not found')
    if not any(c['key'] == QP for c in cases):
        rep.undecided.append('GetSliceQpY not found')
    res = B.run_cases(prog, cases)
    B.report(rep, prog, res, where)
    rep.extra['parts'] = sum(r['parts'] for r in res)
