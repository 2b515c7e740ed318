"""Runs the gated evaluator over every structure parser of the project."""
import os
import copy
import timelimit
from idd import IDD, INF, Blowup
import interp
from interp import (Interp, Options, Naming, State, Frame, Undecided, targ,
                    trange, int_type, is_ptr, is_obj, unref)

N = 'h265nal::'

# structure id -> qualified name of the parse function taking a bit buffer
PARSERS = [
    ('nal_unit_header', 'H265NalUnitHeaderParser::ParseNalUnitHeader'),
    ('profile_info', 'H265ProfileInfoParser::ParseProfileInfo'),
    ('profile_tier_level', 'H265ProfileTierLevelParser::ParseProfileTierLevel'),
    ('sub_layer_hrd', 'H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters'),
    ('hrd', 'H265HrdParametersParser::ParseHrdParameters'),
    ('vps', 'H265VpsParser::ParseVps'),
    ('vui', 'H265VuiParametersParser::ParseVuiParameters'),
    ('scaling_list_data', 'H265ScalingListDataParser::ParseScalingListData'),
    ('st_ref_pic_set', 'H265StRefPicSetParser::ParseStRefPicSet'),
    ('sps_range_extension', 'H265SpsRangeExtensionParser::ParseSpsRangeExtension'),
    ('sps_multilayer_extension',
     'H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension'),
    ('sps_3d_extension', 'H265Sps3dExtensionParser::ParseSps3dExtension'),
    ('sps_scc_extension', 'H265SpsSccExtensionParser::ParseSpsSccExtension'),
    ('sps', 'H265SpsParser::ParseSps'),
    ('pps_multilayer_extension',
     'H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension'),
    ('pps_scc_extension', 'H265PpsSccExtensionParser::ParsePpsSccExtension'),
    ('pps', 'H265PpsParser::ParsePps'),
    ('aud', 'H265AudParser::ParseAud'),
    ('sei', 'H265SeiMessageParser::ParseSei'),
    ('pred_weight_table', 'H265PredWeightTableParser::ParsePredWeightTable'),
    ('slice_segment_header',
     'H265SliceSegmentHeaderParser::ParseSliceSegmentHeader'),
    ('slice_segment_layer',
     'H265SliceSegmentLayerParser::ParseSliceSegmentLayer'),
    ('nal_unit_payload', 'H265NalUnitPayloadParser::ParseNalUnitPayload'),
    ('nal_unit', 'H265NalUnitParser::ParseNalUnit'),
    ('rtp_single', 'H265RtpSingleParser::ParseRtpSingle'),
    ('rtp_ap', 'H265RtpApParser::ParseRtpAp'),
    ('rtp_fu', 'H265RtpFuParser::ParseRtpFu'),
    ('rtp', 'H265RtpParser::ParseRtp'),
    ('configuration_box',
     'H265ConfigurationBoxParser::ParseConfigurationBox'),
]
QNAME = {s: N + q for s, q in PARSERS}
SID = {N + q: s for s, q in PARSERS}

SEI_PAYLOADS = [
    ('sei_user_data_registered', 'H265SeiUserDataRegisteredItuTT35Parser'),
    ('sei_user_data_unregistered', 'H265SeiUserDataUnregisteredParser'),
    ('sei_alpha_channel_info', 'H265SeiAlphaChannelInfoParser'),
    ('sei_mastering_display', 'H265SeiMasteringDisplayColourVolumeParser'),
    ('sei_content_light_level', 'H265SeiContentLightLevelInfoParser'),
    ('sei_knee_function', 'H265SeiKneeFunctionInfoParser'),
    ('sei_colour_remapping', 'H265SeiColourRemappingInfoParser'),
    ('sei_content_colour_volume', 'H265SeiContentColourVolumeParser'),
    ('sei_alternative_transfer', 'H265SeiAlternativeTransferCharacteristicsParser'),
    ('sei_ambient_viewing', 'H265SeiAmbientViewingEnvironmentParser'),
    ('sei_unknown', 'H265SeiUnknownParser'),
]
for s, c in SEI_PAYLOADS:
    QNAME[s] = N + c + '::parse_payload'


class Vanished(Exception):
    """An anchored function is gone: the check cannot give an answer."""


def find_parser(prog, q):
    """The overload that takes a bit buffer."""
    c = [f for f in prog.byq.get(q, []) if any('BitBuffer' in p[2] for p in f['ps'])]
    if not c:
        raise Vanished('no bit buffer overload of ' + q)
    return max(c, key=lambda f: len(f['ps']))


def rec_of_ret(fn):
    t = unref(fn['ret'])
    if t[:2] in ('U<', 'S<'):
        return targ(t).replace('T:', '')
    return None


def model_more_rbsp(I, e, q, vs, st, this, site):
    m = I.m
    o = I.opq_ord('more_rbsp_data', e)
    I.ev('mrd', st, e[1])
    if I.recording:
        I.readorder.append(('mrd', site))
    return I.m.term(m.atom(('more_rbsp_data', o, len(I.loops)), 0, 1))


def model_trailing(I, e, q, vs, st, this, site):
    m = I.m
    I.ev('trailing', st, e[1], site=site)
    if I.o.may_fail:
        okg = m.NOT(m.eq0(m.atom(('ok', 'trailing', site), 0, 1)))
        I.poison(st, okg, ('trailing', None, e[1]))
        return I.guard2val(okg)
    return m.const(1)


def model_aligned(I, e, q, vs, st, this, site):
    m = I.m
    o = I.opq_ord('byte_aligned', e)
    return m.term(m.atom(('byte_aligned', o, len(I.loops)), 0, 1))


def model_unescape(I, e, q, vs, st, this, site):
    m = I.m
    I.ev('unescape', st, e[1], args=vs)
    loc = (('O', 'unescape') + site,)
    st.env[loc + ('#len',)] = m.term(m.atom(('len', 'unescape', site), 0, interp.MAXU32))
    st.env[loc + ('#own',)] = m.T
    return m.term(('obj', loc))


def model_offset(I, e, q, vs, st, this, site):
    o = I.opq_ord('get_current_offset', e)
    I.ev('bb', st, e[1], meth='get_current_offset', args=[])
    return I.m.term(I.m.atom(('bb', 'get_current_offset', o, len(I.loops)), 0, 2 ** 40))


def model_checksum(I, e, q, vs, st, this, site):
    loc = (('S', 'checksum'),)
    I.ptee[loc] = 'h265nal::NaluChecksum'
    I.ev('checksum', st, e[1])
    return I.m.term(('ptr', loc))


def model_derive(I, e, q, vs, st, this, site):
    """The inter prediction of a short-term RPS: compared on its own."""
    m = I.m
    if this is None:                    # the reference table's spelling
        ts = [t for t in m.terminals(vs[0]) if t[0] == 'ptr']
        if len(ts) != 1:
            raise Undecided('derivation of an unknown set')
        this, vs = ts[0][1], vs[1:]
    I.ev('derive', st, e[1], args=[I.deloc(v, 'Z', st) for v in vs])
    for f in ('num_negative_pics', 'num_positive_pics'):
        st.env[this + (f,)] = m.term(m.atom(('f', '#derived', f), 0, 16))
    for f in ('delta_poc_s0_minus1', 'used_by_curr_pic_s0_flag',
              'delta_poc_s1_minus1', 'used_by_curr_pic_s1_flag'):
        st.env[this + (f, '#len')] = m.term(m.atom(('f', '#derived', f, '#len'), 0, 16))
    return m.term(m.atom(('derived',), 0, 1))


DERIVE = {
    N + 'H265StRefPicSetParser::StRefPicSetState::DeriveValues': {'model': model_derive},
    'h265spec::derive': {'model': model_derive},
}

HELPERS = {
    N + 'more_rbsp_data': {'model': model_more_rbsp},
    N + 'rbsp_trailing_bits': {'model': model_trailing},
    N + 'byte_aligned': {'model': model_aligned},
    N + 'UnescapeRbsp': {'model': model_unescape},
    N + 'get_current_offset': {'model': model_offset},
    N + 'NaluChecksum::GetNaluChecksum': {'model': model_checksum},
}


def boundaries(prog, root=None, extra=None):
    b = dict(HELPERS)
    for sid, q in PARSERS:
        q = N + q
        fns = [f for f in prog.byq.get(q, [])
               if any('BitBuffer' in p[2] for p in f['ps'])]
        if not fns:
            continue
        f = max(fns, key=lambda f: len(f['ps']))
        b[q] = {'rec': rec_of_ret(f), 'n': len(f['ps']),
                'pred': lambda args, n=len(f['ps']): len(args) == n and
                any('BitBuffer' in a[2] for a in args)}
        if q == root:
            b[q]['root'] = True
    # declared but undefined in this configuration: handled as external
    if extra:
        b.update(extra)
    return b


class Structure:
    """Everything the checks need to know about one parser."""

    def __init__(self, sid):
        self.sid = sid
        self.undecided = None


class Summary:
    """Final state of a successfully parsed object, instantiable elsewhere."""

    def __init__(self, m, env, root):
        self.m = m
        self.env = env
        self.root = root

    def lookup(self, I, rel, base):
        """Value of relative location rel of an instance at loc base."""
        loc = (self.root,) + rel
        v = self.env.get(loc)
        if v is None:
            return None
        return rename(I, self.m, v, base)


def rename(I, m, v, base):
    """Rebuild v with every field atom ('f', ...) prefixed by base."""
    cache = {}
    m2 = I.m

    def lin(l):
        out = ('L', l[1], ())
        for a, c in l[2]:
            nm = m.atoms.names[a]
            if not (isinstance(nm, tuple) and nm[0] == 'f'):
                raise KeyError(nm)
            if nm[1:] and isinstance(nm[1], str) and nm[1].startswith('arg'):
                raise KeyError(nm)
            full = I.name(base + nm[1:])
            lo, hi = m.atoms.rng[a]
            out = m2.lin_add(out, m2.atom(full, lo, hi), c)
        return out

    def go(n):
        r = cache.get(n)
        if r is None:
            nd = m.nodes[n]
            if nd[0] == INF:
                t = nd[1]
                if isinstance(t, tuple) and t and t[0] == 'L':
                    t = lin(t)
                elif isinstance(t, tuple) and t and t[0] in ('ptr', 'loc'):
                    pass
                r = m2.term(t)
            else:
                key = lin(('L', 0, m.keyterms[nd[0]]))
                r = go(nd[2][-1])
                for i in range(len(nd[1]) - 1, -1, -1):
                    g = m2.le(('L', key[1] - nd[1][i], key[2]))
                    r = m2.ite(g, go(nd[2][i]), r)
            cache[n] = r
        return r
    try:
        return go(v)
    except KeyError:
        return None


def bind_args(I, fn, st, shape=None):
    """Symbolic arguments for a parse function; canonical names arg<k>."""
    m = I.m
    vs = []
    k = 0
    for name, pid, t in fn['ps']:
        t = t if t else ''
        u = unref(t)
        if 'BitBuffer' in u:
            vs.append(m.term(('ptr', (('S', 'bb'),))))
            continue
        if shape and shape.get('self') and k == 0:
            # the reference of a member function names its object explicitly
            shape = dict(shape, self=False)
            vs.append(m.term(('ptr', (('S', 'this'),))))
            continue
        if 'BitstreamParserState' in u and u.startswith('P<'):
            vs.append(m.term(('ptr', (('S', 'state'),))))
            I.ptee[(('S', 'state'),)] = N + 'H265BitstreamParserState'
            continue
        an = '%s%d' % ((shape or {}).get('prefix', 'arg'), k)
        k += 1
        if shape and an in shape:
            vs.append(shape[an](I, st))
            continue
        if u.startswith('P<'):
            loc = (('S', an),)
            I.ptee[loc] = targ(u).replace('T:', '')
            vs.append(m.term(('ptr', loc)))
        elif u[:2] in ('S<', 'U<'):
            loc = (('S', an),)
            I.ptee[loc] = targ(u).replace('T:', '')
            v = m.term(('ptr', loc))
            if t.startswith('R<') or t.startswith('const R<'):
                l2 = (('S', an + 'p'),)
                st.env[l2] = v
                vs.append(m.term(('loc', l2)))
            else:
                vs.append(v)
        elif int_type(u):
            r = trange(u)
            rr = I.o.ranges.get((an,))
            if rr:
                r = (max(r[0], rr[0]), min(r[1], rr[1]))
            vs.append(m.term(m.atom(('f', an), *r)))
        else:
            loc = (('S', an),)
            I.ptee[loc] = u.replace('T:', '')
            vs.append(m.term(('obj', loc)))
    return vs


STEP = 150      # seconds for one function


def guarded(f, *a):
    """A construct the evaluator cannot follow is undecided, whatever it trips over."""
    try:
        with timelimit.limit(STEP, lambda: Blowup('more than %d s' % STEP)):
            return f(*a)
    except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError) as ex:
        if os.environ.get('H265SA_DEBUG'):
            raise
        raise Undecided('construct not followed (%s: %s)' % (type(ex).__name__, str(ex)[:120]))


def run_fn(prog, fn, opts, m, this=None, prep=None, shape=None):
    """Evaluate one function from a symbolic entry state."""
    I = Interp(prog, opts, m)
    st = State(m.T, {})
    if opts.may_fail:
        st.env[interp.FAILED] = m.term(('none',))
    vs = bind_args(I, fn, st, shape)
    if prep:
        prep(I, st, vs)
    node = ['entry', fn['m']]
    I._entry = node
    fr = I.enter(fn, vs, st, this, ROOTNODE)
    guarded(I.exec, fn['body'], st)
    rets = list(fr.rets)
    if st.g != m.F:
        rets.append((st.g, m.term(('opq', 'void')), st.env))
    I.rets = rets
    I.frames.pop()
    I.ctx = fr.oldctx
    I.depth -= 1
    return I, rets


ROOTNODE = ['entry', 0]


def success(I, rets):
    """(guard, value, env) of the non-null returns, merged."""
    m = I.m
    parts = []
    for g, v, env in rets:
        ok = m.bind(v, lambda t: m.F if isinstance(t, tuple) and t[0] in ('null', 'bad')
                    else m.T)
        gg = m.AND(g, ok)
        if gg == m.F:
            continue
        parts.append((gg, v, env))
    if not parts:
        return m.F, None, {}
    st = State(m.T, {})
    g, v, env = parts[-1]
    for g2, v2, e2 in reversed(parts[:-1]):
        v = m.ite(g2, v2, v)
        env = I.merge_env(g2, e2, env, st)
        g = m.OR(g, g2)
    return g, m.restrict(v, g), env


def root_of(I, val):
    rs = set()
    for t in I.m.terminals(val):
        if isinstance(t, tuple) and t[0] in ('ptr', 'obj'):
            rs.add(t[1])
    return rs


def derive_naming(I):
    """Phase 1 result: destinations of reads, objects and local containers."""
    n = Naming()

    def rank(loc):
        return {'R': 0, 'O': 1, 'S': 1.5}.get(loc[0][0], 2)

    def within(o, x):
        """Does location x depend on object o (an index read from it)?"""
        if x == o:
            return True
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple) and \
                    all(isinstance(y, tuple) and len(y) == 2 for y in x[2]):
                return any(within(o, I.m.atoms.names[a]) for a, c in x[2])
            return any(within(o, y) for y in x)
        return False

    for o, ds in I.objflow.items():
        d = sorted(ds, key=rank)
        best = None
        for x in d:
            if x[0] == o or within(o, x[1:]):
                continue
            if x[0][0] == 'L' and len(x) == 2 and x[1] == '*':
                continue      # held by a local smart pointer
            best = x
            break
        if best is not None:
            n.obj[o] = best
    for s, ds in I.copyflow.items():
        d = sorted((x for x in ds if x != s), key=rank)
        if d:
            n.copy[s] = d[0]
    parts = {}
    for site, fl in I.flows.items():
        cands = [(loc, ex, weak) for loc, ex, weak in fl]
        # strong exact flows to objects first, then inexact, then locals
        def key(c):
            loc, ex, weak = c
            r = rank(loc)
            if r == 2:
                # local container copied into an object counts as object
                for i in range(len(loc), 0, -1):
                    if loc[:i] in n.copy:
                        r = 1
                        break
            return (r >= 2, weak, 0 if ex else 1)
        cands.sort(key=key)
        loc, ex, weak = cands[0]
        if weak and loc[0][0] != 'L':
            strong = [c for c in cands if not c[2]]
            if strong:
                loc, ex, weak = strong[0]
        if loc[0][0] == 'L' and not any(loc[:i] in n.copy for i in range(1, len(loc) + 1)):
            continue        # never leaves the function: anonymous
        n.read[site] = [loc, 0, ex]
    # several co-existing parts of one destination
    bydest = {}
    for site in [s for k, s in I.readorder if k == 'read']:
        r = n.read.get(site)
        if r and not r[2]:
            bydest.setdefault(r[0], []).append(site)
    for d, sites in bydest.items():
        if len(sites) > 1:
            for i, s in enumerate(sites):
                n.read[s][1] = i + 1
    k = 0
    for kind, site in I.readorder:
        if kind == 'read' and site not in n.read and site not in n.anon:
            k += 1
            n.anon[site] = k
    n.obj = {k: I.freeze(v) for k, v in n.obj.items()}
    n.copy = {k: I.freeze(v) for k, v in n.copy.items()}
    n.read = {k: [I.freeze(v[0])] + v[1:] for k, v in n.read.items()}
    return n


def calls(prog):
    """{structure: structures whose parsers it calls} from the call graph."""
    def called(n, out):
        if isinstance(n, list):
            if n and n[0] in ('call', 'mcall') and len(n) > 4:
                out.add((n[3], n[4]))
            for x in n:
                called(x, out)

    out = {}
    for sid, q in QNAME.items():
        todo = [f for f in prog.byq.get(q, []) if f.get('body') is not None]
        seen, sids = set(), set()
        while todo:
            f = todo.pop()
            if f['m'] in seen:
                continue
            seen.add(f['m'])
            cs = set()
            called(f['body'], cs)
            for mangled, cq in cs:
                if cq in SID and SID[cq] != sid:
                    sids.add(SID[cq])
                    continue
                g = prog.fns.get(mangled)
                if g is not None and g.get('body') is not None and g['m'] not in seen:
                    todo.append(g)
        out[sid] = sids
    return out


def below(graph, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += graph.get(x, ())
    return seen


class Result:
    pass


def analyse(prog, sid, qname=None, ranges=None, recranges=None, summaries=None,
            may_fail=False, m=None, fn=None, this=None, naming=None, shape=None,
            extra_boundary=None, prep=None, leninv=None):
    """Two phase evaluation of a parser.  Returns a Result."""
    q = qname or QNAME[sid]
    fn = fn or find_parser(prog, q)
    b = boundaries(prog, root=q, extra=extra_boundary)
    ranges = dict(ranges or {})
    r = Result()
    r.sid, r.fn = sid, fn
    if naming is None:
        opts = Options(boundary=b, naming=None, ranges=ranges,
                       recranges=recranges or {}, summaries=summaries or {},
                       zero_defaults=fn['q'].startswith('h265spec::'),
                       leninv=leninv or {})
        I1, rets1 = run_fn(prog, fn, opts, IDD(), this=this, shape=shape, prep=prep)
        naming = derive_naming(I1)
        # a second run to learn the ranges of the canonical names
        opts = Options(boundary=b, naming=naming, ranges=ranges,
                       recranges=recranges or {}, summaries=summaries or {},
                       zero_defaults=fn['q'].startswith('h265spec::'),
                       leninv=leninv or {})
        I2, rets2 = run_fn(prog, fn, opts, IDD(), this=this, shape=shape, prep=prep)
        for p, x in I2.obs_ranges.items():
            o = ranges.get(p)
            ranges[p] = x if o is None else (min(o[0], x[0]), max(o[1], x[1]))
    r.naming = naming
    r.ranges = ranges
    opts = Options(boundary=b, naming=naming, ranges=ranges, may_fail=may_fail,
                   recranges=recranges or {}, summaries=summaries or {},
                       zero_defaults=fn['q'].startswith('h265spec::'),
                       leninv=leninv or {})
    m = m or IDD()
    I, rets = run_fn(prog, fn, opts, m, this=this, shape=shape, prep=prep)
    r.I, r.m, r.rets, r.opts = I, m, rets, opts
    r.S, r.val, r.env = success(I, rets)
    r.roots = root_of(I, r.val) if r.val is not None else set()
    r.events = I.events
    return r


# ---------------------------------------------------------------- whole program
def _lub(d, k, r):
    o = d.get(k)
    d[k] = r if o is None else (min(o[0], r[0]), max(o[1], r[1]))


def field_ranges(res):
    """{pattern: range} of the object a parser returns, on success."""
    I, m = res.I, res.m
    out = {}
    if res.S == m.F:
        return out
    roots = [r for r in res.roots]
    if not roots:
        return out
    seen = {}

    def own(loc):
        """Components relative to the returned object, or None."""
        for r in roots:
            n = len(r)
            if loc[:n] == r:
                rel = tuple(c for c in loc[n:])
                if '*' in rel:
                    return None
                return rel
        # a local container that ends up in the object
        nm = I.resolve(loc)
        if nm and isinstance(nm[0], tuple):
            return None
        if loc[0][0] in ('S', 'G'):
            return None
        return nm if nm and isinstance(nm[0], str) else None
    # final scalars
    for loc, v in res.env.items():
        if isinstance(v, tuple) or loc[-1] in ('#own', '#alias', '#dyn'):
            continue
        rel = own(loc)
        if rel is None:
            continue
        p = I.pattern(rel)
        if p and p[-1] == '#each':
            p = p[:-1] + ('[]',)
        ts = m.terminals(v)
        if not all(isinstance(t, tuple) and t and t[0] == 'L' for t in ts):
            continue
        _lub(out, p, I.vrange(m.restrict(v, res.S), res.S))
    # elements: every value ever written to a cell
    for e in res.events:
        if e.kind == 'push':
            rel = own(e.d['vec'])
            v = e.d['val']
            if rel is None or v is None:
                continue
            p = I.pattern(rel) + ('[]',)
            _vals(I, m, out, p, v, e.g)
        elif e.kind in ('store', 'read'):
            lv = e.d['lv'] if e.kind == 'store' else e.d['dst']
            for t in m.terminals(lv):
                if not (isinstance(t, tuple) and t[0] == 'loc'):
                    continue
                rel = own(t[1])
                if rel is None or not any(isinstance(c, tuple) for c in rel):
                    continue
                p = I.pattern(rel)
                if e.kind == 'store':
                    _vals(I, m, out, p, e.d['val'], e.g)
                else:
                    q = I.pattern(e.d['name'][1:])
                    r = I.obs_ranges.get(q)
                    if r:
                        _lub(out, p, r)
        elif e.kind == 'alloc' and e.d.get('vec') is not None:
            rel = own(e.d['vec'])
            if rel is not None:
                _lub(out, I.pattern(rel) + ('[]',), (0, 0))
    return out


def _vals(I, m, out, p, v, g):
    ts = m.terminals(v)
    if all(isinstance(t, tuple) and t and t[0] == 'L' for t in ts):
        _lub(out, p, I.vrange(m.restrict(v, g), g))


class World:
    """All structures, analysed with mutually consistent value ranges."""

    def __init__(self, prog, sids=None, rounds=2, limits=None):
        self.prog = prog
        self.res = {}
        self.recranges = {}
        self.argranges = {}
        self.summaries = {}
        self.failed = {}
        sids = sids or [s for s, _ in PARSERS] + [s for s, _ in SEI_PAYLOADS]
        self.sids = sids
        self.callers = {}
        for rnd in range(rounds):
            self._round(rnd)
        if limits:
            self.recranges = limits(self.recranges)

    def _round(self, rnd):
        rec2, arg2 = {}, {}
        done = set()
        callers = {}
        # callers first: their argument values bound the callee's parameters
        for sid in reversed(self.sids):
            q = QNAME[sid]
            if rnd and self.callers.get(q) and self.callers[q] <= done:
                self.argranges[q] = arg2.get(q, self.argranges.get(q, {}))
            done.add(sid)
            try:
                r = self.analyse(sid)
            except (Undecided, Blowup, RecursionError) as ex:
                self.failed[sid] = '%s: %s' % (type(ex).__name__, ex)
                continue
            self.failed.pop(sid, None)
            self.res[sid] = r
            rec = self.rec(r)
            if rec:
                d = rec2.setdefault(rec, {})
                for p, x in field_ranges(r).items():
                    _lub(d, p, x)
            for e in r.events:
                if e.kind != 'sub':
                    continue
                k = 0
                callers.setdefault(e.d['q'], set()).add(sid)
                for pt, v in e.d['args']:
                    if 'BitstreamParserState' in pt:
                        continue
                    if int_type(pt):
                        rr = r.I.vrange(r.m.restrict(v, e.g), e.g)
                        _lub(arg2.setdefault(e.d['q'], {}), k, rr)
                    k += 1
        self.recranges, self.argranges, self.callers = rec2, arg2, callers

    def rec(self, r):
        rs = set()
        for root in r.roots:
            t = r.I.ltype.get(root)
            if t and t.startswith('T:'):
                rs.add(t[2:])
        return rs.pop() if len(rs) == 1 else rec_of_ret(r.fn)

    def arg_ranges(self, q):
        out = {}
        for k, x in self.argranges.get(q, {}).items():
            out[('arg%d' % k,)] = x
        return out

    def analyse(self, sid, **kw):
        q = QNAME[sid]
        rg = self.arg_ranges(q)
        rg.update(kw.pop('ranges', {}))
        rr = kw.pop('recranges', None)
        sm = kw.pop('summaries', self.summaries)
        return analyse(self.prog, sid, ranges=rg,
                       recranges=self.recranges if rr is None else rr,
                       summaries=sm, **kw)
