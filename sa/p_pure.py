"""Classification functions, names and derived values against their references:
both are evaluated over the same symbolic arguments; the results must be equal
diagrams."""
import analysis
import conform
import idd
import interp
import witness
from analysis import N
from props import prop

# (key, function, reference, member function)
NAMES = [
    ('slice-segment', N + 'IsSliceSegment', 'IsSliceSegment', False),
    ('vcl', N + 'IsNalUnitTypeVcl', 'IsNalUnitTypeVcl', False),
    ('non-vcl', N + 'IsNalUnitTypeNonVcl', 'IsNalUnitTypeNonVcl', False),
    ('unspecified', N + 'IsNalUnitTypeUnspecified', 'IsNalUnitTypeUnspecified', False),
    ('nal-unit-type-name', N + 'NalUnitTypeToString', 'NalUnitTypeToString', False),
    ('profile', N + 'H265ProfileInfoParser::ProfileInfoState::GetProfileType',
     'GetProfileType', True),
    ('profile-name', N + 'profileTypeToString', 'profileTypeToString', False),
]
SPS = N + 'H265SpsParser::SpsState::get'
DERIVED = [
    ('MinCbLog2SizeY', SPS + 'MinCbLog2SizeY', 'MinCbLog2SizeY', True),
    ('CtbLog2SizeY', SPS + 'CtbLog2SizeY', 'CtbLog2SizeY', True),
    ('MinCbSizeY', SPS + 'MinCbSizeY', 'MinCbSizeY', True),
    ('CtbSizeY', SPS + 'CtbSizeY', 'CtbSizeY', True),
    ('PicWidthInMinCbsY', SPS + 'PicWidthInMinCbsY', 'PicWidthInMinCbsY', True),
    ('PicHeightInMinCbsY', SPS + 'PicHeightInMinCbsY', 'PicHeightInMinCbsY', True),
    ('PicWidthInCtbsY', SPS + 'PicWidthInCtbsY', 'PicWidthInCtbsY', True),
    ('PicHeightInCtbsY', SPS + 'PicHeightInCtbsY', 'PicHeightInCtbsY', True),
    ('PicSizeInMinCbsY', SPS + 'PicSizeInMinCbsY', 'PicSizeInMinCbsY', True),
    ('PicSizeInCtbsY', SPS + 'PicSizeInCtbsY', 'PicSizeInCtbsY', True),
    ('PicSizeInSamplesY', SPS + 'PicSizeInSamplesY', 'PicSizeInSamplesY', True),
    ('SubWidthC', SPS + 'SubWidthC', 'SubWidthC', True),
    ('SubHeightC', SPS + 'SubHeightC', 'SubHeightC', True),
    ('resolution', SPS + 'Resolution', 'Resolution', True),
    ('MaxNumNegativePics', SPS + 'MaxNumNegativePics', 'MaxNumNegativePics', True),
    ('framerate', N + 'H265VuiParametersParser::VuiParametersState::getFramerate',
     'Framerate', True),
    ('entry-points', N + 'H265SliceSegmentHeaderParser::SliceSegmentHeaderState::'
     'isValidNumEntryPointOffsets', 'ValidEntryPoints', True),
    ('indent-incr', N + 'indent_level_incr', 'indent_incr', False),
    ('indent-decr', N + 'indent_level_decr', 'indent_decr', False),
]

# Derived values the slice segment header stores.
HEADER = ['ChromaArrayType']


def evaluate(prog, fn, m, recranges, member, ref, **kw):
    """{output: diagram} of a function on symbolic arguments."""
    o = interp.Options(boundary=dict(analysis.HELPERS), recranges=recranges, **kw)
    this, prep, shape = None, None, None
    if member and not ref:
        this = (('S', 'this'),)
        cls = fn['cls'].replace('T:', '')

        def prep(I, st, vs):
            I.ptee[this] = cls
    elif member:
        shape = {'self': True}
        this = None

        def prep(I, st, vs):
            I.ptee[(('S', 'this'),)] = interp.targ(interp.unref(fn['ps'][0][2])).replace(
                'T:', '').replace('const ', '')
    I, rets = analysis.run_fn(prog, fn, o, m, this=this, prep=prep, shape=shape)
    out = {}
    total = m.F
    merged = None
    val = None
    for g, v, env in rets:
        if g == m.F:
            continue
        if fn['ret'] == 'str':
            v = I.strcontent(v, interp.State(g, env))
        if merged is None:
            merged, val, total = env, v, g
        else:
            st = interp.State(m.T, {})
            merged = I.merge_env(g, env, merged, st)
            val = m.ite(g, v, val)
            total = m.OR(total, g)
    if val is None:
        raise analysis.Undecided('no return')
    out['return'] = val
    for loc, v in merged.items():
        if isinstance(v, tuple) or loc[-1] in ('#own', '#alias', '#dyn'):
            continue
        if loc[0][0] == 'S':
            out[tuple(I.name(loc)) if loc[-1] != '#str' else
                tuple(I.name(loc[:-1])) + ('#str',)] = v
    return I, out, total


def compare(ctx, rep, key, q, ref, member, config='normal', **kw):
    W = ctx.world(config)
    prog = W.prog
    fns = [f for f in prog.byq.get(q, []) if f.get('body') is not None]
    spec = prog.byq['h265spec::pure::' + ref][0]
    fns = [f for f in fns if len(f['ps']) == len(spec['ps']) - (1 if member else 0)] or fns
    if not fns:
        rep.undecided.append('%s: function not found' % key)
        return
    fn = fns[0]
    where = '%s:%s %s' % (fn['file'], fn['line'], fn['q'])
    m = idd.IDD()
    try:
        I, a, ga = evaluate(prog, fn, m, W.recranges, member, False, **kw)
        J, b, gb = evaluate(prog, spec, m, W.recranges, member, True, **kw)
    except (analysis.Undecided, analysis.Blowup, RecursionError) as ex:
        rep.undecided.append('%s: not analysed (%s)' % (key, str(ex)[:200]))
        rep.units.append({'function': q, 'undecided': str(ex)[:200]})
        return
    n = 0
    for k in dict.fromkeys(list(b) + list(a)):
        if k not in a and k not in b:
            continue
        n += 1
        va, vb = a.get(k), b.get(k)
        name = k if isinstance(k, str) else idd.show_name(m, k)
        if va is None or vb is None:
            # untouched on one side: keeps its value on entry
            v = va if va is not None else vb
            if k[-1] == '#str':
                other = m.term(('strin', k[:-1]))
            else:
                base = m.atoms.ids.get(k)
                if base is None:
                    rep.undec(key, 'output', name, 'output only on one side', where)
                    continue
                other = m.term(('L', 0, ((base, 1),)))
            va, vb = (v, other) if va is not None else (other, v)
        D = m.bind2(va, vb, lambda x, y: differ(m, x, y))
        D = m.AND(D, m.AND(ga, gb))
        op = m.OR(m.where(va, conform.opaque_terminal), m.where(vb, conform.opaque_terminal))
        D2 = m.ANDN(D, op)
        if D == m.F:
            continue
        if D2 == m.F:
            rep.undec(key, 'value', name, 'value not followed', where)
            continue
        w = witness.search(m, D2, ())
        if w is None:
            if m.feasible(D2) is not None:
                rep.undec(key, 'value', name, 'differs when ' + m.show_guard(D2, 2), where)
            continue
        rep.violation(key, 'value', name, '%s differs from the reference for %s' % (
            name, witness.show(m, w) or 'every input'), where)
    # combinations decided: paths of the reference
    paths = len(list(m.sat_paths(m.T, 1))) + sum(
        len(list(m.terminals(v))) for v in b.values())
    rep.obligations += n + paths
    rep.units.append({'function': fn['q'], 'outputs': n, 'distinct results': paths})
    rep.samples.append('%s: %d outputs' % (key, n))


def differ(m, x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and x[:2] == ('flop', '/') and \
            y[:2] == ('flop', '/') and len(x) == 4 and len(y) == 4:
        r = m.F
        for a, b in zip(x[2:], y[2:]):
            r = m.OR(r, conform.neq(m, a, b))
        return r
    return conform.neq(m, x, y)


@prop('C15', 'Every classification and naming function is evaluated over all values '
      'of its arguments (decision diagrams) and compared with Tables 7-1, A.2, A.3, '
      'A.5, A.7 and H.11.1.1.', 100)
def names(ctx, rep, tier):
    for key, q, ref, member in NAMES:
        compare(ctx, rep, key, q, ref, member)


@prop('C23', 'Every accessor is evaluated over all values of the fields it reads '
      'within the ranges the parsers accept, and compared with the formula of the '
      'standard as a diagram over linear and interpreted terms.  The prediction of reference '
      'picture sets and the slice QP of streams and packets are followed with symbolic values '
      'over every shape of their input up to a bound.', 20)
def derived(ctx, rep, tier):
    for key, q, ref, member in DERIVED:
        compare(ctx, rep, key, q, ref, member)
    c, err = ctx.compare('slice_segment_header')
    if c is None:
        rep.undecided.append('slice_segment_header: not analysed (%s)' % err[:200])
    else:
        rep.obligations += len(HEADER)
        rep.units.append({'structure': 'slice_segment_header', 'derived': HEADER,
                          'function': c.c.r.fn['q']})
        for f in c.findings:
            if f.kind == 'value' and f.key in HEADER:
                rep.finding(f)
    import p_derive
    p_derive.run(ctx, rep, tier)
