"""Agreement of every syntax-structure parser with its reference table."""
from props import prop

GROUPS = {
    'C01': ['nal_unit_header', 'profile_info', 'profile_tier_level', 'sub_layer_hrd',
            'hrd', 'vps', 'vui', 'aud'],
    'C02': ['scaling_list_data', 'st_ref_pic_set', 'sps_range_extension',
            'sps_multilayer_extension', 'sps_3d_extension', 'sps_scc_extension', 'sps'],
    'C03': ['pps_multilayer_extension', 'pps_scc_extension', 'pps'],
    'C04': ['pred_weight_table', 'slice_segment_header', 'slice_segment_layer'],
    'C05': None,
    'C06': ['nal_unit_payload', 'nal_unit', 'rtp_single', 'rtp_ap', 'rtp_fu', 'rtp',
            'configuration_box'],
}


def sids_of(ctx, pid):
    g = GROUPS[pid]
    if g is None:
        g = [s for s in ctx.world().sids if s.startswith('sei')]
    return g


def run_cmp(ctx, rep, sids, kinds=None):
    done = 0
    for sid in sids:
        c, err = ctx.compare(sid)
        if c is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            rep.units.append({'structure': sid, 'undecided': err[:200]})
            continue
        done += 1
        n = c.checked if kinds is None else max(1, len(
            [f for f in c.findings if f.kind in kinds]) + len(c.c.rejs) + len(c.s.rejs))
        rep.obligations += n
        rep.units.append({'structure': sid, 'function': c.c.r.fn['q'],
                          'obligations': n, 'events': len(c.c.events),
                          'refusals': len(c.c.rejs)})
        for k in list(c.s.keys)[:2]:
            rep.samples.append('%s: %s' % (sid, c.kstr(k)))
        for f in c.findings:
            if kinds is None or f.kind in kinds:
                rep.finding(f)
    return done


RULE = ('The parser and the reference syntax table are evaluated over decision '
        'diagrams (gated dataflow, every path, loops by symbolic iteration); '
        'every decoded element (presence condition, descriptor, width, position), '
        'every nested structure with its arguments, every refusal and every '
        'stored or inferred value must agree. A difference is a violation only '
        'with a concrete valuation that exhibits it.')


def mk(pid, what, minimum):
    @prop(pid, RULE + ' Structures: ' + what, minimum)
    def fn(ctx, rep, tier, pid=pid):
        run_cmp(ctx, rep, sids_of(ctx, pid))
        import p_gaps
        p_gaps.run(ctx, rep, pid)
        if pid == 'C05':
            import p_sei
            p_sei.run(ctx, rep, tier)
    return fn


mk('C01', 'NAL unit header, profile/tier/level, HRD, VPS, VUI, AUD.', 200)
mk('C02', 'SPS and everything it contains.', 200)
mk('C03', 'PPS and its extensions.', 100)
mk('C04', 'slice segment header and prediction weight table.', 200)
mk('C05', 'SEI messages and every supported payload.', 100)
mk('C06', 'NAL units, RTP payloads and the configuration box.', 50)


@prop('C09', 'Set of refused structures of every parser equals that of the '
      'reference tables (both inclusions, on decision diagrams of all decoded '
      'elements).', 30)
def ranges(ctx, rep, tier):
    run_cmp(ctx, rep, ctx.world().sids, kinds=('accepts', 'rejects'))
