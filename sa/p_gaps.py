"""Parts of the standard the library is known not to implement (known findings).

Each is decided from the construct that would have to be there; when it is there,
nothing is reported and the reference tables have to be extended."""
from p_effects import walk, callee

READERS = ('BitBuffer::Seek', 'BitBuffer::ConsumeBits', 'BitBuffer::ConsumeBytes',
           'UnescapeRbsp')


def strip(n):
    while isinstance(n, list) and n and n[0] in ('cast', 'ld', 'paren', 'tmp'):
        n = n[4] if n[0] == 'cast' else n[3]
    return n


def of(prog, q):
    return [f for f in prog.fns.values() if f['q'].endswith(q) and f.get('body') is not None]


def fields(prog, rec):
    for k, r in prog.records.items():
        if k.endswith('::' + rec):
            return {f['n']: f['ty'] for f in r['fields']}
    return None


def hrd_list(prog):
    fs = fields(prog, 'VpsState')
    if fs is None or 'hrd_parameters' not in fs:
        return None
    return 'V<' in fs['hrd_parameters'].split('T:')[0]


def hrd_inherit(prog):
    """The parser of a hrd_parameters() without common information is given the ones before."""
    fs = [f for f in of(prog, 'H265HrdParametersParser::ParseHrdParameters')]
    if not fs:
        return None
    return any('HrdParametersState' in str(p) for f in fs for p in f['ps'])


def lists_modification(prog):
    n = 0
    for f in prog.fns.values():
        if not f['file'].startswith('src/') or f.get('body') is None:
            continue
        for x in walk(f['body']):
            if x[0] == 'asg' and isinstance(x[4], list) and x[4][0] == 'mem' and \
                    x[4][4] == 'NumPicTotalCurr':
                n += 1
                r = strip(x[5])
                if not (isinstance(r, list) and r[0] == 'int' and int(r[3]) == 0):
                    return True
    return False if n else None


def weights_l1(prog):
    fs = [f for f in prog.fns.values()
          if f['file'] == 'src/h265_pred_weight_table_parser.cc' and not f.get('const')]
    seen = False
    for f in fs:
        for x in walk(f.get('body') or []):
            seen = seen or (x[0] == 'mem' and '_l0' in str(x[4]))
            if x[0] == 'asg':
                tgt = [x[4]]
            elif x[0] == 'mcall' and (x[4] or '').split('::')[-1] in (
                    'push_back', 'emplace_back', 'resize', 'assign', 'insert'):
                tgt = [x[5]]
            else:
                continue
            if any(y[0] == 'mem' and '_l1' in str(y[4]) for y in walk(tgt)):
                return True
    return False if seen else None


def ap_confined(prog):
    fs = [f for f in prog.fns.values() if f['file'] == 'src/h265_rtp_ap_parser.cc'
          and f.get('body') is not None]
    loops = [x for f in fs for x in walk(f['body'])
             if x[0] in ('for', 'while', 'do', 'forrange') and any(
                 (callee(y)[1] or '').endswith('ParseNalUnitPayload') or
                 (callee(y)[1] or '').endswith('ParseNalUnit') for y in walk(x))]
    if not loops:
        return None
    for x in loops:
        for y in walk(x):
            q = callee(y)[1] or ''
            if q.endswith(READERS) or q.endswith(('ReadBytes', 'ParseNalUnitUnescaped')):
                return True
            if y[0] == 'ctor' and 'BitBuffer' in str(y[3]):
                return True
    return False


def sei_messages(prog):
    """sei_rbsp() is a list of messages."""
    fs = fields(prog, 'NalUnitPayloadState')
    if fs is None or not any('SeiMessageState' in t for t in fs.values()):
        return None
    return any('V<' in t.split('T:')[0] and 'SeiMessageState' in t for t in fs.values())


GAPS = {
    'C05': [
        ('sei', 'messages', sei_messages, 'src/h265_nal_unit_payload_parser.cc',
         'every sei_message() of an SEI NAL unit is decoded'),
    ],
    'C01': [
        ('vps', 'hrd_list', hrd_list, 'src/h265_vps_parser.cc',
         'every hrd_parameters() of a video parameter set has its own place in the result'),
        ('hrd', 'inherit', hrd_inherit, 'src/h265_hrd_parameters_parser.cc',
         'hrd_parameters() without common information takes it from the one before'),
    ],
    'C04': [
        ('slice_segment_header', 'ref_pic_lists_modification', lists_modification,
         'src/h265_slice_parser.cc',
         'ref_pic_lists_modification() is decoded when NumPicTotalCurr is above 1'),
        ('pred_weight_table', 'list1', weights_l1, 'src/h265_pred_weight_table_parser.cc',
         'the weights of list 1 of B slices are decoded'),
    ],
    'C06': [
        ('rtp_ap', 'confine', ap_confined, 'src/h265_rtp_ap_parser.cc',
         'a unit of an aggregation packet ends where its announced size says'),
    ],
}


def run(ctx, rep, pid):
    if pid not in GAPS:
        return
    prog = ctx.prog('normal')
    for sid, key, fn, where, what in GAPS[pid]:
        rep.obligations += 1
        ok = fn(prog)
        if ok is None:
            rep.undec(sid, 'gap', key, 'not found: ' + what, where)
        elif not ok:
            rep.violation(sid, 'gap', key, 'not so: ' + what, where)
