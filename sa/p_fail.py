"""Failed reads and failed nested structures never yield a result."""
from props import prop
import interp
from analysis import Undecided, Blowup, Vanished
from idd import show_name
import witness


def mayfail(ctx, sid):
    k = ('mayfail', sid)
    if k not in ctx.memo:
        try:
            ctx.memo[k] = (ctx.world().analyse(sid, may_fail=True), None)
        except (Undecided, Blowup, RecursionError, Vanished) as ex:
            ctx.memo[k] = (None, '%s: %s' % (type(ex).__name__, ex))
    return ctx.memo[k]


def tolerated(sid, lab):
    """Failures the interface documents as leaving an absent member."""
    kind, what, line, file, fn = lab[1:6]
    if sid == 'nal_unit_payload' and kind == 'sub':
        return True                   # the payload keeps a null member
    if sid == 'configuration_box' and kind == 'sub':
        return True                   # the array keeps a null entry
    if sid == 'sei' and kind == 'read':
        # a message keeps its type and size although its payload is bad; the
        # payload parsers are checked on their own
        return what[1] == 'payload_state' or fn.endswith('::parse_payload') or \
            (isinstance(what[1], str) and what[1].startswith('$') and
             not fn.endswith('::ParseSei'))
    return False


def scan(ctx, rep, kind):
    W = ctx.world()
    for sid in W.sids:
        r, err = mayfail(ctx, sid)
        if r is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        m = r.m
        ev = [e for e in r.events if e.kind == kind]
        rep.obligations += len(ev)
        rep.units.append({'structure': sid, 'function': r.fn['q'], 'sites': len(ev),
                          'returns': len(r.rets)})
        if ev:
            rep.samples.append('%s: %s:%s %s' % (sid, ev[0].file, ev[0].line, kind))
        seen = set()
        for g, v, env in r.rets:
            ok = m.AND(g, m.bind(v, lambda t: m.F if isinstance(t, tuple) and t[0] in
                                 ('null', 'bad') else m.T))
            f = env.get(interp.FAILED)
            if ok == m.F or f is None:
                continue
            for t in m.terminals(f):
                if t[0] != 'failed' or t[1] != kind or tolerated(sid, t):
                    continue
                D = m.AND(ok, m.where(f, lambda y, t=t: y == t))
                if D == m.F:
                    continue
                if kind == 'read':
                    what = show_name(m, t[2])
                else:
                    what = t[2].split('::')[-1]
                key = what
                if key in seen:
                    continue
                free = {a for a in m.atoms_of(D)
                        if m.atoms.names[a][0] in ('ok', 'loopfail', 'nofail', 'T', 'phx', 'brk',
                                                   'call', 'bbok', 'truth')}
                w = witness.search(m, D, free)
                text = 'a result is returned although %s fails%s' % (
                    'reading ' + what if kind == 'read' else what,
                    '' if w is None else ' for ' + witness.show(m, w))
                where = '%s:%s %s' % (t[4], t[3], t[5])
                if w is None:
                    if m.feasible(D) is None:
                        continue
                    rep.undec(sid, 'failed-' + kind, key, text, where)
                else:
                    seen.add(key)
                    rep.violation(sid, 'failed-' + kind, key, text, where)


@prop('C07', 'Every bit-buffer read of every parser is evaluated with an unknown '
      'outcome; the mark of a failed read is propagated along all paths (joins, '
      'loops, inlined helpers) and must not reach a return of a result.', 300)
def reads(ctx, rep, tier):
    scan(ctx, rep, 'read')


@prop('C08', 'Every nested structure parse is evaluated with an unknown outcome; '
      'the mark of a failed nested parse must not reach a return of a result, '
      'except for the members documented as possibly absent (members of a NAL '
      'unit payload, NAL units of a configuration box).', 20)
def subs(ctx, rep, tier):
    scan(ctx, rep, 'sub')
