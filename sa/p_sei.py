"""The accumulated type and size of SEI messages, over symbolic bytes."""
import bitflow as B
from analysis import N
from bitflow import H, Bad, Stop, expect

PARSE = N + 'H265SeiMessageParser::ParseSei'
PAYLOAD = '::parse_payload'
KNOWN = (4, 5, 137, 141, 142, 144, 148, 0, 1, 2, 3, 6, 136, 138, 143, 147, 149, 200, 254)


def job(prog, fn, nt, ns, left, hooks):
    """nt and ns bytes 0xff before the last one of type and size."""
    def run(ev):
        n = nt + 1 + ns + 1 + left
        data = B.Bytes('b', n)
        ctor = hooks['ctor']
        o = H(ev.construct('T:' + N + 'BitBuffer', ctor['m'], [B.Ptr(data, 0), n], None),
              'T:' + N + 'BitBuffer')
        seen = []

        def payload(ev, e, args):
            seen.append((ev.val(args[1]), e))
            return None
        ev.hooks = {q: payload for q in hooks['payloads']}
        ev.hooks.update({k: (lambda ev, e, a: 0) for k in ('fprintf', 'fputs', 'puts')})
        r = ev.call(fn, [B.Ptr(B.One(o), 0)])
        r = r.v if isinstance(r, H) else r
        if r is None:
            raise Bad('a message that is complete is refused', {})
        s = ev.deref(r).v
        t = B.add(255 * nt, ev.at(data, nt).v)
        z = B.add(255 * ns, ev.at(data, nt + 1 + ns).v)
        expect(ev, s.f['payload_type'].v, t, 'payload_type')
        expect(ev, s.f['payload_size'].v, z, 'payload_size')
        if not seen:
            raise Stop('the payload is not handed to a parse_payload method')
        if len(seen) != 1:
            raise Bad('%d payloads are parsed instead of 1' % len(seen), {})
        expect(ev, seen[0][0], z, 'the size of the payload handed on')
    return run


def run(ctx, rep, tier):
    prog = ctx.prog('normal')
    fs = [f for f in prog.byq.get(PARSE, []) if f.get('body') is not None and len(f['ps']) == 1]
    ctor = [f for f in prog.fns.values() if f.get('ctor') and f.get('cls') == 'T:' + N + 'BitBuffer'
            and len(f['ps']) == 2 and f.get('body') is not None]
    if not fs or not ctor:
        rep.undec('sei', 'find', 'ParseSei', 'not found')
        return
    pay = {f['q'] for f in prog.fns.values() if f['q'].endswith(PAYLOAD)} | \
        {f['q'] for f in prog.protos.values() if f['q'].endswith(PAYLOAD)} | \
        {N + 'H265SeiPayloadParser' + PAYLOAD}
    hooks = {'ctor': ctor[0], 'payloads': pay}
    cases = []
    top = 3 if tier == 'quick' else 5
    for nt in range(top):
        for ns in range(top):
            # the last byte of the type one of a few, that of the size any
            for last in KNOWN if ns == 0 else KNOWN[:4]:
                dom = {('b', i): 1 << 255 for i in range(nt + 1 + ns + 1)}
                dom[('b', nt)] = 1 << last
                dom[('b', nt + 1 + ns)] = (1 << 255) - 1
                cases.append({'key': 'sei', 'label': '%d and %d bytes 0xff before type and size' % (
                    nt, ns), 'dom': dom, 'job': job(prog, fs[0], nt, ns, 255 * (ns + 1), hooks),
                    'limit': 20000})
    B.report(rep, prog, B.run_cases(prog, cases),
             lambda k: '%s:%s' % (fs[0]['file'], fs[0]['line']))
