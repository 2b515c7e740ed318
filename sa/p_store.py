"""The parameter-set store: what is put where, who reads what, who else writes."""
import analysis
import idd
import p_fail
import p_pure
import p_syntax
import witness
from analysis import N
from p_effects import closure, walk
from props import prop

SETS = ('vps', 'sps', 'pps')
STATE = N + 'H265BitstreamParserState'
GETTERS = [('GetVps', STATE + '::GetVps', 'GetVps', True),
           ('GetSps', STATE + '::GetSps', 'GetSps', True),
           ('GetPps', STATE + '::GetPps', 'GetPps', True)]


def of_store(e):
    n = e.d.get('map')
    return n and n[-1] in SETS


def erased(rep, sid, m, e, g, stores, where, looks):
    """An entry may be erased only where one is stored under the same key."""
    name, k = e.d['map'], e.d['args'][0] if e.d['args'] else None
    ks = list(m.terminals(m.restrict(k, g))) if isinstance(k, int) and len(
        e.d['args']) == 1 else []
    D = None
    if len(ks) == 1 and idd.is_term(ks[0]):
        D = m.ANDN(g, stores.get((name, ks[0]), m.F))
        if D == m.F:
            return
        w = witness.search(m, D)
        if w is not None:
            rep.violation(sid, 'store', name[-1], 'a stored %s is erased (%s)' % (
                name[-1], witness.show(m, w) or 'every input'), where)
            return
        if m.feasible(D) is None:
            return
    elif ks and not looks and m.feasible(g) is not None and not any(
            isinstance(x, tuple) and x[0] == 'it' for x in ks):
        # by position, and nothing looks at the identifier of the entry
        rep.violation(sid, 'store', name[-1], 'entries of the stored %s are erased without a '
                      'look at their identifier' % name[-1], where)
        return
    rep.undec(sid, 'store', name[-1], 'erase of the stored %s not followed' % name[-1], where)


def failing(ctx, rep, sid):
    """Store changes on the paths where a read or a nested parse fails."""
    r, err = p_fail.mayfail(ctx, sid)
    if r is None:
        rep.undecided.append('%s with failures: not analysed (%s)' % (sid, err[:200]))
        return
    m = r.m
    events = [(e, e.g) for e in r.events if e.g != m.F and
              (e.kind not in ('mapidx',) and not (e.kind == 'mapmut' and
                                                  e.d['meth'] == 'erase'))]
    rep.obligations += insertions(rep, sid, m, events)
    for e, g in events:
        if e.kind != 'mapstore' or not of_store(e) or not isinstance(e.d.get('val'), int):
            continue
        D = m.AND(g, m.bind(e.d['val'], lambda t: m.T if t == ('null',) else m.F))
        if D == m.F:
            continue
        where = '%s:%s %s' % (e.file, e.line, e.fn)
        w = witness.search(m, D)
        if w is not None:
            rep.violation(sid, 'store', e.d['map'][-1], 'an entry without a set is stored when '
                          'its parse fails (%s)' % (witness.show(m, w) or 'every input'), where)
        elif m.feasible(D) is not None:
            rep.undec(sid, 'store', e.d['map'][-1], 'an entry without a set may be stored',
                      where)


def insertions(rep, sid, m, events, looks=True):
    """Store changes outside the ones compared with the reference."""
    stores = {}
    for e, g in events:
        if e.kind == 'mapstore' and of_store(e):
            k = (e.d['map'], e.d['key'])
            stores[k] = m.OR(stores.get(k, m.F), g)
    n = 0
    for e, g in events:
        if not of_store(e):
            continue
        n += 1
        where = '%s:%s %s' % (e.file, e.line, e.fn)
        name = '%s[%s]' % (e.d['map'][-1], idd.show_name(m, ('f',) + (('[', e.d['key']),))
                           if e.d.get('key') is not None else '')
        if e.kind == 'mapmut' and e.d['meth'] == 'erase' and \
                sid.startswith('nal_unit_payload'):
            erased(rep, sid, m, e, g, stores, where, looks)
        elif e.kind == 'mapmut':
            if e.d['meth'] in ('clear', 'swap', 'erase'):
                rep.violation(sid, 'store', e.d['map'][-1], '%s of the stored %s' % (
                    e.d['meth'], e.d['map'][-1]), where)
            else:
                rep.undec(sid, 'store', e.d['map'][-1], '%s of the stored %s not followed' % (
                    e.d['meth'], e.d['map'][-1]), where)
        elif e.kind == 'mapidx':
            present = m.NOT(m.eq0(m.atom(('present', e.d['map'], e.d['key']), 0, 1)))
            D = m.ANDN(g, present)
            D = m.ANDN(D, stores.get((e.d['map'], e.d['key']), m.F))
            if D == m.F:
                continue
            w = witness.search(m, D)
            if w is not None:
                rep.violation(sid, 'insert', e.d['map'][-1], 'an empty entry is put into the '
                              'store when %s is absent (%s)' % (
                                  name, witness.show(m, w) or 'every input'), where)
            elif m.feasible(D) is not None:
                rep.undec(sid, 'insert', e.d['map'][-1], name + ' may be absent', where)
    return n


def lookups(events, m):
    out = {}
    for e, g in events:
        if e.kind in ('lookup', 'mapat', 'mapidx') and of_store(e) and \
                e.d.get('key') is not None:
            k = (e.d['map'][-1], e.d['key'])
            old = out.get(k)
            out[k] = (m.OR(old[0], g) if old else g, e)
    return out


@prop('C16', 'The store operations of every parser (guard, map, key, value) are compared '
      'with the reference: parameter sets stored under their own identifier after a '
      'successful parse and nothing else stored, removed or inserted; the sets a slice '
      'looks up are those the reference looks up, and it is refused when one is absent; '
      'the getters return the entry of the identifier or null.', 20)
def store(ctx, rep, tier):
    W = ctx.world()
    for sid in W.sids:
        c, err = ctx.compare(sid)
        if c is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        m = c.m
        fn = c.c.r.fn
        n = insertions(rep, sid, m, c.c.events, any(
            x[0] == 'mem' and x[4] == 'first' for f in ctx.prog('normal').fns.values()
            if f['file'] == fn['file'] for x in walk(f['body'])))
        if any(STATE in p[1] for p in fn['ps'] if isinstance(p[1], str)) or any(
                STATE in str(p) for p in fn['ps']):
            failing(ctx, rep, sid)
        keyed = any(k[0] in ('read',) and '#state' in k for k in c.s.keys) if False else n
        a, b = lookups(c.c.events, m), lookups(c.s.events, m)
        for k, (g, e) in a.items():
            n += 1
            D = m.ANDN(g, b[k][0]) if k in b else g
            if D == m.F:
                continue
            where = '%s:%s %s' % (e.file, e.line, e.fn)
            nm = '%s[%s]' % (k[0], showkey(m, k[1]))
            stored = any(x.kind == 'mapstore' and of_store(x) and x.d['key'] == k[1]
                         for x, _ in c.c.events)
            if stored:
                continue
            w = witness.search(m, D)
            if w is not None:
                rep.violation(sid, 'lookup', nm, 'uses %s, which is not the set referred to '
                              '(%s)' % (nm, witness.show(m, w) or 'every input'), where)
            elif m.feasible(D) is not None:
                rep.undec(sid, 'lookup', nm, 'uses %s' % nm, where)
        for k, (g, e) in b.items():
            if k not in a:
                rep.undec(sid, 'lookup', showkey(m, k[1]), 'the reference uses %s[%s], the '
                          'parser does not' % (k[0], showkey(m, k[1])),
                          '%s %s' % (c.c.r.fn['file'], c.c.r.fn['q']))
        for f in c.findings:
            if f.kind == 'state' or '#state' in f.key or (
                    b and f.kind in ('accepts', 'rejects') and 'present' in f.text):
                rep.finding(f)
        n += len([k for k in c.s.keys if '#state' in str(k)])
        rep.obligations += n
        if n:
            rep.units.append({'parser': c.c.r.fn['q'], 'store operations': n,
                              'looked up': ['%s[%s]' % (k[0], showkey(m, k[1])) for k in a]})
    for key, q, ref, member in GETTERS:
        n = len(rep.findings)
        p_pure.compare(ctx, rep, key, q, ref, member)
        if all(f.verdict != 'violation' for f in rep.findings[n:]):
            other_entry(ctx, rep, key, q)
    others(ctx, rep)


def other_entry(ctx, rep, key, q):
    """An entry that is taken by position, with no look at its identifier."""
    for f in ctx.prog('normal').byq.get(q, []):
        if not f.get('body'):
            continue
        rep.obligations += 1
        ns = list(walk(f['body']))
        if any(n[0] == 'mem' and n[4] == 'first' for n in ns):
            continue
        for n in ns:
            if n[0] == 'mcall' and str(n[4]).split('::')[-1] in (
                    'begin', 'cbegin', 'rbegin', 'crbegin', 'lower_bound', 'upper_bound') and \
                    'map<' in str(n[4]):
                rep.violation(key, 'position', str(n[4]).split('::')[-1],
                              'takes an entry of the store by position, whatever its identifier',
                              '%s:%s %s' % (f['file'], n[1], f['q']))


def showkey(m, k):
    return idd.show_name(m, ('f', ('[', k))).strip('.[]')


def by_position(ctx, rep):
    """No function a parser calls erases entries it got by going through a store."""
    P = ctx.prog('normal')
    roots = [f for s in ctx.world().sids for f in P.byq.get(analysis.QNAME.get(s, ''), [])]
    roots += [f for f in P.fns.values() if f['file'].startswith('src/') and
              f['q'].split('::')[-1].startswith('Parse')]
    done = set()
    for f in closure(P, roots):
        if f['m'] in done or not f.get('body'):
            continue
        done.add(f['m'])
        ns = list(walk(f['body']))
        if any((n[0] == 'mem' and n[4] == 'first') or
               (n[0] == 'mcall' and n[4].startswith('std::') and
                n[4].split('::')[-1] in ('find', 'lower_bound', 'upper_bound', 'equal_range'))
               for n in ns):
            continue
        rep.obligations += 1
        for n in ns:
            if n[0] != 'mcall' or n[4].split('::')[-1] != 'erase' or len(n[7]) < 1:
                continue
            o = n[5]
            if not (isinstance(o, list) and o and o[0] == 'mem' and o[4] in SETS and
                    STATE in str(o[3][2])):
                continue
            if 'iterator' in str(n[7][0][2]):
                rep.violation(f['q'].split('::')[-1], 'store', o[4], 'entries of the stored %s '
                              'are erased without a look at their identifier' % o[4],
                              '%s:%s %s' % (f['file'], n[1], f['q']))


def others(ctx, rep):
    by_position(ctx, rep)
    """Functions that are not parsers of a structure."""
    import compose
    for fn, m, ev, err in compose.rest(ctx):
        if err:
            continue
        n = insertions(rep, fn['q'].split('::')[-1], m, [(e, e.g) for e in ev])
        rep.obligations += n + 1
    for sid in ctx.world().sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            continue
        for fn, ev, rets, err in compose.each(ctx, sid):
            if err:
                continue
            rep.obligations += insertions(rep, sid + '/' + fn['q'].split('::')[-1], r.m,
                                          [(e, e.g) for e in ev])
