"""Definite initialisation of everything a parser returns."""
import analysis
import idd
import interp
import witness
from props import prop


def uninit_atoms(m):
    return {a for a, nm in enumerate(m.atoms.names)
            if isinstance(nm, tuple) and nm and nm[0] == 'uninit'}


def depends(m, v, un, g):
    """Guard within g under which v depends on an uninitialised value."""
    v = m.restrict(v, g)
    if not (set(m.atoms_of(v)) & un):
        return m.F

    def has(t):
        return isinstance(t, tuple) and len(t) == 3 and t[0] == 'L' and any(
            a in un for a, _ in t[2])
    r = m.where(v, has)
    # tests on an uninitialised value: the two outcomes differ
    tests = [k for k in m.vars_of(v) if any(a in un for a, _ in m.keyterms[k])]
    if tests:
        r = m.OR(r, testing(m, v, set(tests)))
    return m.AND(g, r)


def testing(m, v, keys):
    """Paths of v that reach a test in keys."""
    memo = {}

    def go(n):
        r = memo.get(n)
        if r is None:
            nd = m.nodes[n]
            if nd[0] == idd.INF:
                r = m.F
            elif nd[0] in keys:
                r = m.T
            else:
                r = m.mk(nd[0], nd[1], tuple(go(k) for k in nd[2]))
            memo[n] = r
        return r
    return go(v)


def isptr(t):
    return isinstance(t, tuple) and t and t[0] in ('ptr', 'obj')


def reach(r, events, deep=True):
    """{object root: guard} of everything hanging off the returned object."""
    m = r.m
    out = {}
    work = [(root, r.S) for root in r.roots]
    cells = {}
    for loc, v in r.env.items():
        cells.setdefault(loc[:1], []).append((loc, v))
    pushed = {}
    for e in events:
        if e.kind == 'push' and e.d.get('val') is not None:
            pushed.setdefault(e.d['vec'][:1], []).append(e)
    while work:
        root, g = work.pop()
        old = out.get(root, m.F)
        g = m.OR(old, g)
        if g == old:
            continue
        out[root] = g
        if not deep:
            continue
        vals = [(v, g) for loc, v in cells.get(root[:1], ()) if not isinstance(v, tuple)
                and loc[-1] not in ('#own', '#alias', '#dyn', '#len')]
        vals += [(e.d['val'], m.AND(g, e.g)) for e in pushed.get(root[:1], ())]
        for v, gv in vals:
            for t in set(m.terminals(v)):
                if isptr(t) and isinstance(t[1], tuple):
                    h = m.AND(gv, m.where(v, lambda x, t=t: x == t))
                    if h != m.F:
                        work.append((t[1], h))
    return out


def judge(rep, label, m, D, un, v, key, text, where):
    if D == m.F:
        return
    arr = all(len(m.atoms.names[a]) > 2 for a in set(m.atoms_of(v)) & un)
    w = None if arr else witness.search(m, D)
    if w is not None:
        w = {a: x for a, x in w.items() if a not in un}
        rep.violation(label, 'uninitialised', key, '%s for %s' % (
            text, witness.show(m, w) or 'every input'), where)
    elif m.feasible(D) is not None:
        rep.undec(label, 'uninitialised', key, text + ' when ' + m.show_guard(D, 2), where)


def cellname(I, loc):
    return idd.show_name(I.m, ('f',) + tuple(loc[1:])) if len(loc) > 1 else str(loc)


@prop('C19', 'Definite-assignment analysis over every path (decision diagrams): at every '
      'successful return of a parser each scalar of the returned object and of the objects '
      'hanging off it, and each element appended to its containers, must not depend on a '
      'value that was never written; nor may an accessor, a printed value, the decision to '
      'accept, or a member left by a constructor.', 200)
def init(ctx, rep, tier):
    import compose
    W = ctx.world()
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        m = r.m
        where = '%s:%s %s' % (r.fn['file'], r.fn['line'], r.fn['q'])
        un = uninit_atoms(m)
        objs = reach(r, r.events, deep=sid != 'sei')
        n = 1
        judge(rep, sid, m, depends(m, r.S, un, m.T), un, r.S, 'acceptance',
              'whether the structure is accepted depends on an uninitialised value', where)
        for loc, v in r.env.items():
            if isinstance(v, tuple) or loc[-1] in ('#own', '#alias', '#dyn'):
                continue
            g = next((objs[loc[:i]] for i in range(len(loc), 0, -1) if loc[:i] in objs), None)
            if g is None:
                continue
            n += 1
            nm = '.'.join(str(x) if isinstance(x, str) else '[]' for x in loc[1:])
            judge(rep, sid, m, depends(m, v, un, g), un, v, nm,
                  '%s is returned without having been given a value' % nm, where)
        for e in r.events:
            if e.kind != 'push' or e.d.get('val') is None:
                continue
            g = objs.get(e.d['vec'][:1])
            if g is None:
                continue
            n += 1
            nm = '.'.join(str(x) if isinstance(x, str) else '[]' for x in e.d['vec'][1:])
            judge(rep, sid, m, depends(m, e.d['val'], un, m.AND(g, e.g)), un, e.d['val'], nm,
                  'an element of %s is given no value' % nm, '%s:%s %s' % (
                      e.file, e.line, e.fn))
        rep.obligations += n
        rep.units.append({'parser': r.fn['q'], 'cells': n, 'objects': len(objs)})
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            continue
        m = r.m
        for fn, ev, rets, err in compose.each(ctx, sid):
            if err:
                continue
            un = uninit_atoms(m)
            label = sid + '/' + fn['q'].split('::')[-1]
            where = '%s:%s %s' % (fn['file'], fn['line'], fn['q'])
            vals = [(v, g, 'the result') for g, v, env in rets if isinstance(v, int)]
            for e in ev:
                if e.kind == 'print':
                    vals += [(a, e.g, 'a printed value') for a, _ in e.d['args'] or ()
                             if isinstance(a, int)]
            for v, g, what in vals:
                rep.obligations += 1
                judge(rep, label, m, depends(m, v, un, g), un, v, what,
                      '%s depends on an uninitialised value' % what, where)
    ctors(ctx, rep, {compose.dyn_rec(ctx, W.res[s]) for s in W.sids if s in W.res})


def ctors(ctx, rep, results):
    P = ctx.prog()
    for fn in sorted(P.fns.values(), key=lambda f: f['m']):
        if not fn.get('ctor') or not fn['file'].startswith(('src/', 'include/')):
            continue
        cls = fn['cls'].replace('T:', '')
        rec = P.records.get(cls)
        if rec is None or fn.get('body') is None or cls == 'h265nal::BitBuffer':
            continue
        if cls in results or not (fn['ps'] or rec.get('userctor')):
            continue            # decided on the final states, or never left as it is
        m = idd.IDD()
        loc = (('O', 'new'),)
        where = '%s:%s %s' % (fn['file'], fn['line'], fn['q'])
        o = interp.Options(boundary=dict(analysis.HELPERS))

        def prep(I, st, vs):
            I.ptee[loc] = cls
            I.init_obj(loc, 'T:' + cls, st)
        try:
            I, rets = analysis.run_fn(P, fn, o, m, this=loc, prep=prep)
        except (analysis.Undecided, analysis.Blowup, RecursionError) as ex:
            rep.undecided.append('%s: not analysed (%s)' % (fn['q'], str(ex)[:150]))
            continue
        un = uninit_atoms(m)
        written = {i['field'] for i in fn.get('inits') or () if i.get('field') and
                   i.get('e') is not None}
        for g, v, env in rets:
            for f in rec['fields']:
                if not interp.int_type(f['ty']):
                    continue
                rep.obligations += 1
                x = env.get(loc + (f['n'],))
                if x is None or f['n'] in written or isinstance(x, tuple):
                    continue
                judge(rep, cls.split('::')[-1], m, depends(m, x, un, g), un, x, f['n'],
                      '%s is left without a value by the constructor' % f['n'], where)
        rep.units.append({'constructor': fn['q']})
