"""Methods of returned structures, evaluated on exactly the states their parsers
can return: the final abstract state of the parser (every success path merged) is
the entry state of the method, so presence flags, counts, sizes and absent
members keep their relations."""
import analysis
import idd
import interp
import nulls
import p_safe
from interp import State


def plain_result(ctx, sid, **kw):
    W = ctx.world()
    try:
        return W.analyse(sid, may_fail=True, leninv=p_safe.LENINV,
                         prep=p_safe.PRE.get(sid), **kw), None
    except (analysis.Undecided, analysis.Blowup, RecursionError, analysis.Vanished) as ex:
        return None, '%s: %s' % (type(ex).__name__, ex)


def first_result(ctx, sid):
    k = ('plain', sid)
    if k not in ctx.memo:
        ctx.memo[k] = plain_result(ctx, sid)
    return ctx.memo[k]


def null_facts(ctx):
    if 'nulls' not in ctx.memo:
        ctx.memo['nulls'] = nulls.build(ctx, lambda sid: first_result(ctx, sid))
    return ctx.memo['nulls']


def parser_result(ctx, sid):
    """Final states of a parser, given what its inputs' parsers guarantee."""
    k = ('safe', sid)
    if k not in ctx.memo:
        sm = null_facts(ctx)
        r, err = first_result(ctx, sid)
        if r is not None and any(isinstance(n, tuple) and n and n[0] == 'nonnull'
                                 for n in r.m.atoms.names):
            r, err = plain_result(ctx, sid, summaries=sm)
        ctx.memo[k] = (r, err)
    return ctx.memo[k]


def methods_of(prog, rec):
    out = []
    for q, fns in prog.byq.items():
        if not q.startswith(rec + '::') or q.count('::') != rec.count('::') + 1:
            continue
        name = q.split('::')[-1]
        if name == rec.split('::')[-1] or name.startswith('~') or name.startswith('operator'):
            continue
        for fn in fns:
            if fn.get('body') is not None and not fn.get('static') and fn.get('const'):
                out.append(fn)
    return sorted(out, key=lambda f: (f['q'], len(f['ps'])))


def users_of(prog, rec):
    """Public utilities that take a returned structure."""
    out = []
    for q, fns in prog.byq.items():
        if not q.startswith('h265nal::H265Utils::'):
            continue
        for fn in fns:
            if fn.get('body') is not None and any(takes(p[2], rec) for p in fn['ps']):
                out.append(fn)
    return sorted(out, key=lambda f: (f['q'], len(f['ps'])))


def dyn_rec(ctx, r):
    """Most derived class of the returned object."""
    rs = set()
    for root in r.roots:
        d = r.env.get(root + ('#dyn',))
        if d is not None and r.m.is_term(d):
            rs.add(r.m.val(d)[1])
    return rs.pop() if len(rs) == 1 else ctx.world().rec(r)


def takes(t, rec):
    u = interp.unref(t or '')
    return u[:2] in ('U<', 'S<', 'P<') and \
        interp.targ(u).replace('T:', '').replace('const ', '') == rec


def run_method(ctx, r, fn, root, sid=None):
    """Evaluate a method on the returned object; (new events, returns)."""
    I, m = r.I, r.m
    n0 = len(I.events)
    st = State(m.AND(r.S, m.bind(r.val, lambda t: m.T if isinstance(t, tuple) and
                                 t[0] in ('ptr', 'obj') and t[1] == root else m.F)),
               dict(r.env))
    if st.g == m.F:
        return [], []
    vs = analysis.bind_args(I, fn, st, {'prefix': 'q'})
    for i, (p, v) in enumerate(zip(fn['ps'], vs)):
        # indentation: nesting depth, or -1 for one line
        if interp.unref(p[2]) == 'i32' and fn['q'].endswith('fdump') and m.is_term(v):
            st.g = m.AND(st.g, m.AND(m.le(lin_add(m, v, -1, -1)), m.le(lin_add(m, v, 1, -10000))))
    rec = dyn_rec(ctx, r)
    if rec:
        I.ptee[root] = rec
    this = root
    for i, p in enumerate(fn['ps']):
        if takes(p[2], rec):
            this = None
            ptr = m.term(('ptr', root))
            t = m.val(vs[i])
            if t[0] == 'loc':
                st.env[t[1]] = ptr
            else:
                vs[i] = ptr
    I.o.summaries = null_facts(ctx)
    I.frames = []
    I.loops = ()
    I.ctx = ()
    I.depth = 0
    I.recording = True
    node = ['compose', fn['m']]
    ctx.memo[('entry', sid, fn['m'])] = st.g
    fr = I.enter(fn, vs, st, this, node)
    analysis.guarded(I.exec, fn['body'], st)
    rets = list(fr.rets)
    if st.g != m.F:
        rets.append((st.g, m.term(('opq', 'void')), st.env))
    I.frames = []
    ev = I.events[n0:]
    del I.events[n0:]
    return ev, rets


def lin_add(m, v, s, c):
    t = m.val(v)
    return ('L', s * t[1] + c, tuple((a, s * k) for a, k in t[2]))


def each(ctx, sid):
    """(fn, events, returns, error) of every const method of the result of sid."""
    k = ('compose', sid)
    if k in ctx.memo:
        return ctx.memo[k]
    out = []
    r, err = parser_result(ctx, sid)
    if r is not None:
        W = ctx.world()
        rec = dyn_rec(ctx, r)
        for fn in (methods_of(W.prog, rec) + users_of(W.prog, rec)) if rec else []:
            for root in sorted(r.roots, key=str):
                try:
                    ev, rets = run_method(ctx, r, fn, root, sid)
                    out.append((fn, ev, rets, None))
                except (analysis.Undecided, analysis.Blowup, RecursionError) as ex:
                    out.append((fn, [], [], '%s: %s' % (type(ex).__name__, ex)))
    ctx.memo[k] = out
    return out


def rest(ctx, may_fail=False):
    """[(fn, m, events, error)] of the remaining library functions nobody calls:
    analysed on their own, on arguments of any value."""
    if ('rest', may_fail) in ctx.memo:
        return ctx.memo['rest', may_fail]
    W = ctx.world()
    P = W.prog
    parsers = {analysis.QNAME[s] for s in W.sids}
    recs = {dyn_rec(ctx, W.res[s]) for s in W.sids if s in W.res}
    out = []
    b = analysis.boundaries(P)
    for q in sorted(P.byq):
        if q.startswith('h265spec') or 'BitBuffer' in q:
            continue
        for fn in P.byq[q]:
            if fn.get('body') is None or not fn['file'].startswith(('src/', 'include/')):
                continue
            cls = (fn.get('cls') or '').replace('T:', '')
            name = q.split('::')[-1]
            if any(fn is W.res[s].fn for s in W.sids if s in W.res):
                continue
            if cls in recs and not fn.get('static'):
                continue
            if '(anonymous namespace)' in q or name.startswith(('operator', '~')):
                continue
            if name == cls.split('::')[-1]:
                continue
            if name == 'DeriveValues' or name.startswith('indent_level') or \
                    name == 'fdump_indent_level' or name == 'parse_payload':
                continue
            if any(takes(p[2], rc) for p in fn['ps'] for rc in recs) and \
                    q.startswith('h265nal::H265Utils::'):
                continue
            m = idd.IDD()
            this = (('S', 'this'),) if cls and not fn.get('static') else None

            def prep(I, st, vs):
                if this:
                    I.ptee[this] = cls
            o = interp.Options(boundary=b, recranges=W.recranges, leninv=p_safe.LENINV,
                               may_fail=may_fail)
            o.summaries = null_facts(ctx)
            try:
                I, rets = analysis.run_fn(P, fn, o, m, this=this, prep=prep)
                out.append((fn, m, I.events, None))
            except (analysis.Undecided, analysis.Blowup, RecursionError) as ex:
                out.append((fn, m, [], '%s: %s' % (type(ex).__name__, ex)))
    ctx.memo['rest', may_fail] = out
    return out

