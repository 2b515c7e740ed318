"""Byte-array entry points (C28): each decodes all its bytes exactly as the bit-reader
overload does."""
import analysis
import idd
import interp
import p_safe
import witness
from interp import State, unref, targ, int_type
from p_safe import lin
from props import prop

N = 'h265nal::'
# these take bytes that carry no emulation prevention
RAW = {N + 'H265ConfigurationBoxParser::ParseConfigurationBox',
       N + 'H265NalUnitParser::ParseNalUnitUnescaped'}
MUT = ('push', 'alloc', 'vecmut', 'store', 'mem', 'stdcall')


def entries(P, recs):
    out = []
    for q in sorted(P.byq):
        if not q.startswith(N) or 'BitBuffer' in q:
            continue
        for fn in P.byq[q]:
            ts = [unref(p[2] or '') for p in fn['ps']]
            if fn.get('body') is None or ts[:2] != ['P<const u8>', 'u64']:
                continue
            rec = analysis.rec_of_ret(fn)
            if rec in recs:
                out.append((fn, rec))
    return out


def base_of(I, t):
    """Location a data pointer points into."""
    if isinstance(t, tuple) and t and t[0] == 'ptr':
        return t[1]
    return None


def short(m, g):
    """g without empty inputs: how those are refused does not matter."""
    for a in m.atoms_of(g):
        if m.atoms.names[a] == ('f', 'arg1'):
            g = m.AND(g, m.le(('L', 1, ((a, -1),))))
    return g


class Entry:
    def __init__(self, ctx, rep, fn, rec, recs):
        self.ctx, self.rep, self.fn, self.rec = ctx, rep, fn, rec
        self.key = fn['q'] + '/%d' % len(fn['ps'])
        self.where = '%s:%s %s' % (fn['file'], fn['line'], fn['q'])
        self.m = m = idd.IDD()
        W = ctx.world()
        self.P = W.prog
        o = interp.Options(boundary=analysis.boundaries(W.prog), recranges=W.recranges,
                           leninv=p_safe.LENINV)
        o.keep_env = True
        self.vals = None

        def prep(I, st, vs):
            self.vals = list(vs)
        self.I, self.rets = analysis.run_fn(W.prog, fn, o, m, prep=prep)
        self.ev = self.I.events

    def bad(self, kind, text, g=None):
        m = self.m
        if g is not None:
            g = short(m, g)
            w = witness.search(m, g, ()) if g != m.F else None
            if w is None:
                if g != m.F:
                    self.rep.undec(self.key, kind, self.key, text, self.where)
                return
            text += ' for ' + (witness.show(m, w) or 'every input')
        self.rep.violation(self.key, kind, self.fn['q'], text, self.where)

    def undec(self, kind, text):
        self.rep.undec(self.key, kind, self.key, text, self.where)

    def differs(self, a, b):
        """Where two values differ (integers), or None when not comparable."""
        m = self.m
        if a == b:
            return m.F
        ok = [True]

        def f(x, y):
            if lin(x) and lin(y):
                return m.NOT(m.eq0(m.lin_add(x, y, -1)))
            if x == y:
                return m.F
            if isinstance(x, tuple) and isinstance(y, tuple) and \
                    x[0] in ('ptr', 'null') and y[0] in ('ptr', 'null'):
                return m.T
            ok[0] = False
            return m.F
        r = m.bind2(a, b, f)
        return r if ok[0] else None

    def same(self, kind, what, a, b, g):
        d = self.differs(a, b)
        self.rep.obligations += 1
        if d is None:
            self.undec(kind, what + ': values not comparable')
        elif self.m.AND(g, d) != self.m.F:
            self.bad(kind, what, self.m.AND(g, d))

    def run(self):
        m, rep, ev = self.m, self.rep, self.ev
        subs = [e for e in ev if e.kind == 'sub']
        mine = [e for e in subs if e.d.get('rec') == self.rec]
        rep.obligations += 1
        if not mine:
            self.undec('delegates', 'no call of a bit-reader overload followed')
            return
        if len(subs) != len(mine) or any(e.loops for e in subs):
            self.undec('delegates', 'more than one parser called')
            return
        self.sources(ev, mine)
        for e in ev:
            if e.kind in ('read', 'trailing') or e.kind == 'bb' and e.d.get('meth') not in (
                    'RemainingBitCount', 'GetCurrentOffset', 'get_current_offset'):
                rep.obligations += 1
                self.bad('position', 'the reader is moved by %s:%s before or after the structure '
                         'is parsed' % (e.file, e.line), e.g)
        done = m.F
        for e in mine:
            done = m.OR(done, e.g)
            self.args(e)
        rep.obligations += 1
        gap = m.NOT(done)
        if gap != m.F:
            self.bad('delegates', 'the bytes are not parsed', gap)
        # the result is what was parsed
        for g, v, env in self.rets:
            for t in set(m.terminals(v)):
                gt = m.AND(g, m.where(v, lambda y, t=t: y == t))
                if gt == m.F:
                    continue
                rep.obligations += 1
                loc = base_of(self.I, t)
                ok = m.F
                for e in mine:
                    if loc is not None and loc == e.d['loc']:
                        ok = m.OR(ok, e.g)
                rest = m.ANDN(gt, ok)
                if rest == m.F:
                    continue
                if t == ('null',):
                    self.bad('result', 'nothing is returned', rest)
                elif loc is None:
                    self.undec('result', 'result not followed: %s' % (t,))
                else:
                    self.bad('result', 'another structure is returned', rest)
                    continue
        for e in ev:
            if e.kind == 'store' and not self.local(e):
                loc = self.store_base(e)
                if loc is not None and any(loc[:len(x.d['loc'])] == x.d['loc'] for x in mine):
                    rep.obligations += 1
                    self.bad('result', 'the parsed structure is changed at %s:%s' % (
                        e.file, e.line), e.g)

    def store_base(self, e):
        m = self.m
        lv = e.d.get('lv')
        if lv is None or isinstance(lv, tuple) or not m.is_term(lv):
            return None
        t = m.val(lv)
        return t[1] if isinstance(t, tuple) and t[0] == 'loc' else None

    def local(self, e):
        loc = self.store_base(e)
        return loc is not None and loc[0][0] == 'L'

    def sources(self, ev, mine):
        """What the reader is laid over."""
        m, rep, I = self.m, self.rep, self.I
        raw = self.fn['q'] in RAW
        bbs = [e for e in ev if e.kind == 'bitbuffer']
        uns = [e for e in ev if e.kind == 'unescape']
        p0, p1 = self.vals[0], self.vals[1]
        if len(bbs) != 1 or len(uns) > 1:
            self.undec('bytes', '%d readers over %d unescaped copies' % (len(bbs), len(uns)))
            return
        b = bbs[0]
        if len(b.d['args']) < 2:
            self.undec('bytes', 'arguments of the reader not followed')
            return
        data, size = b.d['args'][:2]
        if raw or not uns:
            rep.obligations += 1
            if not raw:
                self.bad('bytes', 'the reader is laid over bytes that still hold emulation '
                         'prevention', b.g)
                return
            if uns:
                self.bad('bytes', 'emulation prevention is removed from bytes that have none',
                         uns[0].g)
                return
            self.same('bytes', 'the reader does not begin at the first byte', data, p0, b.g)
            self.same('bytes', 'the reader does not cover all bytes', size, p1, b.g)
            return
        u = uns[0]
        if len(u.d['args']) < 2:
            self.undec('bytes', 'arguments of UnescapeRbsp not followed')
            return
        self.same('bytes', 'the copy does not begin at the first byte', u.d['args'][0], p0, u.g)
        self.same('bytes', 'the copy does not cover all bytes', u.d['args'][1], p1, u.g)
        if any(u.seq < e.seq < b.seq and e.kind in MUT and not self.plain(e) for e in ev):
            self.undec('bytes', 'the unescaped copy may be changed')
        want = [a for a in m.atoms_of(m.bind(size, m.eq0)) if isinstance(
            m.atoms.names[a], tuple) and m.atoms.names[a][:2] == ('len', 'unescape')]
        if not all(lin(t) for t in m.terminals(size)):
            self.undec('bytes', 'size of the reader not followed')
        elif not want:
            ln = [a for a in range(len(m.atoms.names)) if isinstance(m.atoms.names[a], tuple)
                  and m.atoms.names[a][:2] == ('len', 'unescape')]
            if ln:
                self.same('bytes', 'the reader does not cover the unescaped bytes', size,
                          m.term(('L', 0, ((ln[0], 1),))), b.g)
            else:
                self.undec('bytes', 'size of the reader not followed')
        else:
            self.same('bytes', 'the reader does not cover the unescaped bytes', size,
                      m.term(('L', 0, ((want[0], 1),))), b.g)
        # the data pointer: the first byte of the copy
        rep.obligations += 1
        for t in m.terminals(data):
            loc = base_of(I, t)
            g = m.AND(b.g, m.where(data, lambda y, t=t: y == t))
            if loc is None or g == m.F:
                if g != m.F:
                    self.undec('bytes', 'data pointer of the reader not followed')
                continue
            if t == m.val(p0) if m.is_term(p0) else False:
                self.bad('bytes', 'the reader is laid over the bytes as given', g)
            elif loc[0][0] != 'L' and loc[0][:2] != ('O', 'unescape') and loc[0][0] != 'O':
                self.bad('bytes', 'the reader is laid over other bytes', g)

    def plain(self, e):
        """A store to a scalar local."""
        return e.kind == 'store' and self.local(e) and '#len' not in str(self.store_base(e))

    def args(self, e):
        m, rep = self.m, self.rep
        mine = [(n, unref(t or ''), self.vals[i], i) for i, (n, _, t) in enumerate(self.fn['ps'])
                if i >= 2]
        callee = None
        for f in self.P.byq.get(e.d['q'], []):
            ps = [(n, unref(t or '')) for n, _, t in f['ps'] if 'BitBuffer' not in (t or '')]
            if len(ps) == len(e.d['args']) and any('BitBuffer' in (p[2] or '') for p in f['ps']):
                callee = ps
        if callee is None:
            self.undec('arguments', 'callee not found')
            return
        names = {n: (t, v) for n, t, v, i in mine if n}
        env = e.d['env']
        for k, ((n, t), a) in enumerate(zip(callee, e.d['args'])):
            v = a[1] if isinstance(a, tuple) else a
            if n in names:
                w = names[n][1]
            elif k < len(mine) and strip(mine[k][1]) == strip(t) and not (
                    mine[k][0] in {c for c, _ in callee}):
                w = mine[k][2]
            else:
                w = None
            what = 'argument %s of %s differs from the one given' % (n or k, e.d['q'].split('::')[-1])
            if strip(t).startswith('T:'):
                self.object(what, strip(t), v, w, env, e)
            elif w is None:
                self.undec('arguments', 'argument %s has no counterpart' % (n or k))
            else:
                self.same('arguments', what, v, w, e.g)

    def object(self, what, t, v, w, env, e):
        """Structures passed by value: field by field."""
        m, I = self.m, self.I
        rec = self.P.records.get(t.replace('T:', ''))
        if w is None:
            return                  # the entry point chooses these itself
        if rec is None or env is None or not m.is_term(v) or not m.is_term(w):
            self.undec('arguments', what + ': not followed')
            return
        for f in rec['fields']:
            if not int_type(unref(f['ty'])):
                continue
            st = State(m.T, dict(env))
            tv = m.val(v)
            x = I.load(tv[1] + (f['n'],), unref(f['ty']), st)
            y = I.load(m.val(w)[1] + (f['n'],), unref(f['ty']), State(m.T, dict(env)))
            self.same('arguments', what + ' (%s)' % f['n'], x, y, e.g)


def strip(t):
    return t.replace('const ', '')


@prop('C28', 'Every function that takes bytes and a length and returns a parsed structure, for '
      'any length and argument values: the reader is laid over exactly the unescaped copy of '
      'exactly the given bytes (the given bytes themselves where they carry no emulation '
      'prevention), is at its first bit when the bit-reader overload is called, every other '
      'argument is the one given, and what is returned is the structure parsed, unchanged.', min=15)
def c28(ctx, rep, tier):
    W = ctx.world()
    recs = {ctx.world().rec(W.res[s]) for s in W.sids if s in W.res} | {
        analysis.rec_of_ret(f) for q in W.prog.byq for f in W.prog.byq[q]
        if any('BitBuffer' in (p[2] or '') for p in f['ps'])} - {None}
    for fn, rec in entries(W.prog, recs):
        try:
            Entry(ctx, rep, fn, rec, recs).run()
        except (analysis.Undecided, analysis.Blowup, RecursionError) as ex:
            rep.undec(fn['q'], 'entry', fn['q'], '%s: %s' % (type(ex).__name__, ex), '')
        rep.units.append({'entry point': fn['q'], 'parameters': len(fn['ps'])})
