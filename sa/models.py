"""Models of the standard library operations used by the project."""
from idd import INF
from interp import (Undecided, is_obj, is_ptr, int_type, targ, trange, unref,
                    MAXU32)


def _void(I):
    return I.m.term(('opq', 'void'))


def call(I, e, q, args, st):
    """Free functions / static std functions.  None if not modelled."""
    m = I.m
    n = q.split('::')[-1]
    if n in ('make_unique', 'make_shared') and q.startswith('std::'):
        t = targ(e[2])
        loc = I.temp(e, st, t)
        if t.startswith('T:'):
            rec = I.P.records.get(t[2:])
            uc = [f for f in I.P.fns.values() if f.get('ctor') and
                  f.get('cls', '') == t and len(f['ps']) == len(args)]
            if uc and (args or (rec and rec.get('userctor'))):
                I.construct(loc, t, uc[0]['m'], [I.arg(a, st) for a in args], st, e)
            else:
                I.init_obj(loc, t, st, zero=not (rec and rec.get('userctor')))
            _dyn(I, loc, t, st)
        else:
            vs = [I.rv(a, st) for a in args]
            I.init_obj(loc, t, st, zero=True)
            if t.startswith('V<') and vs:
                I.assign(loc, vs[0], st, t) if I._is_objval(vs[0]) else None
        return m.term(('ptr', loc))
    if n in ('move', 'forward') and q.startswith('std::') and len(args) == 1:
        return I.rv(args[0], st)
    if n in ('min', 'max') and q.startswith('std::'):
        if len(args) == 1:
            a0 = args[0]
            if a0[0] == 'ilist':
                vs = [I.rv(x, st) for x in a0[3]]
            else:
                return None
        else:
            vs = [I.deloc(I.arg(a, st), a[2], st) for a in args[:2]]
        r = vs[0]
        for v in vs[1:]:
            g = I.compare('<', v, r, st) if n == 'min' else I.compare('<', r, v, st)
            r = m.ite(g, v, r)
        return r
    if n in ('abs', 'labs', 'llabs'):
        v = I.rv(args[0], st)
        if unref(e[2]).startswith('f'):
            return m.bind(v, lambda x: m.term(('fcall', n, x)))
        neg = I.arith('-', I.num(0), v, e[2], st, e)
        return m.ite(I.compare('<', v, I.num(0), st), neg, v)
    if n in ('ceil', 'log2', 'floor', 'log', 'pow', 'round', 'log2f', 'ceilf',
             'sqrt'):
        vs = [I.rv(a, st) for a in args]
        n2 = n.rstrip('f') if n in ('log2f', 'ceilf') else n
        if len(vs) == 1:
            return m.bind(vs[0], lambda x: m.term(('fcall', n2, x)))
        return m.bind2(vs[0], vs[1], lambda x, y: m.term(('fcall', n2, x, y)))
    if n in ('fprintf', 'printf', 'snprintf', 'sprintf', 'fputs', 'fputc', 'puts',
             'putchar', 'fwrite', 'perror', 'vfprintf'):
        return _print(I, e, n, args, st)
    if n in ('exit', 'abort', '_exit', 'quick_exit', 'terminate', '__assert_fail'):
        vs = [I.rv(a, st) for a in args if a[0] != 'strlit']
        I.ev('terminate', st, e[1], name=n)
        I.stops += 1
        if n == '__assert_fail' or True:
            st.g = m.F
        return _void(I)
    if n in ('memcpy', 'memmove', 'memset'):
        vs = [I.rv(a, st) for a in args]
        I.ev('mem', st, e[1], name=n, args=vs)
        d = vs[0]
        if m.is_term(d) and m.val(d)[0] == 'ptr':
            loc = m.val(d)[1]
            I.clear_tree(loc, st)
            st.env[loc + ('#own',)] = m.T
            if n == 'memset':
                st.env[loc + ('#each',)] = vs[1]
        return d
    if n == 'swap' and q.startswith('std::') and len(args) == 2:
        la, lb = I.lv(args[0], st), I.lv(args[1], st)
        va, vb = I.loadlv(la, args[0][2], st), I.loadlv(lb, args[1][2], st)
        I.store(la, vb, st, unref(args[0][2]))
        I.store(lb, va, st, unref(args[1][2]))
        return _void(I)
    if n in ('begin', 'end', 'cbegin', 'cend') and q.startswith('std::'):
        return _iter(I, args[0], 'begin' if 'beg' in n else 'end', st)
    if n == 'size' and q.startswith('std::'):
        return I.length(I.lv(args[0], st), st)
    if n in ('find', 'find_if', 'any_of', 'all_of', 'none_of', 'count_if',
             'count', 'accumulate', 'equal', 'fill', 'copy', 'for_each',
             'transform', 'distance', 'to_string', 'strlen', 'strcmp'):
        vs = [I.arg(a, st) for a in args]
        I.ev('stdcall', st, e[1], name=n, args=vs)
        if n in ('fill', 'copy', 'for_each', 'transform'):
            raise Undecided('std::' + n)
        r = trange(e[2])
        nm = ('std', n, I.opq_ord('std' + n, e))
        if r:
            return m.term(m.atom(nm, *r))
        return m.term(('opq',) + nm)
    return None


def _dyn(I, loc, t, st):
    rec = I.P.records.get(t[2:])
    r = rec
    while r is not None:
        if any(mm['virtual'] for mm in r['methods']):
            st.env[loc + ('#dyn',)] = I.m.term(('type', t[2:]))
            return
        r = I.P.records.get(r['bases'][0][2:]) if r['bases'] else None


def _print(I, e, n, args, st):
    m = I.m
    stream = None
    idx = 0
    vs = []
    for a in args:
        try:
            vs.append((I.rv(a, st) if a[0] != 'strlit' else m.term(('str', a[3])), a))
        except Undecided:
            raise
    fmt = None
    if n in ('fprintf', 'vfprintf'):
        stream, fi = vs[0][0], 1
    elif n == 'printf':
        fi = 0
    elif n in ('snprintf',):
        stream, fi = vs[0][0], 2
    elif n == 'sprintf':
        stream, fi = vs[0][0], 1
    else:
        fi = 0
        if n in ('fputs', 'fputc', 'fwrite'):
            stream = vs[-1][0]
    if fi < len(vs):
        t = vs[fi][0]
        if m.is_term(t) and isinstance(m.val(t), tuple) and m.val(t)[0] == 'str':
            fmt = m.val(t)[1]
    I.ev('print', st, e[1], fn=n, stream=stream, fmt=fmt, args=vs[fi + 1:],
         call=e, ctx=I.ctx)
    r = trange(e[2])
    if r:
        return m.term(m.atom(('print', n, I.opq_ord('print', e)), *r))
    return _void(I)


def _iter(I, obj, which, st, l=None):
    m = I.m
    if l is None:
        l = I.lv(obj, st)
    if not m.is_term(l) or m.val(l)[0] != 'loc':
        raise Undecided('iterator of several containers')
    loc = m.val(l)[1]
    t = unref(obj[2])
    if t.startswith('P<'):
        t = targ(t)
    if t.startswith('M<'):
        return m.term(('end', loc)) if which == 'end' else m.term(('opq', 'mapbegin'))
    if t.startswith('A<'):
        ln = I.num(int(targ(t, 0)))
    else:
        ln = I.load(loc + ('#len',), 'u64', st)
    return m.term(('vit', loc, which, ln))


def method(I, e, ot, meth, obj, arrow, args, st):
    m = I.m
    ot = unref(ot)
    if ot.startswith('V<') or ot.startswith('A<') or ot.startswith('I<'):
        if arrow:
            l = I.deref(I.rv(obj, st), st, e[1], obj)
        else:
            l = I.lvobj(obj, st)
        return vector(I, e, ot, meth, l, obj, args, st)
    if ot[:2] in ('U<', 'S<'):
        if meth in ('get',):
            return I.loadlv(I.lv(obj, st), ot, st)
        if meth == 'operator bool':
            return I.guard2val(I.truth(I.loadlv(I.lv(obj, st), ot, st)))
        if meth in ('reset', 'release'):
            l = I.lv(obj, st)
            old = I.loadlv(l, ot, st)
            v = m.term(('null',))
            if meth == 'reset' and args:
                v = I.rv(args[0], st)
            I.store(l, v, st, ot)
            return old
        if meth == 'use_count':
            return m.term(m.atom(('usecount', I.opq_ord('uc', e)), 0, MAXU32))
        if meth in ('operator->', 'operator*'):
            return None
        return None
    if ot.startswith('M<'):
        l = I.deref(I.rv(obj, st), st, e[1], obj) if arrow else I.lvobj(obj, st)
        return mapmethod(I, e, ot, meth, l, args, st)
    if ot == 'str' or ot.startswith('std:'):
        if not arrow:
            try:
                I.lvobj(obj, st)
            except Undecided:
                pass
        vs = [I.arg(a, st) for a in args]
        I.ev('strmethod', st, e[1], name=meth, args=vs)
        if ot == 'str' and meth not in STR_CONST:
            strclobber(I, obj, arrow, st)
        r = trange(e[2])
        nm = ('strm', meth, I.opq_ord('strm' + meth, e))
        if r:
            return m.term(m.atom(nm, *r))
        if is_ptr(e[2]):
            return m.term(('str', nm))
        if is_obj(e[2]):
            return m.term(('obj', (('S', nm),)))
        return m.term(('opq',) + nm)
    return None


STR_CONST = {'c_str', 'data', 'size', 'length', 'empty', 'find', 'rfind', 'compare',
             'substr', 'at', 'front', 'back', 'begin', 'end', 'operator[]', 'capacity'}


def strclobber(I, obj, arrow, st, val=None):
    try:
        l = I.deref(I.rv(obj, st), st, obj[1], obj) if arrow else I.lvobj(obj, st)
    except Undecided:
        return
    for x in I.m.terminals(l):
        if x[0] == 'loc':
            st.env[x[1] + ('#str',)] = I.m.term(('opq', 'str'))


def _one(I, l):
    m = I.m
    if m.is_term(l) and m.val(l)[0] == 'loc':
        return m.val(l)[1]
    xs = [x for x in m.terminals(l) if x[0] == 'loc']
    if len(xs) == 1:
        return xs[0][1]
    raise Undecided('container reached through several objects')


def vector(I, e, t, meth, l, obj, args, st):
    m = I.m
    et = targ(t, 0) if not t.startswith('A<') else targ(t, 1)
    if meth in ('size', 'empty', 'length'):
        if t.startswith('A<'):
            ln = I.num(int(targ(t, 0)))
        else:
            ln = I.length(l, st)
        if meth == 'empty':
            return I.guard2val(m.NOT(I.truth(ln)))
        return ln
    if meth in ('push_back', 'emplace_back'):
        loc = _one(I, l)
        ln = I.load(loc + ('#len',), 'u64', st)
        idx = I.tolin(m.restrict(ln, st.g), st.g)
        el = loc + (('[', idx),)
        I.ltype[el] = et
        I.ltype[loc + ('#len',)] = 'u64'
        if not args:
            I.clear_tree(el, st)
            I.init_obj(el, et, st, zero=True)
            v = None
        elif len(args) == 1:
            a = args[0]
            if int_type(et) or is_ptr(et):
                v = I.deloc(I.arg(a, st), et, st)
                if int_type(et):
                    v = I.fit(v, et, st, line=e[1])
                I.clear_tree(el, st)
                I.store1(el, v, st, et)
            else:
                v = I.rv(a, st)
                if v is not None and I._is_objval(v):
                    I.clear_tree(el, st)
                    I.copy_tree(m.val(v)[1], el, st)
                    if et.startswith('V<') and a[0] == 'ctor':
                        I.filled(el, st, e[1])
                elif et.startswith('V<') and int_type(a[2]):
                    I.clear_tree(el, st)
                    I.init_obj(el, et, st)
                    I.fill(el, targ(et), v, I.fillval([], targ(et), st), st)
                else:
                    I.clear_tree(el, st)
                    I.assign(el, v, st, et)
        else:
            vs = [I.rv(a, st) for a in args]
            I.clear_tree(el, st)
            I.init_obj(el, et, st, zero=True)
            v = None
            if et.startswith('V<') and int_type(args[0][2]) and len(args) == 2:
                n = vs[0] if args[0][0] not in ('ref', 'mem') else I.rv(args[0], st)
                I.fill(el, targ(et), n, I.fillval(args[1:], targ(et), st), st)
        I.ev('push', st, e[1], vec=loc, idx=idx, val=v, ty=et)
        # re-read: evaluating the argument may have changed the length
        st.env[loc + ('#len',)] = m.bind(ln, lambda x: m.term(('L', x[1] + 1, x[2])))
        if meth == 'emplace_back':
            return m.term(('loc', el))
        return _void(I)
    if meth == 'pop_back':
        loc = _one(I, l)
        ln = I.load(loc + ('#len',), 'u64', st)
        I.ev('nonempty', st, e[1], len=ln, what=I.src(obj), vec=loc)
        st.env[loc + ('#len',)] = I.fit(m.bind(ln, lambda x: m.term(
            ('L', x[1] - 1, x[2]))), 'u64', st)
        return _void(I)
    if meth in ('back', 'front'):
        ln = I.length(l, st)
        I.ev('nonempty', st, e[1], len=ln, what=I.src(obj) + '.' + meth, vec=l)
        if meth == 'front':
            return I.elem(l, I.num(0), st)
        iv = I.fit(m.bind(ln, lambda x: m.term(('L', x[1] - 1, x[2]))), 'u64', st)
        return I.elem(l, iv, st)
    if meth == 'at':
        iv = I.rv(args[0], st)
        ln = I.length(l, st)
        I.ev('at', st, e[1], base=l, index=iv, len=ln, what=I.src(obj))
        return I.elem(l, iv, st)
    if meth in ('clear',):
        loc = _one(I, l)
        I.clear_tree(loc, st)
        st.env[loc + ('#own',)] = m.T
        st.env[loc + ('#len',)] = m.const(0)
        I.ltype[loc + ('#len',)] = 'u64'
        return _void(I)
    if meth in ('resize', 'assign') and args and int_type(args[0][2]):
        loc = _one(I, l)
        n = I.rv(args[0], st)
        I.ev('alloc', st, e[1], size=n, what=I.src(obj) + '.' + meth, vec=loc)
        I.ltype[loc + ('#len',)] = 'u64'
        old = I.load(loc + ('#len',), 'u64', st)
        st.env[loc + ('#len',)] = n
        v = I.fillval(args[1:], et, st)
        oc = m.val(old) if m.is_term(old) else None
        oc = oc[1] if isinstance(oc, tuple) and oc[0] == 'L' and not oc[2] else None
        if meth == 'assign':
            oc = 0
        if oc == 0:
            for k in [k for k in st.env if len(k) > len(loc) and
                      k[:len(loc)] == loc and isinstance(k[len(loc)], tuple)]:
                del st.env[k]
        if oc is not None:
            I.fill(loc, et, n, v, st, oc)
        return _void(I)
    if meth in ('reserve',):
        n = I.rv(args[0], st)
        I.ev('alloc', st, e[1], size=n, what=I.src(obj) + '.reserve')
        return _void(I)
    if meth in ('shrink_to_fit',):
        return _void(I)
    if meth in ('capacity', 'max_size'):
        return m.term(m.atom(('cap', I.opq_ord('cap', e)), 0, 2 ** 60))
    if meth in ('begin', 'end', 'cbegin', 'cend'):
        return _iter(I, ['x', 0, t], 'begin' if 'beg' in meth else 'end', st, l)
    if meth == 'data':
        return m.bind(l, lambda x: m.term(('ptr', x[1]) if x[0] == 'loc' else x))
    if meth == 'fill':
        loc = _one(I, l)
        v = I.deloc(I.arg(args[0], st), et, st)
        for k in [k for k in st.env if len(k) > len(loc) and
                  k[:len(loc)] == loc and isinstance(k[len(loc)], tuple)]:
            del st.env[k]
        st.env[loc + ('#each',)] = v
        return _void(I)
    if meth in ('insert', 'assign', 'erase', 'swap'):
        loc = _one(I, l)
        vs = [I.rv(a, st) for a in args]
        I.ev('vecmut', st, e[1], meth=meth, vec=loc, args=vs)
        I.clear_tree(loc, st)
        st.env[loc + ('#own',)] = m.T
        I.ltype[loc + ('#len',)] = 'u64'
        ln = I.range_len(vs[-2:]) if meth == 'assign' else None
        st.env[loc + ('#len',)] = ln if ln is not None else m.term(
            m.atom(('len', meth, I.opq_ord(meth, e)), 0, MAXU32))
        return m.term(('opq', 'it'))
    return None


def mapmethod(I, e, t, meth, l, args, st):
    m = I.m
    loc = _one(I, l)
    if meth == 'find':
        k = I.deloc(I.arg(args[0], st), targ(t, 0), st)
        k = m.restrict(k, st.g)
        kl = I.tolin(k, st.g)
        I.ev('lookup', st, e[1], map=I.name(loc), key=kl)
        pres = m.NOT(m.eq0(m.atom(('present', I.name(loc), kl), 0, 1)))
        return m.ite(pres, m.term(('it', loc + (('[', kl),), kl)),
                     m.term(('end', loc)))
    if meth in ('end', 'cend'):
        return m.term(('end', loc))
    if meth == 'count':
        k = I.deloc(I.arg(args[0], st), targ(t, 0), st)
        kl = I.tolin(m.restrict(k, st.g), st.g)
        I.ev('lookup', st, e[1], map=I.name(loc), key=kl)
        return m.term(m.atom(('present', I.name(loc), kl), 0, 1))
    if meth == 'at':
        k = I.deloc(I.arg(args[0], st), targ(t, 0), st)
        kl = I.tolin(m.restrict(k, st.g), st.g)
        I.ev('mapat', st, e[1], map=I.name(loc), key=kl)
        return m.term(('loc', loc + (('[', kl), 'second')))
    if meth in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
        kv = _keyval(args)
        if kv is not None and is_ptrtype(targ(t, 1)):
            k = I.deloc(I.arg(kv[0], st), targ(t, 0), st)
            kl = I.tolin(m.restrict(k, st.g), st.g)
            v = I.rv(kv[1], st) if kv[1][0] not in ('ref', 'mem', 'idx', 'opcall') else \
                I.loadlv(I.lv(kv[1], st), targ(t, 1), st)
            cell = loc + (('[', kl), 'second')
            new = m.eq0(m.atom(('present', I.name(loc), kl), 0, 1))
            gone = st.env.get(loc + (('[', kl), '#gone'))
            if gone is not None:
                new = m.OR(new, gone)
            if meth == 'insert_or_assign':
                new = m.T
            sa = st.copy()
            sa.g = m.AND(st.g, new)
            I.store(m.term(('loc', cell)), v, sa, targ(t, 1))
            if gone is not None:
                sa.env[loc + (('[', kl), '#gone')] = m.F
            I.ev('mapstore', sa, e[1], map=I.name(loc), key=kl, val=v)
            st.env = I.merge_env(new, sa.env, st.env, st)
            return m.term(('it', loc + (('[', kl),), kl))
    if meth == 'erase' and len(args) == 1:
        k = I.deloc(I.arg(args[0], st), args[0][2], st)
        try:
            kl = I.tolin(m.restrict(k, st.g), st.g)
            st.env[loc + (('[', kl), '#gone')] = m.T
        except Exception:
            pass
        I.ev('mapmut', st, e[1], map=I.name(loc), meth=meth, args=[k])
        return m.term(('opq', 'map', meth))
    if meth in ('clear', 'erase', 'insert', 'emplace', 'insert_or_assign',
                'try_emplace', 'swap'):
        vs = [I.arg(a, st) for a in args]
        I.ev('mapmut', st, e[1], map=I.name(loc), meth=meth, args=[
            I.deloc(v, a[2], st) for v, a in zip(vs, args)])
        return m.term(('opq', 'map', meth))
    if meth in ('size', 'empty'):
        return m.term(m.atom(('mapsize', I.name(loc)), 0, MAXU32 if meth == 'size' else 1))
    return None


def is_ptrtype(t):
    return t[:2] in ('U<', 'S<', 'P<')


def _keyval(args):
    """Key and value expressions of an insertion."""
    if len(args) == 2:
        return args
    if len(args) != 1:
        return None
    a = args[0]
    while isinstance(a, list) and len(a) > 5:
        if a[0] == 'ctor' and len(a[5]) == 2:
            return a[5]
        if a[0] == 'ctor' and len(a[5]) == 1:
            a = a[5][0]
        elif a[0] == 'call' and str(a[4]).split('::')[-1] == 'make_pair' and len(a[5]) == 2:
            return a[5]
        elif a[0] == 'cast':
            a = a[-1]
        else:
            return None
    return None


def operator(I, e, op, t0, args, st, want):
    m = I.m
    line = e[1]

    def out(l, t):
        if want == 'lv':
            return l
        if is_obj(t):
            return m.bind(l, lambda x: m.term(('obj', x[1]) if x[0] == 'loc' else x))
        return I.loadlv(l, t, st)

    if op == '->':
        if t0[:2] in ('U<', 'S<'):
            v = I.rv(args[0], st) if args[0][0] not in ('ref', 'mem', 'idx', 'opcall', 'mcall') \
                else I.loadlv(I.lv(args[0], st), t0, st)
            return v
        v = I.rv(args[0], st) if args[0][0] not in ('ref', 'mem') else \
            I.loadlv(I.lv(args[0], st), 'Z', st)
        # map iterator
        I.ev('iterderef', st, line, it=v)
        return m.bind(v, lambda x: m.term(('ptr', x[1])) if isinstance(x, tuple)
                      and x[0] == 'it' else m.term(('null',) if isinstance(x, tuple)
                                                   and x[0] == 'end' else ('opq', 'itp')))
    if op == '*':
        if t0[:2] in ('U<', 'S<'):
            v = I.loadlv(I.lv(args[0], st), t0, st)
            return out(I.deref(v, st, line, args[0]), e[2])
        v = I.rv(args[0], st) if args[0][0] not in ('ref', 'mem') else \
            I.loadlv(I.lv(args[0], st), 'Z', st)
        return m.term(('opq', 'deref', I.src(args[0]))) if want == 'rv' else \
            m.term(('opq', 'deref'))
    if op == '[]':
        if t0.startswith('V<') or t0.startswith('A<'):
            l = I.lvobj(args[0], st)
            iv = I.rv(args[1], st)
            ee = ['idx', line, e[2], args[0], args[1]]
            I.index_event(st, ee, l, iv, t0)
            return out(I.elem(l, iv, st), e[2])
        if t0.startswith('M<'):
            l = I.lvobj(args[0], st)
            k = I.deloc(I.arg(args[1], st), targ(t0, 0), st)
            kl = I.tolin(m.restrict(k, st.g), st.g)
            loc = _one(I, l)
            I.ev('mapidx', st, line, map=I.name(loc), key=kl)
            return out(m.term(('loc', loc + (('[', kl), 'second'))), e[2])
        if t0 == 'str':
            return m.term(('opq', 'strchar'))
        if t0[:2] in ('U<',):
            v = I.loadlv(I.lv(args[0], st), t0, st)
            l = I.deref(v, st, line, args[0])
            return out(I.elem(l, I.rv(args[1], st), st), e[2])
    if op in ('==', '!='):
        a = I.deloc(I.arg(args[0], st), args[0][2], st)
        b = I.deloc(I.arg(args[1], st), args[1][2], st)
        return I.guard2val(I.compare(op, a, b, st))
    if op == '=':
        v = I.rv(args[1], st) if args[1][0] != 'ilist' else None
        l = I.lvobj(args[0], st)
        if t0[:2] in ('U<', 'S<'):
            if v is None:
                v = m.term(('null',))
            I.store(l, v, st, t0)
            maploc = m.val(l)[1] if m.is_term(l) and m.val(l)[0] == 'loc' else None
            if maploc is not None and maploc[-1] == 'second':
                I.ev('mapstore', st, line, map=I.name(maploc[:-2]), key=maploc[-2][1], val=v)
                if maploc[:-1] + ('#gone',) in st.env:
                    st.env[maploc[:-1] + ('#gone',)] = m.F
            return l if want == 'lv' else v
        loc = _one(I, l)
        if t0 == 'str':
            st.env[loc + ('#str',)] = I.strcontent(v, st) if v is not None else \
                m.term(('str', ''))
            return l
        if v is None:
            I.clear_tree(loc, st)
            I.init_list(loc, t0, args[1], st)
            return l
        if I._is_objval(v):
            if t0 == 'str' or t0.startswith('std:'):
                return l
            I.copy_tree(m.val(v)[1], loc, st)
            return l
        if t0 == 'str' or t0.startswith('std:'):
            return l
        I.assign(loc, v, st, t0)
        return l
    if t0 == 'str' or t0.startswith('std:') or op in ('+', '<<', '+='):
        vs = [I.arg(a, st) for a in args]
        I.ev('strop', st, line, op=op)
        if op in ('+=', '<<') and t0 == 'str':
            strclobber(I, args[0], False, st)
        if op in ('<', '>', '<=', '>=', '!'):
            return m.term(m.atom(('strop', op, I.opq_ord('so', e)), 0, 1))
        if want == 'lv':
            return I.lv(args[0], st) if op in ('+=', '<<') else \
                m.term(('loc', (('S', ('strop', I.opq_ord('so', e))),)))
        return m.term(('obj', (('S', ('strop', I.opq_ord('so', e))),)))
    raise Undecided('operator%s on %s at line %s' % (op, t0, line))
