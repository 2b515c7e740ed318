"""C18: what a dump prints.

Two evaluations of every fdump method, both over guarded decision diagrams:
 - on an arbitrary object (`this` symbolic): every print is a sequence of literal
   text and converted values; the values are linear forms over the members of the
   object, so the member a printed value comes from is known exactly and is compared
   with the label in front of it; braces and list loops are followed through guards;
 - on the objects the parser returns (compose.py): every element the parser decoded
   must be printed on every path on which it was decoded.
"""
import os
import re

import analysis
import compose
import conform
import idd
import interp
import witness
from props import prop

THIS = ('S', 'this')
LEN = '#len'

CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn%])')


def fdumps(P):
    out = []
    for q, fns in P.byq.items():
        if q.split('::')[-1] != 'fdump':
            continue
        for fn in fns:
            if fn.get('body') is not None and fn.get('cls') and \
                    any('_IO_FILE' in (p[2] or '') for p in fn['ps']):
                out.append(fn)
    return sorted(out, key=lambda f: f['m'])


def evaluate(ctx, fn):
    """(I, m, events) of a dump method on an arbitrary object."""
    key = ('dump', fn['m'])
    if key in ctx.memo:
        return ctx.memo[key]
    W = ctx.world()
    m = idd.IDD()
    o = interp.Options(boundary=dict(analysis.HELPERS), recranges=W.recranges)
    cls = fn['cls'].replace('T:', '')

    def prep(I, st, vs):
        I.ptee[(THIS,)] = cls
        for p, v in zip(fn['ps'], vs):
            if interp.unref(p[2]) == 'i32' and m.is_term(v) and m.val(v)[0] == 'L':
                st.g = m.AND(st.g, m.AND(m.le(compose.lin_add(m, v, -1, -1)),
                                         m.le(compose.lin_add(m, v, 1, -10000))))
    try:
        I, rets = analysis.run_fn(W.prog, fn, o, m, this=(THIS,), prep=prep)
        r = (I, m, I.events, None)
    except (analysis.Undecided, analysis.Blowup, RecursionError, analysis.Vanished) as ex:
        r = (None, m, [], '%s: %s' % (type(ex).__name__, ex))
    ctx.memo[key] = r
    return r


def live(m, events):
    """No member that the dump follows is null (C12 decides that)."""
    g = m.T
    for e in events:
        n = e.d.get('null')
        if n is not None:
            g = m.AND(g, m.NOT(m.AND(e.g, n)))
    return g


# ------------------------------------------------------------------ text stream
class Val:
    def __init__(self, conv, v, e):
        self.conv, self.v, self.e = conv, v, e


def pieces(m, e):
    """Literal text and values of one print event, or None."""
    fmt = e.d['fmt'] if isinstance(e.d['fmt'], str) else None
    n = e.d['fn']
    args = [v for v, _ in e.d['args'] or ()]
    if n in ('fputs', 'puts'):
        return [fmt + ('\n' if n == 'puts' else '')] if fmt is not None else None
    if n in ('fputc', 'putc', 'putchar'):
        a = e.d.get('args')
        v = None
        c = e.d['call'][5][0] if e.d['call'][0] == 'call' and e.d['call'][5] else None
        while c is not None and c[0] in ('cast', 'ld'):
            c = c[4] if c[0] == 'cast' else c[3]
        if c is not None and c[0] == 'int':
            return [chr(int(c[3]) & 255)]
        return None
    if fmt is None:
        return None
    out = []
    i = k = 0
    for c in CONV.finditer(fmt):
        out.append(fmt[i:c.start()])
        i = c.end()
        if c.group(5) == '%':
            out.append('%')
            continue
        if c.group(2) == '*':
            k += 1
        if c.group(3) == '*':
            k += 1
        if k >= len(args):
            return None
        v = args[k]
        k += 1
        t = m.val(v) if m.is_term(v) else None
        if isinstance(t, tuple) and t[0] == 'str' and isinstance(t[1], str):
            out.append(t[1])
        else:
            out.append(Val(c.group(0), v, e))
    out.append(fmt[i:])
    return out


# ------------------------------------------------------------------ origins
def origins(m, x, out=None, seen=None):
    """Paths of the members of *this a value is made of."""
    if out is None:
        out, seen = set(), set()
    if isinstance(x, int):
        for t in m.terminals(x):
            origins(m, t, out, seen)
        for a in m.atoms_of(x):
            origins(m, ('L', 0, ((a, 1),)), out, seen)
        return out
    if not isinstance(x, tuple):
        return out
    if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple):
        for a, _ in x[2]:
            if a not in seen:
                seen.add(a)
                origins(m, m.atoms.names[a], out, seen)
        return out
    p = member(x)
    if p is not None:
        out.add(p)
        return out
    for y in x:
        if isinstance(y, tuple):
            origins(m, y, out, seen)
    return out


def member(x):
    """Path below `this` named by an atom or a location."""
    if x and x[0] in ('f', 'loc', 'ptr', 'obj', 'nonnull', 'len') and len(x) > 1:
        if x[1] in (THIS, 'this') and len(x) > 2:
            return x[2:]
        if isinstance(x[1], tuple) and x[1] and x[1][0] == THIS and len(x[1]) > 1:
            return x[1][1:]
    if x and x[0] == THIS and len(x) > 1:
        return x[1:]
    return None


def base(p):
    return p[0]


def field_atom(m, t):
    """(path, True) when the term is exactly one member."""
    if isinstance(t, tuple) and t[0] == 'L' and t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1:
        return member(m.atoms.names[t[2][0][0]])
    return None


LABEL = re.compile(r'([A-Za-z_]\w*)((?:\[[^\[\]]*\])*)((?:\.\w+|_\w+)?)\s*[:=]\s*(?:0[xX]|["\'(#]\s*)*$')
OPEN = re.compile(r'([A-Za-z_]\w*)((?:\[[^\[\]]*\])*)((?:\.\w+|_\w+)?)\s*[:=]?\s*$')


class Frame:
    def __init__(self, label, g, e):
        self.label, self.g, self.g0, self.e = label, g, g, e


class Item:
    """A printed value with the label that names it."""

    def __init__(self, val, label, frame, listed):
        self.val, self.label, self.frame, self.listed = val, label, frame, listed


def stream(m, events, care):
    """(items, sub-dumps, problems): the text as a token stream."""
    tail = ''
    idxs = []
    stack = []
    items, subs, bad, undec = [], [], [], []

    def lab(mm):
        ids = [idxs[ord(c) - 0xE000] for c in mm.group(2) if 0xE000 <= ord(c) < 0xF000]
        return (mm.group(1), mm.group(3), ids)

    for e in events:
        if e.kind == 'dump':
            subs.append(e)
            tail = ''
            continue
        if e.kind != 'print':
            continue
        ps = pieces(m, e)
        if ps is None:
            undec.append((e, 'text not constant'))
            tail = ''
            continue
        for p in ps:
            if isinstance(p, Val):
                if tail.endswith('['):
                    idxs.append(p.v)
                    tail += chr(0xE000 + len(idxs) - 1)
                    continue
                mm = LABEL.search(tail)
                if mm:
                    items.append(Item(p, lab(mm), stack[-1] if stack else None, False))
                elif not re.search(r'[\w]', tail):
                    # element of the list that is open, or more of the same value
                    if re.search(r'[-(/.x]\s*$', tail) and items:
                        items.append(Item(p, items[-1].label, None, None))
                    else:
                        fr = next((f for f in reversed(stack) if f.label), None)
                        items.append(Item(p, fr.label if fr else None, fr, True))
                tail = ''
                continue
            for ch in p:
                if ch == '{':
                    mm = OPEN.search(tail)
                    stack.append(Frame(lab(mm) if mm else None, m.AND(e.g, care), e))
                    tail = ''
                elif ch == '}':
                    h = m.AND(e.g, care)
                    for f in reversed(list(stack)):
                        x = m.AND(h, f.g)
                        if x == m.F:
                            continue
                        if f.e.loops != e.loops:
                            bad.append((e, 'closes a brace of another loop level', x))
                        f.g = m.AND(f.g, m.NOT(h))
                        h = m.AND(h, m.NOT(x))
                        if f.g == m.F:
                            stack.remove(f)
                        if h == m.F:
                            break
                    if h != m.F:
                        bad.append((e, 'closes a brace that was not opened', h))
                    tail = ''
                else:
                    tail += ch
    for f in stack:
        bad.append((f.e, 'opens a brace that is never closed', f.g))
    return items, subs, bad, undec


# ------------------------------------------------------------------ rules
def similar(a, b):
    return a.startswith(b) or b.startswith(a)


def show(p):
    return idd_name(p)


def idd_name(p):
    out = ''
    for c in p:
        if isinstance(c, str):
            if c not in ('*',):
                out += ('.' if out else '') + c
        else:
            out += '[]'
    return out


def where(e):
    return '%s:%s %s' % (e.file, e.line, e.fn)


def step(rep, sid, f, *a):
    try:
        f(rep, sid, *a)
    except Exception as ex:         # a construct this analysis does not know
        if os.environ.get('H265SA_DEBUG'):
            raise
        rep.undecided.append('%s: %s: not followed (%s: %s)' % (
            sid, f.__name__, type(ex).__name__, str(ex)[:150]))


def check_labels(rep, sid, W, P, fn, m, items):
    rec = P.records.get(fn['cls'].replace('T:', ''))
    fs = {f['n']: f['ty'] for f in rec['fields']}
    for it in items:
        rep.obligations += 1
        e, v = it.val.e, it.val.v
        sign(rep, sid, W, P, fn, m, it)
        o = {p for p in origins(m, v)}
        bs = {p[0] for p in o}
        if it.label is None:
            if bs & set(fs):
                rep.violation(sid, 'label', 'unlabelled:' + '+'.join(sorted(bs)),
                              '%s is printed without a name' % ', '.join(sorted(bs)), where(e))
            continue
        L = it.label[0]
        cand = next((x for x in (L + it.label[1], L) if x in fs), None)
        if cand is None:
            if len(bs) == 1 and not any(LEN in p for p in o):
                B = next(iter(bs))
                if B in fs and not similar(B, L):
                    rep.violation(sid, 'label', '%s:%s' % (L, B),
                                  'the value printed as "%s" is the member %s' % (L, B), where(e))
            continue
        if not bs:
            ts = list(m.terminals(v))
            if all(isinstance(t, tuple) and t[0] == 'L' and not t[2] for t in ts):
                w = constant(m, fs, cand, it)
                if w:
                    rep.violation(sid, 'label', '%s:constant' % L,
                                  'a constant is printed as "%s" %s' % (L, w), where(e))
            continue
        if cand not in bs:
            rep.violation(sid, 'label', '%s:%s' % (L, '+'.join(sorted(bs))),
                          'the value printed as "%s" comes from %s' % (
                              L, ', '.join(sorted(map(idd_name, o)))), where(e))
            continue
        exact(rep, sid, m, it, cand, fs)
        index(rep, sid, m, it, o)


def cell_atom(m, name):
    for a, nm in enumerate(m.atoms.names):
        if isinstance(nm, tuple) and member(nm) == (name,):
            return a
    return None


def constant(m, fs, cand, it):
    a = cell_atom(m, cand)
    if a is None:
        return 'on every path'
    for t in m.terminals(it.val.v):
        g = m.AND(it.val.e.g, m.where(it.val.v, lambda x: x == t))
        D = m.AND(g, m.NOT(m.eq0(('L', -t[1], ((a, 1),)))))
        w = witness.search(m, D) if D != m.F else None
        if w is not None:
            return 'for ' + (witness.show(m, w) or 'every object')
    return None


def exact(rep, sid, m, it, cand, fs):
    """The value is the member itself, not something computed from it."""
    e, v = it.val.e, it.val.v
    for t in m.terminals(v):
        if not (isinstance(t, tuple) and t[0] == 'L'):
            continue
        if field_atom(m, t) is not None:
            p = field_atom(m, t)
            if p[0] == cand:
                continue
        g = m.AND(e.g, m.where(v, lambda x: x == t))
        if g == m.F:
            continue
        if len(t[2]) == 1 and t[2][0][1] == 1 and t[1] == 0:
            nm = m.atoms.names[t[2][0][0]]
            if nm[0] == 'wrap':
                continue
        a = None
        for x, _ in t[2]:
            p = member(m.atoms.names[x])
            if p is not None and p[0] == cand:
                a = x
        if a is None:
            for x in m.atoms_of(v):
                p = member(m.atoms.names[x])
                if p is not None and p[0] == cand:
                    a = x
        if a is None:
            rep.undec(sid, 'label', '%s:computed' % cand, 'value of "%s" not followed' % cand,
                      where(e))
            continue
        coef = dict(t[2])
        coef[a] = coef.get(a, 0) - 1
        d = ('L', t[1], tuple(sorted((x, c) for x, c in coef.items() if c)))
        D = m.AND(g, m.NOT(m.eq0(d)))
        w = witness.search(m, D) if D != m.F else None
        if w is not None:
            rep.violation(sid, 'label', '%s:altered' % cand,
                          'the value printed as "%s" differs from the member for %s' % (
                              cand, witness.show(m, w) or 'every object'), where(e))
        elif D != m.F and m.feasible(D) is not None:
            rep.undec(sid, 'label', '%s:altered' % cand, 'value of "%s" not followed' % cand,
                      where(e))


def index(rep, sid, m, it, o):
    """An index in the label is the index of the element."""
    ids = it.label[2]
    if not ids:
        return
    for p in o:
        ix = [c[1] for c in p if isinstance(c, tuple) and c[0] == '[']
        if LEN in p or len(ix) < len(ids):
            continue
        for want, got in zip(ids, ix):
            if m.is_term(want) and m.val(want) != got and isinstance(got, tuple) and \
                    got[0] == 'L' and m.val(want)[0] == 'L':
                d = diff(m.val(want), got)
                D = m.AND(it.val.e.g, m.NOT(m.eq0(d)))
                if D != m.F and m.feasible(D) is not None:
                    rep.violation(sid, 'label', '%s:index' % it.label[0],
                                  'element of "%s" is printed under another index' % it.label[0],
                                  where(it.val.e))


def diff(x, y):
    c = dict(x[2])
    for a, k in y[2]:
        c[a] = c.get(a, 0) - k
    return ('L', x[1] - y[1], tuple(sorted((a, k) for a, k in c.items() if k)))


def bounds(W, P, rec, path):
    """Values the parsers store in a member, or None."""
    pat = tuple('[]' if isinstance(c, tuple) else c for c in path)
    while rec is not None:
        for r in [rec] + [b.replace('T:', '') for b in P.records[rec]['bases']]:
            x = (W.recranges.get(r) or {}).get(pat)
            if x:
                return x
        bs = P.records[rec]['bases']
        rec = bs[0].replace('T:', '') if bs and bs[0].replace('T:', '') in P.records else None
    return None


MODS = {'hh': 8, 'h': 16, '': 32, 'l': 64, 'll': 64, 'z': 64, 'j': 64, 't': 64}


def sign(rep, sid, W, P, fn, m, it):
    """Every stored value is representable in the conversion that prints it."""
    v = it.val.v
    t = m.val(v) if m.is_term(v) else None
    p = field_atom(m, t) if t else None
    if p is None:
        return
    r = bounds(W, P, fn['cls'].replace('T:', ''), p)
    c = CONV.match(it.val.conv)
    k = c.group(5)
    if r is None or k not in 'diuoxX':
        return
    bits = MODS.get(c.group(4) or '', 64)
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if k in 'di' else (0, 2 ** bits - 1)
    rep.obligations += 1
    if r[0] < lo or r[1] > hi:
        rep.violation(sid, 'conversion', p[0], '%s can be %d; %s prints something else' % (
            idd_name(p), r[1] if r[1] > hi else r[0], it.val.conv), where(it.val.e))


def check_once(rep, sid, m, items, subs, care):
    """No member is printed twice."""
    by = {}
    for it in items:
        t = m.val(it.val.v) if m.is_term(it.val.v) else None
        p = field_atom(m, t) if t else None
        if p is not None:
            loop = any(isinstance(c, tuple) and isinstance(c[1], tuple) and c[1][2] for c in p)
            by.setdefault(idd_name(p) if loop else str(p), []).append((p[0], it.val.e))
    for e in subs:
        for p in origins(m, e.d['obj']):
            by.setdefault(('sub', idd_name(p)), []).append((p[0], e))
    for k, l in sorted(by.items(), key=str):
        rep.obligations += 1
        for i, (b, e) in enumerate(l):
            for b2, e2 in l[:i]:
                if e2 is e or pkey(e) == pkey(e2):
                    continue
                D = m.AND(m.AND(e.g, e2.g), care)
                w = witness.search(m, D) if D != m.F else None
                if w is not None:
                    rep.violation(sid, 'twice', b, '%s is printed twice for %s' % (
                        b, witness.show(m, w) or 'every object'), where(e))
                    break


def fixed_len(t, path):
    """Length of the std::array a path leads to, or None."""
    t = interp.unref(t or '')
    for c in path:
        t = interp.unref(t)
        if t[:2] == 'A<':
            t = t[2:-1].split(',', 1)[1]
        elif t[:2] == 'V<':
            t = interp.targ(t)
        else:
            return None
    t = interp.unref(t)
    return int(t[2:-1].split(',', 1)[0]) if t[:2] == 'A<' else None


def mentions(m, x, d, seen=None):
    """Does a value depend on the counter (or anything carried) of loop depth d?"""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'L' and isinstance(x[2], tuple):
            for a, _ in x[2]:
                if a not in seen:
                    seen.add(a)
                    if mentions(m, m.atoms.names[a], d, seen):
                        return True
            return False
        if x and x[0] in ('i', 'phi', 'phx', 'cphi', 'opq', 'T'):
            return x[0] != 'i' or x[1] == d
        return any(mentions(m, y, d, seen) for y in x)
    return False


def check_repeat(rep, sid, m, items, subs, care):
    """What a loop prints depends on the iteration."""
    todo = []
    for it in items:
        t = m.val(it.val.v) if m.is_term(it.val.v) else None
        p = field_atom(m, t) if t else None
        if p is not None:
            todo.append((it.val.e, p))
    for e in subs:
        o = origins(m, e.d['obj'])
        if len(o) == 1:
            todo.append((e, next(iter(o))))
    for e, p in todo:
        for d in range(1, len(e.loops) + 1):
            rep.obligations += 1
            if mentions(m, p, d):
                continue
            a = next((x for x, nm in enumerate(m.atoms.names) if isinstance(nm, tuple) and
                      nm[:2] == ('i', d)), None)
            if a is None:
                continue
            D = m.AND(m.AND(e.g, care), m.le(('L', 1, ((a, -1),))))
            w = witness.search(m, D) if a in m.atoms_of(e.g) and D != m.F else None
            if w is not None:
                rep.violation(sid, 'twice', p[0] + ':loop', '%s is printed again in every '
                              'iteration of a loop: %s' % (idd_name(p), witness.show(m, w)),
                              where(e))


def check_lists(rep, sid, P, fn, m, items, care):
    fs = {f['n']: f['ty'] for f in P.records[fn['cls'].replace('T:', '')]['fields']}
    for it in items:
        if not it.listed or it.frame is None:
            continue
        e = it.val.e
        t = m.val(it.val.v) if m.is_term(it.val.v) else None
        p = field_atom(m, t) if t else None
        if p is None:
            continue
        ix = p[-1]
        if not (isinstance(ix, tuple) and ix[0] == '[' and isinstance(ix[1], tuple) and
                ix[1][0] == 'L' and len(ix[1][2]) == 1):
            continue
        rep.obligations += 1
        k, (a, c) = ix[1][1], ix[1][2][0]
        ln = next((x for x, nm in enumerate(m.atoms.names)
                   if isinstance(nm, tuple) and member(nm) == p[:-1] + (LEN,)), None)
        n = fixed_len(fs.get(p[0]), p[1:-1])
        if c != 1 or (ln is None and n is None):
            rep.undec(sid, 'list', p[0], 'elements of %s: bound not followed' % p[0], where(e))
            continue
        # every position of the list: 0 <= index < size
        first = k + max(0, m.atoms.rng[a][0])
        for j in range(min(first, 8)):
            seen = m.F
            for i2 in items:
                t2 = m.val(i2.val.v) if m.is_term(i2.val.v) else None
                q = field_atom(m, t2) if t2 else None
                if q == p[:-1] + (('[', ('L', j, ())),):
                    seen = m.OR(seen, i2.val.e.g)
            D = m.AND(m.AND(it.frame.g0, care), m.NOT(seen))
            if n is None:
                D = m.AND(D, m.le(('L', j + 1, ((ln, -1),))))
            w = witness.search(m, D) if D != m.F else None
            if w is not None:
                rep.violation(sid, 'list', p[0], 'element %d of %s is not printed: %s' % (
                    j, p[0], witness.show(m, w)), where(e))
                break
        inside = m.AND(m.le(('L', -k, ((a, -1),))),
                       m.le(('L', k + 1, tuple(sorted(((a, 1), (ln, -1))))) if n is None
                            else ('L', k + 1 - n, ((a, 1),))))
        outer = m.T
        for j, x in enumerate(p[:-1]):
            if isinstance(x, tuple) and x[0] == '[' and isinstance(x[1], tuple) and \
                    x[1][0] == 'L' and len(x[1][2]) == 1:
                l2 = next((y for y, nm in enumerate(m.atoms.names)
                           if isinstance(nm, tuple) and member(nm) == p[:j] + (LEN,)), None)
                if l2 is not None:
                    b, cc = x[1][2][0]
                    outer = m.AND(outer, m.AND(
                        m.le(('L', -x[1][1], ((b, -cc),))),
                        m.le(('L', x[1][1] + 1, tuple(sorted(((b, cc), (l2, -1)))))) if l2 != b
                        else m.T))
        W = m.AND(m.AND(it.frame.g0, care), m.AND(inside, outer))
        D = m.AND(W, m.NOT(e.g))
        if D == m.F:
            continue
        free = m.atoms_of(D) - m.atoms_of(it.frame.g0) - {a, ln}
        own = {x for x in free if member(m.atoms.names[x]) is not None and
               member(m.atoms.names[x])[0] == p[0]}
        w = witness.search(m, D) if not (free - own) else None
        if w is not None:
            rep.violation(sid, 'list', p[0], 'not every element of %s is printed: %s' % (
                p[0], witness.show(m, w)), where(e))
        elif m.feasible(D) is not None:
            rep.undec(sid, 'list', p[0], 'elements of %s: bound not followed (%s)' % (
                p[0], m.show_guard(D, 1)), where(e))


def strip(ctx):
    out = []
    i = 1
    while i < len(ctx):
        if ctx[i] == 'u':
            i += 3
            continue
        out.append(ctx[i])
        i += 1
    return tuple(out)


def pkey(e):
    return (strip(e.d['ctx']), id(e.d['call']))


def printed(m, events, items, und, fs):
    """Call site of a print or sub-dump -> members it shows.  Where the value or the
    text is not followed: every member it might be."""
    out = {}
    for it in items:
        o = {p[0] for p in origins(m, it.val.v)}
        if not o and not all(isinstance(t, tuple) and t[0] == 'L' and not t[2]
                             for t in m.terminals(it.val.v)):
            o = {f for f in fs if similar(f, it.label[0])} if it.label else {'*'}
        out.setdefault(pkey(it.val.e), set()).update(o)
    for e, _ in und:
        out.setdefault(pkey(e), set()).add('*')
    for e in events:
        if e.kind == 'dump':
            out.setdefault(pkey(e), set()).update(
                {p[0] for p in origins(m, e.d['obj'])} or {'*'})
    return out


def same_params(r, fn):
    """A dump is given the same nal_unit_type as the parser was."""
    m = r.m
    g = m.T
    def args(f, pre):
        out = {}
        k = 0
        for p in f['ps']:
            u = interp.unref(p[2] or '')
            if 'BitBuffer' in u or ('BitstreamParserState' in u and u.startswith('P<')):
                continue
            if u == 'u32':
                out[p[0]] = m.atoms.ids.get(('f', '%s%d' % (pre, k)))
            k += 1
        return out
    A, Q = args(r.fn, 'arg'), args(fn, 'q')
    for n in A:
        a, b = A[n], Q.get(n)
        if a is not None and b is not None:
            g = m.AND(g, m.eq0(('L', 0, tuple(sorted(((a, 1), (b, -1)))))))
    return g


def unequal(m, x, y):
    return conform.neq(m, x, y) if conform.islin(x) and conform.islin(y) else m.F


def handed(rep, sid, P, r, fn, ev, entry):
    """What a nested dump is given: the type its element was parsed with, and the
    options of its own caller."""
    m = r.m
    subs = [e for e in r.events if e.kind == 'sub']
    for e in ev:
        if e.kind != 'dump' or P.fns.get(e.d['m']) is None:
            continue
        callee = P.fns[e.d['m']]
        cls = (callee.get('cls') or '').replace('T:', '')
        tag = cls.split('::')[-1]
        names = {p[0] for p in origins(m, e.d['obj'])}
        wh = where(e)
        for i, p in enumerate(callee['ps']):
            if i >= len(e.d['args']):
                break
            v = e.d['args'][i]
            if interp.unref(p[2] or '') == 'u32':
                for s in subs:
                    if s.d['rec'] != cls or (names and s.d['name'] and
                                             s.d['name'][0] not in names):
                        continue
                    ps = next((y for y in ([x[0] for x in f['ps'] if 'BitBuffer' not in (
                        x[2] or '')] for f in P.byq.get(s.d['q'], ()))
                        if len(y) == len(s.d['args'])), [])
                    k = ps.index(p[0]) if p[0] in ps else None
                    if k is None or k >= len(s.d['args']):
                        continue
                    rep.obligations += 1
                    w = s.d['args'][k][1]
                    D = m.AND(m.AND(e.g, s.g), entry)
                    if v == w or D == m.F:
                        continue
                    D = m.AND(D, m.bind2(v, w, lambda x, y: unequal(m, x, y)))
                    outcome(rep, sid, m, D, 'given', '%s:%s' % (tag, p[0]),
                            'the dump of %s is not given the %s it was parsed with' % (
                                tag, p[0]), wh)


def options(rep, sid, P, fn, m, ev, care):
    """A nested dump gets the options its caller was given, or keeps."""
    tag = 'ParsingOptions'
    own = [('f', 'arg%d' % i) for i, p in enumerate(fn['ps']) if tag in (p[2] or '')]
    own = own or [('f', 'this', f['n']) for f in P.records[
        fn['cls'].replace('T:', '')]['fields'] if tag in f['ty']]
    for e in ev:
        if e.kind != 'dump' or P.fns.get(e.d['m']) is None or len(own) != 1:
            continue
        for p, o in zip(P.fns[e.d['m']]['ps'], e.d['objs']):
            for f, v in sorted(o.items()) if tag in (p[2] or '') else ():
                nm = own[0] + (f,)
                if nm not in m.atoms.ids:
                    m.atom(nm, 0, 1)
                rep.obligations += 1
                D = m.AND(m.AND(e.g, care), m.bind(v, lambda x: unequal(
                    m, x, ('L', 0, ((m.atoms.ids[nm], 1),)))))
                to = e.d['q'].split('::')[-2]
                outcome(rep, sid, m, D, 'given', '%s:%s' % (to, f),
                        'the dump of %s is not given the option %s of its caller' % (to, f),
                        where(e))


def outcome(rep, sid, m, D, kind, key, text, wh):
    if D == m.F:
        return
    w = witness.search(m, D, {a for a, nm in enumerate(m.atoms.names)
                              if isinstance(nm, tuple) and nm[0] in ('nofail', 'T')})
    if w is not None:
        rep.violation(sid, kind, key, '%s for %s' % (
            text, witness.show(m, w) or 'every input'), wh)
    elif m.feasible(D) is not None:
        rep.undec(sid, kind, key, text + ': ' + m.show_guard(D, 3), wh)


def check_complete(rep, sid, ctx, fn, shows):
    r, err = compose.parser_result(ctx, sid)
    if r is None:
        rep.undecided.append('%s: not analysed (%s)' % (sid, (err or '')[:200]))
        return
    m = r.m
    rec = compose.dyn_rec(ctx, r)
    fs = {f['n'] for f in ctx.prog().records[rec]['fields']}
    for f2, ev, rets, err in compose.each(ctx, sid):
        if f2['m'] != fn['m']:
            continue
        if err:
            rep.undecided.append('%s: dump not analysed (%s)' % (sid, err[:200]))
            continue
        entry = ctx.memo[('entry', sid, fn['m'])]
        entry = m.AND(m.AND(entry, same_params(r, fn)), live(m, ev))
        step(rep, sid, handed, ctx.prog(), r, fn, ev, entry)
        done = {}
        loops = {}
        for e in ev:
            if e.kind == 'loop' and e.loops:
                loops[e.loops[-1]] = e.d['entry_g']
            if e.kind in ('print', 'dump'):
                # inside a loop over a list: check_lists covers the elements
                g = m.OR(e.g, loops[e.loops[0]]) if e.loops and e.loops[0] in loops else e.g
                for b in shows.get(pkey(e), ()):
                    done[b] = m.OR(done.get(b, m.F), g)
        need = {}
        entry_ok = {}
        for e in r.events:
            if e.kind == 'read' and e.d['name'] and e.d['name'][0] == 'f' and \
                    len(e.d['name']) > 1 and e.d['name'][1] in fs:
                need.setdefault(e.d['name'][1], []).append(e)
            elif e.kind == 'sub' and e.d['name'] and e.d['name'][0] in fs:
                need.setdefault(e.d['name'][0], []).append(e)
                a = m.atoms.ids.get(('ok', 'sub', e.site))
                if a is not None:
                    entry_ok[id(e)] = m.NOT(m.eq0(('L', 0, ((a, 1),))))
        rep.units.append('%s: %d elements' % (sid, len(need)))
        for b, es in sorted(need.items()):
            rep.obligations += 1
            for e in es:
                D0 = m.AND(m.AND(e.g, entry), entry_ok.get(id(e), m.T))
                shown = m.OR(done.get(b, m.F), done.get('*', m.F))
                D = m.ANDN(D0, shown)
                if D == m.F:
                    continue
                wh = '%s:%s %s' % (fn['file'], fn['line'], fn['q'])
                if m.ANDN(D0, conform.cofactor(m, shown, conform.is_nofail, 1)) == m.F:
                    # missing only where an iteration of some helper returned
                    rep.undec(sid, 'missing', b, '%s may be decoded but not printed: %s' % (
                        b, m.show_guard(D, 1)), wh)
                    break
                # loops may be assumed to run to their end: enough data may follow
                w = witness.search(m, D, {a for a, nm in enumerate(m.atoms.names)
                                          if isinstance(nm, tuple) and nm[0] == 'nofail'})
                if w is not None:
                    rep.violation(sid, 'missing', b, '%s is decoded but not printed for %s' % (
                        b, witness.show(m, w) or 'every input'), wh)
                    break
                elif m.feasible(D) is not None:
                    rep.undec(sid, 'missing', b, '%s may be decoded but not printed: %s' % (
                        b, m.show_guard(D, 1)), wh)
                    break


@prop('C18', 'Abstract interpretation of every fdump method, on an arbitrary object and on the '
      'objects the parsers return: each printed value is the member its label names '
      '(unaltered, under its own index), each list shows every element, each decoded element '
      'is printed on every path on which it was decoded, braces balance.', 200)
def dump(ctx, rep, tier):
    W = ctx.world()
    P = ctx.prog()
    shown = {}
    for fn in fdumps(P):
        I, m, ev, err = evaluate(ctx, fn)
        sid = fn['cls'].split('::')[-1]
        if err:
            rep.undecided.append('%s: not analysed (%s)' % (sid, err[:200]))
            continue
        care = live(m, ev)
        for g, v, env in I.rets:
            pass
        try:
            items, subs, bad, und = stream(m, ev, care)
        except Exception as ex:     # a construct this analysis does not know
            rep.undecided.append('%s: not followed (%s: %s)' % (sid, type(ex).__name__, ex))
            continue
        rep.units.append('%s: %d values, %d sub-structures' % (sid, len(items), len(subs)))
        for e, t in und:
            rep.undec(sid, 'text', 'line', t, where(e))
        for e, t, g in bad:
            rep.obligations += 1
            w = witness.search(m, g)
            if w is not None:
                rep.violation(sid, 'brace', t, 'the dump %s for %s' % (
                    t, witness.show(m, w) or 'every object'), where(e))
            elif m.feasible(g) is not None:
                rep.undec(sid, 'brace', t, t, where(e))
        step(rep, sid, check_labels, W, P, fn, m, items)
        step(rep, sid, check_once, m, items, subs, care)
        step(rep, sid, check_repeat, m, items, subs, care)
        step(rep, sid, options, P, fn, m, ev, care)
        step(rep, sid, check_lists, P, fn, m, items, care)
        shown[fn['m']] = printed(m, ev, items, und, {
            f['n'] for f in P.records[fn['cls'].replace('T:', '')]['fields']})
    for sid in W.sids:
        r, err = compose.parser_result(ctx, sid)
        if r is None:
            rep.undecided.append('%s: not analysed (%s)' % (sid, (err or '')[:200]))
            continue
        rec = compose.dyn_rec(ctx, r)
        for fn in fdumps(P):
            if fn['cls'].replace('T:', '') == rec and fn['m'] in shown:
                step(rep, sid, check_complete, ctx, fn, shown[fn['m']])
