"""The small-footprint configuration against the normal one: every function that
both contain must be the same function apart from its diagnostics.  Where the
text differs, both configurations are compared with the reference tables."""
import json

import analysis
import conform
import idd
import p_pure
from props import prop

PRINTS = ('fprintf', 'printf', 'vfprintf', 'fputs', 'puts', 'fputc', 'fflush', 'perror')
READERS = ('back', 'front', 'begin', 'end', 'data', 'get', 'at', 'find')
MUT = ('asg', 'casg', 'new', 'delete', 'throw', 'ret', 'break', 'continue')


def node(x):
    return isinstance(x, list) and len(x) > 1 and isinstance(x[0], str) and \
        isinstance(x[1], int) and not isinstance(x[1], bool)


def effects(x):
    """Evaluating x may change something."""
    if not isinstance(x, list):
        return False
    if node(x):
        if x[0] in MUT or (x[0] == 'un' and x[3] in ('++', '--', 'p++', 'p--', '++p', '--p')):
            return True
        if x[0] == 'un' and ('++' in str(x[3]) or '--' in str(x[3])):
            return True
        if x[0] == 'mcall' and not const_method(x[3]) and not (
                isinstance(x[4], str) and x[4].startswith('std::') and
                x[4].split('::')[-1] in READERS):
            return True
        if x[0] == 'opcall' and x[3] in ('=', '+=', '-=', '++', '--', '<<', '>>'):
            return True
    return any(effects(y) for y in x)


def const_method(mangled):
    return mangled.startswith('_ZNK') or 'UlvE' in mangled


def diagnostic(s):
    """A statement that only writes to standard error."""
    while node(s) and (s[0] == 'expr' or s[0] == 'cast'):
        s = s[2] if s[0] == 'expr' else s[-1]
    if not node(s) or s[0] != 'call' or not isinstance(s[4], str):
        return False
    return s[4].split('::')[-1] in PRINTS and '"stderr"' in json.dumps(s[5]) and \
        not effects(s[5])


class Norm:
    def __init__(self):
        self.ren = {}

    def num(self, i):
        return self.ren.setdefault(i, len(self.ren))

    def stmts(self, l):
        out = []
        for s in l:
            if diagnostic(s):
                continue
            if node(s) and s[0] == 'blk':
                inner = self.stmts(s[2:])
                if inner:
                    out.append(['blk'] + inner)
                continue
            r = self.go(s)
            if r[0] == 'if' and not r[2] and not r[3] and not effects(s[2]):
                continue
            out.append(r)
        return out

    def stmt(self, s):
        if s is None:
            return []
        return self.stmts(s[2:] if node(s) and s[0] == 'blk' else [s])

    def go(self, x):
        if isinstance(x, dict):
            return {k: self.go(y) for k, y in x.items() if k != 'line'}
        if not isinstance(x, list):
            return x
        if node(x):
            if x[0] == 'blk':
                return ['blk'] + self.stmts(x[2:])
            if x[0] == 'if':
                return ['if', self.go(x[2])] + [self.stmt(y) for y in x[3:5]] + \
                    [self.go(y) for y in x[5:]]
            if x[0] == 'decl':
                return ['decl'] + [[self.num(d[0])] + [self.go(y) for y in d[1:]] for d in x[2:]]
            if x[0] == 'ref':
                return ['ref', x[2], self.num(x[3])] + x[5:]
            if x[0] == 'forrange':
                d = x[2]
                return ['forrange', [self.num(d[0])] + d[2:]] + [self.go(y) for y in x[3:]]
            return [x[0]] + [self.go(y) for y in x[2:]]
        return [self.go(y) for y in x]


def normal_form(f):
    n = Norm()
    for i, p in enumerate(f['ps']):
        n.num(p[1])
    return json.dumps([f['ret'], f.get('const'), f.get('static'),
                       [[p[2]] + p[3:] for p in f['ps']],
                       n.go(f['body']), n.go(f.get('inits') or [])])


def record_form(r):
    return [(x['n'], x['ty'], json.dumps(Norm().go(x.get('init')))) for x in r['fields']], \
        r.get('bases')


RULE = ('Every function present in both configurations is lowered under the macros of '
        'each and must be the same typed IR once statements that only write to standard '
        'error are removed. Where it is not, parsers of both configurations are compared '
        'with the reference tables on decision diagrams and must agree or differ from them '
        'identically; every record must have the same members, types and initial values.')


@prop('C22', RULE, 100)
def small(ctx, rep, tier):
    A, B = ctx.prog('normal'), ctx.prog('small')
    differ = []
    for mg, f in sorted(B.fns.items()):
        if f.get('body') is None or f['q'].startswith('h265spec'):
            continue
        if not f['q'].startswith('h265nal'):
            continue
        g = A.fns.get(mg)
        if g is None or g.get('body') is None:
            rep.undecided.append('%s exists only in the small configuration' % f['q'])
            continue
        rep.obligations += 1
        if normal_form(f) == normal_form(g):
            continue
        differ.append(f)
    only = sorted({f['q'] for mg, f in A.fns.items()
                   if f['q'].startswith('h265nal') and mg not in B.fns})
    rep.extra['only_in_normal'] = only
    rep.units.append({'functions_in_both': rep.obligations,
                      'differing_text': [f['q'] for f in differ]})
    for f in list(B.fns.values())[:3]:
        rep.samples.append(f['q'])
    for n, r in sorted(B.records.items()):
        if not n.replace('T:', '').startswith('h265nal') or n not in A.records:
            continue
        rep.obligations += 1
        a, b = record_form(A.records[n]), record_form(r)
        if a != b:
            fields(rep, n, a, b, r)
    for f in only:
        if f.split('::')[-1].startswith('Parse') and 'Rtp' not in f:
            last = f.split('::')[-1]
            if not any(g['q'] == f for g in B.fns.values()):
                rep.obligations += 1
                rep.violation('small', 'missing', f, '%s exists only in the normal '
                              'configuration' % last, f)
    if differ:
        semantic(ctx, rep, differ)


def fields(rep, n, a, b, r):
    da, db = {x[0]: x for x in a[0]}, {x[0]: x for x in b[0]}
    where = '%s:%s %s' % (r.get('file'), r.get('line'), n)
    for k in dict.fromkeys(list(da) + list(db)):
        if da.get(k) != db.get(k):
            rep.violation('small', 'member', '%s::%s' % (n, k),
                          'member %s of %s is %s in the normal and %s in the small '
                          'configuration' % (k, n, da.get(k), db.get(k)), where)
    if not any(da.get(k) != db.get(k) for k in set(da) | set(db)):
        rep.undec('small', 'member', n, 'members in another order', where)


def semantic(ctx, rep, differ):
    """Functions whose text differs: both configurations against the reference."""
    W = ctx.world('normal')
    B = ctx.prog('small')
    V = analysis.World(B, [s for s in W.sids if any(
        f.get('body') is not None for f in B.byq.get(analysis.QNAME[s], []))])
    ctx._world['small'] = V
    covered = set()
    for sid in V.sids:
        if sid not in W.sids:
            continue
        res = []
        for cfg, w in (('normal', W), ('small', V)):
            if cfg == 'normal':
                c, err = ctx.compare(sid)
            else:
                try:
                    c, err = conform.compare(w, sid, idd.IDD()), None
                    c.run()
                except (analysis.Undecided, analysis.Blowup, RecursionError,
                        analysis.Vanished) as ex:
                    c, err = None, str(ex)
            res.append((cfg, c, err))
        n = 0
        sets = []
        for cfg, c, err in res:
            if c is None:
                rep.undecided.append('%s (%s): %s' % (sid, cfg, err[:160]))
                break
            n = max(n, c.checked)
            covered |= {e.fn for e in c.c.r.events}
            covered.add(c.c.r.fn['q'])
            sets.append({f.ident(): f for f in c.findings if f.verdict == 'violation'})
        else:
            rep.obligations += n
            for i, other, cfg in ((0, 1, 'small'), (1, 0, 'normal')):
                for k, f in sets[i].items():
                    if k not in sets[other]:
                        rep.violation(sid, 'differs', k, 'the configurations decode '
                                      'differently; only the %s one: %s' % (
                                          'normal' if cfg == 'small' else 'small', f.text),
                                      f.where)
            rep.units.append({'structure': sid, 'compared': n})
    pure(ctx, rep, differ, covered)
    for f in differ:
        if f['q'] not in covered:
            rep.undecided.append('%s: differs in text and is not followed by the comparison'
                                 % f['q'])


def pure(ctx, rep, differ, covered):
    names = {f['q'] for f in differ}
    for key, q, ref, member in p_pure.NAMES + p_pure.DERIVED:
        if q not in names:
            continue
        got = []
        for cfg in ('normal', 'small'):
            r2 = type(rep)()
            p_pure.compare(ctx, r2, key, q, ref, member, config=cfg)
            got.append({f.ident(): f for f in r2.findings if f.verdict == 'violation'})
            if r2.undecided:
                got = None
                break
        if got is None:
            continue
        covered.add(q)
        rep.obligations += 1
        for k in set(got[0]) ^ set(got[1]):
            f = got[0].get(k) or got[1][k]
            rep.violation(key, 'differs', k, 'only one configuration: ' + f.text, f.where)
