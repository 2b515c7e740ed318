"""Loops in one form, so that what is analysed does not depend on how a loop is
spelt:
   for (;;inc) { if (X) break; B }          ->  for (; !X; inc) { B }
   for (;C;inc) { if (X) break; B }         ->  for (; C && !X; inc) { B }
   while (true) { B; if (X) break; }        ->  do { B } while (!X)
   if (C) do { B } while (C)                ->  while (C) { B }
   for (T j = n; j-- > 0;) { B }            ->  for (T j = n; j > 0;) { j--; B }
   bool f = false; loop { ... f = true; break; ... } if (f) { S; return x; }
                                            ->  loop { ... { S; return x; } ... }
Each rule keeps what is evaluated and in which order."""
import copy


def const_true(c):
    if c is None:
        return True
    while isinstance(c, list) and c[0] == 'cast':
        c = c[4]
    return isinstance(c, list) and c[0] in ('int', 'bool') and c[3] not in (0, False, '0')


def negate(x):
    if x[0] == 'un' and x[3] == '!':
        return x[4]
    return ['un', x[1], x[2], '!', x]


def single(s):
    """The only statement of a block, or the statement itself."""
    while isinstance(s, list) and s and s[0] == 'blk' and len(s) == 3:
        s = s[2]
    return s


def is_break(s):
    s = single(s)
    return isinstance(s, list) and s and s[0] == 'break'


def empty(s):
    return s is None or (isinstance(s, list) and s and s[0] == 'blk' and
                         all(empty(x) for x in s[2:]))


def break_test(s):
    """X of  if (X) break;"""
    s = single(s)
    if isinstance(s, list) and s and s[0] == 'if':
        if is_break(s[3]) and empty(s[4]):
            return s[2]
        if s[4] is not None and is_break(s[4]) and empty(s[3]):
            return negate(s[2])
    return None


def own(s, what):
    """break / continue that belongs to this loop body."""
    if not isinstance(s, list) or not s:
        return False
    if s[0] == what:
        return True
    if s[0] in ('for', 'do', 'forrange', 'lambda'):
        return False
    if s[0] == 'switch' and what == 'break':
        return False
    return any(own(x, what) for x in s if isinstance(x, list))


def same(a, b):
    """Equal but for line numbers."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        k = isinstance(a[0], str) if a else False
        for i, (x, y) in enumerate(zip(a, b)):
            if k and i == 1 and isinstance(x, int) and isinstance(y, int):
                continue
            if not same(x, y):
                return False
        return True
    return a == b


def conj(a, b):
    if const_true(a):
        return b
    return ['bin', a[1], b[2], '&&', a, b]


def flat(body):
    """Statements of a loop body, the first one not hidden in a block."""
    if isinstance(body, list) and body and body[0] == 'blk':
        return list(body[2:])
    return [body]


def uncast(c):
    while isinstance(c, list) and c and c[0] == 'cast' and c[4]:
        c = c[4]
    return c


def countdown(c):
    """(condition, decrement) of  j-- > 0,  j-- != 0,  j--."""
    def post(x):
        x = uncast(x)
        if isinstance(x, list) and x and x[0] == 'ld':
            x = x[3]
        return x if isinstance(x, list) and x and x[0] == 'un' and x[3] == 'post--' and \
            x[4][0] == 'ref' else None

    def lit(x):
        x = uncast(x)
        return x[3] if isinstance(x, list) and x and x[0] == 'int' else None
    if c is None:
        return None
    if c[0] == 'bin' and c[3] in ('>', '!=', '>=', '<'):
        a, b, op = c[4], c[5], c[3]
        if op == '<':
            a, b = b, a
        x = post(a)
        if x is None or lit(b) != (1 if op == '>=' else 0):
            return None
        d = a
    else:
        x, d, op = post(c), c, None
        if x is None:
            return None

    def swap(n):
        if n is x:
            return ['ld', x[1], x[4][2], x[4]]
        return [swap(y) for y in n] if isinstance(n, list) else n
    return swap(c), x


def loop(s):
    if s[0] == 'for' and s[4] is None and s[2] is not None and s[2][0] == 'decl':
        r = countdown(s[3])
        if r is not None and r[1][4][3] in [d[0] for d in s[2][2:]]:
            s = [s[0], s[1], s[2], r[0], None,
                 ['blk', s[1], ['expr', s[1], copy.deepcopy(r[1])]] + flat(s[5])]
    while s[0] == 'for':
        body = flat(s[5])
        while body and empty(body[0]):
            body = body[1:]
        if not body:
            break
        x = break_test(body[0])
        if x is not None:
            s = [s[0], s[1], s[2], conj(s[3], negate(x)), s[4], ['blk', s[1]] + body[1:]]
            continue
        break
    if s[0] == 'for' and s[2] is None and s[4] is None and const_true(s[3]):
        body = flat(s[5])
        while body and empty(body[-1]):
            body = body[:-1]
        x = break_test(body[-1]) if body else None
        rest = ['blk', s[1]] + body[:-1]
        if x is not None and not own(rest, 'continue') and not declares(body[:-1], x):
            s = ['do', s[1], rest, negate(x)]
    return s


def declares(stmts, x):
    """The condition uses a variable declared in the body: not visible after it."""
    ids = {d[0] for st in stmts if isinstance(st, list) and st and st[0] == 'decl'
           for d in st[2:] if isinstance(d, list)}
    return bool(ids) and uses(x, ids)


def uses(x, ids):
    if isinstance(x, list):
        if len(x) > 3 and x[0] == 'ref' and x[3] in ids:
            return True
        return any(uses(y, ids) for y in x)
    return False


def fold(e, known):
    """The constant value of e, when the variables in known are."""
    if not isinstance(e, list) or not e:
        return None
    k = e[0]
    if k in ('int', 'bool'):
        return int(e[3])
    if k == 'ref':
        return known.get(e[3])
    if k == 'ld':
        return fold(e[3], known)
    if k == 'cast':
        return fold(e[4], known)
    if k == 'un' and e[3] == '!':
        v = fold(e[4], known)
        return None if v is None else int(not v)
    if k == 'bin' and e[3] in ('==', '!='):
        a, b = fold(e[4], known), fold(e[5], known)
        return None if a is None or b is None else int((a == b) == (e[3] == '=='))
    return None


def setting(s):
    """(variable, constant) of  f = constant;"""
    s = single(s)
    if isinstance(s, list) and s and s[0] == 'expr' and isinstance(s[2], list) and \
            s[2][0] == 'asg' and s[2][3] == '':
        l, v = s[2][4], fold(s[2][5], {})
        if l[0] == 'ref' and v is not None:
            return l[3], v
    return None


def leaves(s):
    """Ends in a return, and has no other way out."""
    if not isinstance(s, list) or not s:
        return False
    if s[0] == 'ret':
        return True
    if s[0] == 'blk' and len(s) > 2:
        return leaves(s[-1]) and not any(
            own(x, 'break') or own(x, 'continue') for x in s[2:])
    return False


def thread(s, loc, test, out):
    """Replaces, in a loop body, the ways out by break on which test is known to
    be true by out.  loc: the flags."""
    if not isinstance(s, list) or not s:
        return s
    if s[0] in ('for', 'do', 'forrange', 'lambda', 'switch'):
        return s
    if s[0] == 'if':
        t = s[3]
        for f in loc:
            for c in (0, 1):
                if is_break(t) and empty(s[4]) and fold(s[2], {f: 1 - c}) == 0 and \
                        fold(test, {f: c}):
                    return s[:3] + [copy.deepcopy(out), s[4]]
        return s[:3] + [thread(t, loc, test, out), thread(s[4], loc, test, out)]
    if s[0] == 'blk':
        r = s[:2]
        body = s[2:]
        i = 0
        while i < len(body):
            x = body[i]
            st = setting(x)
            if st and st[0] in loc and i + 1 < len(body) and is_break(body[i + 1]) and \
                    fold(test, {st[0]: st[1]}):
                r.append(copy.deepcopy(out))
                return r
            r.append(thread(x, loc, test, out))
            i += 1
        return r
    return s


def flags(s):
    """Loops followed by a test of a flag that tells how they were left."""
    loc = set()
    for i, x in enumerate(s):
        if not isinstance(x, list) or not x:
            continue
        if x[0] == 'decl':
            for d in x[2:]:
                if isinstance(d, list) and d[2] in ('bool', 'const bool') and fold(d[3], {}) is not None:
                    loc.add(d[0])
        if x[0] in ('for', 'do', 'forrange') and i + 1 < len(s) and loc:
            n = single(s[i + 1])
            if isinstance(n, list) and n and n[0] == 'if' and empty(n[4]) and leaves(n[3]):
                b = {'for': 5, 'do': 2, 'forrange': 4}[x[0]]
                body = x[b] if isinstance(x[b], list) and x[b][0] == 'blk' else \
                    ['blk', x[1], x[b]]
                used = {f for f in loc if uses(n[2], {f})}
                x[b] = thread(body, used, n[2], n[3])


def walk(s):
    if not isinstance(s, list) or not s:
        return s
    if s[0] == 'blk':
        flags(s)
    for i, x in enumerate(s):
        if isinstance(x, list):
            s[i] = walk(x)
    if s[0] == 'for' and len(s) == 6:
        return loop(s)
    if s[0] == 'if' and len(s) == 5 and empty(s[4]):
        b = single(s[3])
        if isinstance(b, list) and b and b[0] == 'do' and same(b[3], s[2]):
            return ['for', b[1], None, s[2], None, b[2]]
    return s


def program(prog):
    for fn in prog.fns.values():
        if fn.get('body') is not None:
            fn['body'] = walk(fn['body'])
    return prog
