"""Effects of the library: global state, termination, output streams, files,
sources of nondeterminism."""
import re

import p_safe
from props import prop

TERMINATE = {'exit', 'abort', '_exit', '_Exit', 'quick_exit', 'terminate', 'longjmp',
             'siglongjmp', 'raise', 'kill', 'pthread_exit', '__builtin_trap',
             '__builtin_unreachable'}
FILES = {'fopen', 'freopen', 'fdopen', 'open', 'openat', 'creat', 'tmpfile', 'mkstemp',
         'remove', 'unlink', 'rename', 'rmdir', 'mkdir', 'popen', 'system', 'truncate',
         'ftruncate', 'socket', 'connect', 'fork', 'execv', 'execl', 'execvp', 'dup2',
         'chdir', 'mmap', 'pipe', 'symlink', 'link', 'chmod'}
STATE = {'srand', 'srandom', 'setenv', 'putenv', 'unsetenv', 'setlocale', 'signal',
         'sigaction', 'atexit', 'on_exit', 'strtok', 'set_terminate', 'alarm'}
VARYING = {'rand', 'random', 'rand_r', 'drand48', 'lrand48', 'time', 'clock', 'getenv',
           'gettimeofday', 'clock_gettime', 'getpid', 'gettid', 'now', 'get_id',
           'random_device', 'getrandom', 'times', 'isatty', 'getc', 'getchar', 'fgetc',
           'fgets', 'fread', 'scanf', 'fscanf', 'gets', 'read', 'sleep', 'usleep'}
STDOUT = {'printf', 'puts', 'putchar', 'vprintf', 'putchar_unlocked'}
# function -> position of its stream argument
STREAM = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3,
          'fflush': 0, 'fseek': 0, 'fclose': 0, 'ftell': 0, 'fread': 3, 'rewind': 0,
          'setvbuf': 0, 'setbuf': 0, 'fgets': 2, 'fgetc': 0, 'getc': 0}
STREAMOBJ = {'std::cout', 'std::wcout', 'std::cin', 'std::clog_', 'stdout', 'stdin'}
READERS = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'find', 'count', 'data',
           'c_str', 'length', 'at', 'front', 'back', 'get', 'rbegin', 'rend'}
PURE_EXT = {'ceil', 'log2', 'floor', 'pow', 'round', 'sqrt', 'memcpy', 'memmove', 'memset',
            'memcmp', 'strlen', 'strcmp', 'strncmp', 'snprintf', 'htonl', 'ntohl', 'htons',
            'ntohs', 'strncpy', 'abs', '__assert_fail'}
FILEPTR = re.compile(r'^(const )?P<(const )?(T:)?_IO_FILE>')


def node(x):
    return isinstance(x, list) and len(x) > 1 and isinstance(x[0], str) and \
        isinstance(x[1], int) and not isinstance(x[1], bool)


def walk(x):
    if isinstance(x, dict):
        for y in x.values():
            yield from walk(y)
    elif isinstance(x, list):
        if node(x):
            yield x
        for y in x:
            if isinstance(y, (list, dict)):
                yield from walk(y)


def callee(n):
    """(mangled, qualified, args)"""
    if n[0] == 'call':
        return n[3], n[4], n[5]
    if n[0] == 'mcall':
        return n[3], n[4], n[7] if len(n) > 7 and isinstance(n[7], list) else []
    if n[0] == 'opcall':
        return n[4], n[5], n[6]
    if n[0] == 'ctor':
        return n[3], None, n[5] if len(n) > 5 and isinstance(n[5], list) else []
    return None, None, []


def library(prog):
    return [f for f in prog.fns.values()
            if f['file'].startswith(('src/', 'include/')) and f.get('body') is not None]


def closure(prog, roots):
    """Functions reachable through static and virtual calls."""
    over = {}
    for f in prog.fns.values():
        over.setdefault(f['q'].split('::')[-1], []).append(f)
    seen, work = {}, list(roots)
    while work:
        f = work.pop()
        if f['m'] in seen:
            continue
        seen[f['m']] = f
        for n in walk([f['body'], f.get('inits')]):
            mg, q, _ = callee(n)
            if mg in prog.fns:
                g = prog.fns[mg]
                work.append(g)
                if g.get('virtual'):
                    work += [h for h in over[g['q'].split('::')[-1]] if h.get('virtual')]
    return list(seen.values())


class Fn:
    """Facts about one function body."""

    def __init__(self, f):
        self.f = f
        self.params = {p[1]: p for p in f['ps']}
        self.decls = {}
        for n in walk([f['body']]):
            if n[0] == 'decl':
                for d in n[2:]:
                    self.decls[d[0]] = d

    def stream(self, x, depth=0):
        """What a FILE* expression is: 'param', 'stderr', 'stdout', None (unknown)."""
        while node(x) and x[0] in ('ld', 'cast'):
            x = x[-1] if x[0] == 'cast' else x[3]
        if not node(x) or depth > 5:
            return None
        if x[0] == 'gref':
            return x[3] if x[3] in ('stderr', 'stdout', 'stdin') else None
        if x[0] == 'ref':
            if x[3] in self.params:
                return 'param'
            d = self.decls.get(x[3])
            if d and d[3] is not None and not self.assigned(x[3]):
                return self.stream(d[3], depth + 1)
            return None
        if x[0] == 'cond':
            s = {self.stream(x[4], depth + 1), self.stream(x[5], depth + 1)}
            for bad in ('stdout', None):
                if bad in s:
                    return bad
            return 'param' if 'param' in s else 'stderr'
        return None

    def assigned(self, i):
        for n in walk([self.f['body']]):
            if n[0] in ('asg', 'casg') and root(n[4]) == ('ref', i):
                return True
        return False


def root(x):
    """The variable an lvalue expression is part of."""
    while node(x):
        k = x[0]
        if k == 'ref':
            return ('ref', x[3])
        if k == 'gref':
            return ('static', x[3]) if x[4] else ('gref', x[3])
        if k == 'mem':
            x = x[3]
        elif k == 'idx':
            x = x[3]
        elif k in ('ld', 'cast'):
            t = x[2]
            if k == 'ld' and isinstance(t, str) and t.startswith(('P<', 'U<', 'S<')):
                return None
            x = x[-1] if k == 'cast' else x[3]
        elif k == 'opcall' and x[3] in ('[]',):
            x = x[6][0]
        elif k == 'mcall' and isinstance(x[4], str) and x[4].split('::')[-1] in (
                'at', 'front', 'back', 'begin', 'end', 'data'):
            x = x[5]
        else:
            return None
    return None


def mutations(f, prog):
    """(root, line, how, sure) of everything a function may change."""
    for n in walk([f['body'], f.get('inits')]):
        k = n[0]
        if k in ('asg', 'casg'):
            yield root(n[4]), n[1], 'assigned', True
        elif k == 'un' and any(c in str(n[3]) for c in ('++', '--')):
            yield root(n[4]), n[1], 'changed', True
        elif k == 'un' and n[3] == '&':
            yield root(n[4]), n[1], 'address taken', False
        elif k == 'mcall' and not str(n[3]).startswith('_ZNK'):
            nm = str(n[4]).split('::')[-1]
            if nm not in READERS:
                yield root(n[5]), n[1], 'changed by %s' % nm, True
        elif k == 'opcall':
            op = n[3]
            if op in ('=', '+=', '-=', '|=', '&=', '++', '--', '<<=', '>>=', '^='):
                yield root(n[6][0]), n[1], 'changed by operator %s' % op, True
            elif op == '[]' and not str(n[4]).startswith('_ZNK') and \
                    ('map<' in str(n[4]) or 'map' in str(n[5])):
                yield root(n[6][0]), n[1], 'changed by operator []', True
            elif op in ('<<', '>>'):
                yield root(n[6][0]), n[1], 'used as a stream', True
        if k in ('call', 'mcall', 'ctor'):
            mg, q, args = callee(n)
            pr = prog.fns.get(mg) or prog.protos.get(mg)
            for i, a in enumerate(args or []):
                if not node(a) or a[0] in ('ld', 'int', 'cast'):
                    continue
                if pr is None or i >= len(pr['ps']):
                    continue
                ty = pr['ps'][i][-1] if isinstance(pr['ps'][i][-1], str) else ''
                for t in pr['ps'][i]:
                    if isinstance(t, str) and t.startswith('R<'):
                        ty = t
                if ty.startswith('R<') and not ty.startswith('R<const'):
                    yield root(a), n[1], 'passed by reference to %s' % q, True


def is_const_type(t):
    t = t.strip()
    while t.startswith('A<'):
        t = t[t.index(',') + 1:-1]
    return t.startswith('const ')


def inner(init, ref):
    """Whether ref names a variable declared inside the initialiser (a lambda)."""
    for n in walk(init):
        if n[0] == 'lambda' and any(p[1] == ref[3] for p in n[3]):
            return True
        if n[0] == 'decl' and any(d[0] == ref[3] for d in n[2:]):
            return True
    return False


def where(f, line):
    return '%s:%s %s' % (f['file'], line, f['q'])


def short(f):
    return '::'.join(f['q'].split('::')[-2:])


def globals_(ctx, rep, prog, fns):
    """No variable outliving a call is changed by library code."""
    mutable = {}
    for n, v in prog.vars.items():
        if v['file'].startswith(('src/', 'include/')):
            rep.obligations += 1
            if not v.get('const') and not v.get('constexpr'):
                mutable[n] = v
    for f in fns:
        F = Fn(f)
        statics = {d[1]: d for d in F.decls.values() if d[4] and not is_const_type(d[2])}
        rep.obligations += 1 + len(statics)
        done = set()
        for d in F.decls.values():
            if d[4] and any(y[0] in ('ref', 'this') and not (y[0] == 'ref' and inner(d[3], y))
                            for y in walk(d[3])):
                done.add('static ' + d[1])
                rep.violation(short(f), 'state', 'static ' + d[1], '%s keeps a value of the '
                              'first call' % d[1], where(f, f['line']))
        for r, line, how, sure in mutations(f, prog):
            name = None
            if r and r[0] == 'gref' and r[1] in mutable:
                name = r[1]
            elif r and r[0] == 'static' and r[1].split('::')[-1] in statics:
                name = 'static ' + r[1].split('::')[-1]
            if name is None or name in done:
                continue
            if sure:
                done.add(name)
                rep.violation(short(f), 'state', name, '%s outlives the call and is %s' % (
                    name, how), where(f, line))
            else:
                rep.undec(short(f), 'state', name, '%s outlives the call; its %s' % (name, how),
                          where(f, line))


def calls(ctx, rep, prog, fns):
    for f in fns:
        F = Fn(f)
        hasfile = any(FILEPTR.match(p[2]) for p in f['ps'])
        seen = set()

        def viol(kind, key, text, line):
            if (kind, key) not in seen:
                seen.add((kind, key))
                rep.violation(short(f), kind, key, text, where(f, line))
        for n in walk([f['body'], f.get('inits')]):
            if n[0] == 'throw':
                rep.obligations += 1
                viol('terminate', 'throw', 'throws an exception', n[1])
            if n[0] == 'gref' and n[3] in STREAMOBJ:
                rep.obligations += 1
                viol('stream', n[3], 'uses %s' % n[3], n[1])
            if n[0] not in ('call', 'mcall', 'opcall', 'ctor'):
                continue
            mg, q, args = callee(n)
            rep.obligations += 1
            last = str(q).split('::')[-1] if q else ''
            own = mg in prog.fns and (prog.fns[mg]['file'].startswith(('src/', 'include/')))
            if n[0] == 'call' and not own:
                if last in TERMINATE:
                    viol('terminate', last, 'calls %s' % last, n[1])
                elif last in FILES:
                    viol('file', last, 'calls %s' % last, n[1])
                elif last in STATE:
                    viol('state', last, 'calls %s, which changes process-wide state' % last, n[1])
                elif last in VARYING:
                    viol('varying', last, 'calls %s: the result depends on more than the '
                         'arguments' % last, n[1])
                elif last in STDOUT:
                    viol('stream', last, 'calls %s, which writes to standard output' % last, n[1])
                elif last not in PURE_EXT and last not in STREAM and last not in (
                        'perror',) and not str(q).startswith('std::'):
                    rep.undec(short(f), 'call', last, 'calls %s, whose effects are not known'
                              % q, where(f, n[1]))
            if n[0] == 'ctor' and isinstance(n[2], str) and re.search(
                    r'random_device|mt19937|basic_[io]?f?stream|basic_o?fstream|thread', n[2]):
                viol('varying', n[2], 'constructs a %s' % n[2], n[1])
            # every FILE* handed on is the one the caller gave, or stderr
            for i, a in enumerate(args or []):
                if not node(a) or not isinstance(a[2], str) or not FILEPTR.match(a[2]):
                    continue
                s = F.stream(a)
                rep.obligations += 1
                if s in ('stdout', 'stdin'):
                    viol('stream', '%s of %s' % (s, last), 'hands %s to %s' % (s, last), n[1])
                elif s is None:
                    rep.undec(short(f), 'stream', last, 'stream of %s not followed' % last,
                              where(f, n[1]))
                elif s == 'stderr' and hasfile:
                    if own:
                        viol('stream', 'stderr of %s' % last,
                             'is given a stream but hands stderr to %s' % last, n[1])
                    elif last in STREAM and any(
                            y[0] in ('mem', 'this') for b in args for y in walk(b)):
                        viol('stream', 'stderr of %s' % last,
                             'is given a stream but writes a decoded value to stderr', n[1])


RULE = ('Over every function of the library reachable from a parser, dump or accessor '
        '(static call graph, virtual calls to every overrider): no variable that outlives '
        'the call is changed, nothing terminates or throws, files, clocks, random numbers '
        'and the environment are not touched, and every FILE* used is the parameter of the '
        'dump function or stderr for diagnostics. Every assertion evaluated while parsing '
        'must hold on every path (decision diagrams).')


def constptr(n):
    return node(n) and len(n) > 2 and isinstance(n[2], str) and n[2].startswith('P<const ')


def looked_at(n, alias):
    """The lvalue n lies in an object that is only lent for reading."""
    while node(n):
        if n[0] == 'idx' or n[0] == 'un' and n[3] == '*':
            b = n[3] if n[0] == 'idx' else n[4]
            if constptr(b) or held(b, alias):
                return True
            if node(b) and isinstance(b[2], str) and b[2].startswith('A<'):
                n = b
                continue
            return False
        if n[0] == 'mem':
            b = n[3]
            if n[5]:
                return constptr(b) or held(b, alias)
            if node(b) and isinstance(b[2], str) and b[2].startswith('const ') or held(b, alias):
                return True
            n = b
            continue
        if n[0] in ('cast', 'paren'):
            n = n[4] if n[0] == 'cast' else n[3]
            continue
        return n[0] in ('ref', 'gref') and isinstance(n[2], str) and n[2].startswith('const ')
    return False


def held(b, alias):
    while node(b) and b[0] in ('ld', 'cast', 'paren', 'bin'):
        b = b[4] if b[0] in ('cast', 'bin') else b[3]
        if b and node(b) and b[0] == 'bin':
            b = b[5] if not str(b[5][2]).startswith('P<') else b[5]
    return node(b) and b[0] == 'ref' and b[3] in alias


FILL = ('memcpy', 'memset', 'memmove', 'fread', 'strcpy', 'strncpy', 'snprintf')


def lent(ctx, rep, prog, fns):
    """Nothing that is passed for reading (input bytes, results, state) is written."""
    for f in fns:
        body = [f['body'], f.get('inits')]
        alias = set()
        for n in walk(body):
            if n[0] == 'decl':
                for d in n[2:]:
                    if isinstance(d, list) and len(d) > 3 and str(d[2]).startswith('P<') and \
                            not str(d[2]).startswith('P<const ') and constptr(d[3]):
                        alias.add(d[0])
                    elif isinstance(d, list) and len(d) > 3 and node(d[3]) and \
                            str(d[2]).startswith('R<') and \
                            not str(d[2]).startswith('R<const ') and \
                            str(d[3][2]).startswith('const '):
                        alias.add(d[0])
        for n in walk(body):
            tgt = None
            if n[0] in ('asg', 'casg'):
                tgt = n[4]
            elif n[0] == 'un' and any(c in str(n[3]) for c in ('++', '--')):
                tgt = n[4]
            elif n[0] == 'mcall' and str(n[3]).startswith('_Z') and \
                    not str(n[3]).startswith('_ZNK'):
                rep.obligations += 1
                o = n[5]
                if constptr(o) or held(o, alias) if n[6] else looked_at(o, alias) or \
                        held(o, alias) and str(o[2]).startswith('R<'):
                    rep.violation(short(f), 'lent', str(n[4]).split('::')[-1],
                                  'changes what was only lent for reading', where(f, n[1]))
                continue
            elif n[0] == 'call' and str(n[4]).split('::')[-1] in FILL and n[5]:
                a = n[5][0]
                while node(a) and a[0] in ('cast', 'paren'):
                    if constptr(a[4] if a[0] == 'cast' else a[3]):
                        break
                    a = a[4] if a[0] == 'cast' else a[3]
                if constptr(a) or node(a) and a[0] == 'cast' and constptr(a[4]) or held(a, alias):
                    rep.violation(short(f), 'lent', 'filled by %s' % n[4],
                                  'fills what was only lent for reading', where(f, n[1]))
                continue
            if tgt is None:
                continue
            rep.obligations += 1
            if looked_at(tgt, alias):
                rep.violation(short(f), 'lent', n[0], 'changes what was only lent for reading '
                              '(input bytes, a result or the state)', where(f, n[1]))


@prop('C14', RULE, 200)
def effects(ctx, rep, tier):
    prog = ctx.prog('normal')
    lib = library(prog)
    # reading a file named by the caller is not parsing
    reader = {f['m'] for f in closure(prog, [f for f in lib if f['q'].endswith('::ReadFile')])}
    roots = [f for f in lib if f['m'] not in reader]
    fns = closure(prog, roots)
    fns = [f for f in fns if f['file'].startswith(('src/', 'include/'))]
    rep.units.append({'functions': len(fns), 'not parsing (reads a file by name)': [
        f['q'] for f in lib if f not in fns]})
    rep.samples += [f['q'] for f in fns[:4]]
    globals_(ctx, rep, prog, fns)
    lent(ctx, rep, prog, fns)
    calls(ctx, rep, prog, fns)
    k = {'abort'}
    p_safe.over_parsers(ctx, rep, k)
    p_safe.over_methods(ctx, rep, k)
    p_safe.over_rest(ctx, rep, k, lambda f: '::H265' in f['q'])
