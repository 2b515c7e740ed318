"""Ownership and lifetime (C29): who owns the memory of results, and whether every
reference, pointer, iterator and reader is used only while what it refers to exists.
A flow analysis over each function's structured IR; storage is named by access paths
(variable, member, '*' through an owning pointer, '[]' into a container)."""
from interp import unref, targ
from p_effects import node, walk
from props import prop

N = 'h265nal::'
OWN = ('U<', 'S<', 'V<', 'M<', 'A<')
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'resize', 'clear', 'assign',
        'reserve', 'pop_back', 'shrink_to_fit', 'append', 'swap', 'operator=', 'operator+='}
INTO = {'data', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend',
        'find', 'c_str', 'operator[]', 'get', 'second', 'first', 'lower_bound', 'upper_bound'}
ITER = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound',
        'upper_bound', 'insert', 'erase'}
MAPKEEP = {'insert', 'emplace', 'operator[]', 'insert_or_assign', 'try_emplace'}
READER = {'T:' + N + 'BitBuffer', 'T:' + N + 'BitBufferWriter'}


def strip(t):
    t = t or ''
    while t.startswith('const '):
        t = t[6:]
    return t


def owning(t):
    """Objects of this type free storage of their own when they go."""
    t = strip(t)
    return t[:2] in OWN or t == 'str' or t.startswith('T:') and t not in READER


def handle_type(t):
    t = strip(t)
    return t[:2] in ('P<', 'R<') or t in READER


class State:
    def __init__(self, pts=None, bad=None, moved=None, files=None):
        self.pts = pts or {}       # variable -> paths it refers to
        self.bad = bad or {}       # variable -> why what it refers to is gone
        self.moved = moved or {}   # path -> line of the move
        self.files = files or {}   # variable -> line of fopen
        self.live = True

    def copy(self):
        s = State(dict(self.pts), dict(self.bad), dict(self.moved), dict(self.files))
        s.live = self.live
        return s

    def join(self, o, depth=None):
        """depth: nesting of the condition that separates the two."""
        if not o.live:
            return
        if not self.live:
            self.__dict__.update(o.copy().__dict__)
            return
        for k, v in o.pts.items():
            self.pts[k] = self.pts.get(k, frozenset()) | v
        for a, b in ((self.bad, o.bad), (self.moved, o.moved), (self.files, o.files)):
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if x is None or y is None:
                    x = x or y
                    if depth is not None:
                        # a second condition may well exclude the first one
                        x = (x[0], depth if x[1] is None else -1)
                elif x[1] is not None:
                    x = y if y[1] is None else (x[0], max(x[1], y[1]))
                a[k] = x

    def key(self):
        return (self.live, tuple(sorted(self.pts.items(), key=str)), tuple(sorted(self.bad)),
                tuple(sorted(self.moved, key=str)), tuple(sorted(self.files)))


class Flow:
    def __init__(self, P, fn, found):
        self.P, self.fn, self.found = P, fn, found
        self.types = {}
        self.names = {}
        self.scopes = []
        self.loops = []
        self.sites = 0
        self.rettype = strip(fn.get('ret'))
        for n, i, t in fn['ps']:
            self.types[i] = t or ''
            self.names[i] = n
        self.depth = 0
        self.nest = 0
        self.undecided = []
        self.params = {p[1] for p in fn['ps']}
        self.statics = set()
        self.assigned = set()
        self.tests = {}     # local -> the condition it is the value of
        assigned(fn['body'], self.assigned)

    def report(self, kind, what, text, line, why=None):
        if why is not None and why[1] is not None and why[1] < self.depth:
            # both under conditions of their own, which may exclude each other
            self.undecided.append((kind, what, text, line))
            return
        k = (kind, what)
        if k not in self.found:
            self.found[k] = (text, '%s:%s %s' % (self.fn['file'], line, self.fn['q']))

    def run(self):
        st = State()
        self.scopes.append([])
        self.stmt(self.fn['body'], st)
        if st.live:
            self.leave(st, self.fn['line'])
        return self

    # ------------------------------------------------------------ paths
    def paths(self, e, st):
        """Access paths an lvalue (or the object a pointer value points at) may name."""
        if not node(e):
            return frozenset()
        k = e[0]
        if k == 'ref':
            t = strip(self.types.get(e[3], e[2]))
            if handle_type(t) or e[3] in st.pts:
                return st.pts.get(e[3], frozenset({(e[3], '?')}))
            return frozenset({(e[3],)})
        if k == 'gref':
            return frozenset({('global', e[3])})
        if k == 'this':
            return frozenset({('this',)})
        if k in ('ld', 'cast'):
            return self.paths(e[4] if k == 'cast' else e[3], st)
        if k == 'mem':
            return frozenset(p + (e[4],) for p in self.paths(e[3], st))
        if k == 'un' and e[3] in ('*', '&'):
            return self.paths(e[4], st)
        if k == 'cond':
            return self.paths(e[4], st) | self.paths(e[5], st)
        if k == 'bin' and e[3] in ('+', '-'):
            return self.paths(e[4], st)
        if k == 'idx':
            b = self.paths(e[3], st)
            return frozenset(p + ('.[]',) for p in b)
        if k == 'opcall':
            op, args = e[3], e[6]
            a = args[0] if args else None
            if a is None:
                return frozenset()
            at = strip(unref(a[2] if len(a) > 2 and isinstance(a[2], str) else ''))
            if op in ('->', '*'):
                if at[:2] in ('U<', 'S<'):
                    return frozenset(p + ('*',) for p in self.paths(a, st))
                return self.paths(a, st)            # iterators
            if op == '[]':
                if at.startswith('A<'):
                    return frozenset(p + ('.[]',) for p in self.paths(a, st))
                return frozenset(p + (('m[]' if at.startswith('M<') else '[]'),)
                                 for p in self.paths(a, st))
            if op in ('=', '++', '--', '+=', '-=', '+', '-'):
                return self.paths(a, st) if op != '+' or at != 'str' else self.tmp(e)
            return self.tmp(e)
        if k == 'mcall':
            meth = e[4].split('::')[-1]
            o = e[5]
            ot = strip(unref(o[2] if len(o) > 2 and isinstance(o[2], str) else ''))
            if ot.startswith('P<'):
                ot = strip(targ(ot))
            if meth in INTO and not e[4].startswith(N):
                b = self.paths(o, st)
                if ot[:2] in ('U<', 'S<'):
                    return frozenset(p + ('*',) for p in b)
                if ot.startswith('A<'):
                    return frozenset(p + ('.[]',) for p in b)
                return frozenset(p + (('m[]' if ot.startswith('M<') else '[]'),) for p in b)
            return self.tmp(e)
        if k == 'call' and e[4] in ('std::move', 'std::forward') and e[5]:
            return self.paths(e[5][0], st)
        if k in ('call', 'ctor'):
            if k == 'ctor' and e[4] in ('move', 'copy') and len(e[5]) == 1 and \
                    not owning(e[2]):
                return self.paths(e[5][0], st)
            return self.tmp(e)
        return frozenset()

    def tmp(self, e):
        """A value made by this expression: gone at the end of the statement."""
        t = strip(e[2] if isinstance(e[2], str) else '')
        if t[:2] in ('U<', 'V<') or t == 'str':
            return frozenset({('tmp',)})
        return frozenset()

    # ------------------------------------------------------------ events
    def invalidate(self, st, q, kind, line, keep=()):
        """Storage behind path q is released or moved about."""
        n = len(q)
        for v, ps in list(st.pts.items()):
            if v in keep or v in st.bad:
                continue
            for p in ps:
                if p[:n] == q and len(p) > n and (
                        p[n] == '*' if kind == '*' else p[n] in ('[]', 'm[]') if kind == '[]'
                        else any(c in ('[]', 'm[]', '*') for c in p[n:])):
                    st.bad[v] = (line, None)
        for p in list(st.moved):
            if p[:n] == q:
                del st.moved[p]

    def die(self, st, var, line):
        t = self.types.get(var, '')
        if handle_type(t):
            return
        for v, ps in list(st.pts.items()):
            if v == var or v in st.bad:
                continue
            for p in ps:
                if p[0] != var:
                    continue
                gone = any(p[:i] in st.moved for i in range(1, len(p) + 1)) and len(p) > 1
                # what a shared pointer holds may have other owners
                sh = any(c == '*' for c in p) and strip(t)[:2] == 'S<'
                if not gone and not sh:
                    st.bad[v] = (line, None)
        for d in (st.pts, st.bad, st.moved):
            for k in list(d):
                if (k[0] if isinstance(k, tuple) else k) == var:
                    del d[k]

    def use(self, st, var, line):
        if var in st.bad:
            n = self.names.get(var, '?')
            self.report('dangling', n, '%s is used after what it refers to was released or moved '
                        'about (line %s)' % (n, st.bad[var][0]), line, st.bad[var])

    def use_path(self, st, ps, line, name=''):
        for p in ps:
            for i in range(1, len(p) + 1):
                if p[:i] in st.moved:
                    n = name or self.names.get(p[0], str(p[0]))
                    self.report('moved', n, '%s is used after its content was moved away '
                                '(line %s)' % (n, st.moved[p[:i]][0]), line, st.moved[p[:i]])

    def expr(self, e, st):
        self.nest += 1
        self.expr_(e, st)
        self.nest -= 1
        if not self.nest and st.files and st.live:
            for v in self.handed(e, set(st.files)):
                if v in st.files and not (node(e) and e[0] == 'asg' and var_of(e[4]) == v):
                    st.files.pop(v)

    def handed(self, e, vs, fine=False):
        """Variables whose value goes somewhere that may take it over."""
        if not isinstance(e, list) or not e:
            return set()
        if not isinstance(e[0], str):
            return set().union(*[self.handed(x, vs) for x in e])
        k = e[0]
        if k in ('ld', 'cast', 'ref'):
            v = var_of(e)
            if 'Bool' in str(e[3]):
                return set()
            if v is not None:
                return {v} & vs if not fine else set()
        fine = k == 'bin' and e[3] in ('==', '!=', '&&', '||', '<', '>', ',') or \
            k == 'un' and e[3] in ('!', '*') or k in ('mem', 'idx', 'delete') or \
            k == 'call' and (self.stdio(e[4]) or e[4] in ('free', 'memset', 'memcpy')) or \
            k == 'cond' or k == 'mcall' and len(e) > 5
        out = set()
        for i, x in enumerate(e[1:], 1):
            if isinstance(x, list):
                if x and not isinstance(x[0], str):
                    for y in x:
                        out |= self.handed(y, vs, fine and k == 'call')
                else:
                    f = fine and not (k == 'cond' and i > 3) and not (k == 'mcall' and i != 5)
                    f = f or k == 'asg' and i == 4
                    out |= self.handed(x, vs, f)
        return out

    def expr_(self, e, st):
        """Uses and effects in evaluation order (arguments first)."""
        if not isinstance(e, list):
            return
        if not node(e):
            for x in e:
                self.expr(x, st)
            return
        k = e[0]
        self.sites += 1
        if k == 'ref':
            t = strip(self.types.get(e[3], ''))
            if handle_type(t) or e[3] in st.pts:
                self.use(st, e[3], e[1])
            return
        if k == 'lambda':
            return
        if k == 'cond':
            self.expr(e[3], st)
            a, b = st.copy(), st.copy()
            self.expr(e[4], a)
            self.expr(e[5], b)
            a.join(b)
            st.__dict__.update(a.__dict__)
            return
        if k == 'bin' and e[3] in ('&&', '||'):
            self.expr(e[4], st)
            b = st.copy()
            self.expr(e[5], b)
            st.join(b)
            return
        if k == 'delete':
            self.expr(e[3], st)
            v = var_of(e[3])
            if v in st.files:
                st.files.pop(v)
            else:
                for p in self.paths(e[3], st):
                    if '*' in p or '[]' in p:
                        self.report('double', 'delete', 'memory that has an owner is deleted', e[1])
            return
        if k == 'asg':
            self.expr(e[5], st)
            tgt = e[4]
            if tgt[0] == 'ref' and e[3] in ('', '='):
                self.bind(tgt[3], e[5], st, e[1])
                return
            self.expr(tgt, st)
            return
        if k == 'opcall':
            op, args = e[3], e[6]
            if op == '=' and len(args) == 2:
                self.expr(args[1], st)
                tgt = args[0]
                if tgt[0] == 'ref' and (handle_type(self.types.get(tgt[3])) or
                                        self.iterish(args[1])):
                    if strip(self.types.get(tgt[3]))[:2] == 'R<':
                        self.use(st, tgt[3], e[1])
                    else:
                        self.bind(tgt[3], args[1], st, e[1])
                        return
                else:
                    self.expr(tgt, st)
                tt = strip(unref(tgt[2] if isinstance(tgt[2], str) else ''))
                for q in self.paths(tgt, st):
                    self.invalidate(st, q, '*' if tt[:2] in ('U<', 'S<') else
                                    '[]' if tt[:2] in ('V<', 'M<') or tt == 'str' else 'all', e[1])
                    st.moved.pop(q, None)
                return
            for x in args:
                self.expr(x, st)
            if op in ('->', '*', '[]') and args:
                self.use_path(st, self.paths(args[0], st), e[1])
            return
        if k == 'mcall':
            self.mcall(e, st)
            return
        if k == 'call':
            for x in e[5]:
                self.expr(x, st)
            q = e[4].split('::')[-1]
            if q == 'move' and e[4] == 'std::move' and e[5]:
                x = e[5][0]
                t = strip(unref(x[2] if isinstance(x[2], str) else ''))
                if t[:2] in ('U<', 'S<', 'V<', 'M<') or t == 'str':
                    ps = self.paths(x, st)
                    self.use_path(st, ps, e[1])
                    for p in ps:
                        if '[]' not in p and 'm[]' not in p and '.[]' not in p:
                            st.moved[p] = (e[1], None)
            if e[4] in ('fclose', 'free') and e[5]:
                v = var_of(e[5][0])
                if v is not None:
                    st.files.pop(v, None)
            return
        if k == 'ctor':
            for x in e[5]:
                self.expr(x, st)
            t = strip(e[2])
            if t[:2] in ('U<', 'S<') and e[5]:
                v = var_of(e[5][0])
                if v in st.files:
                    st.files.pop(v)           # has an owner now
                for x in e[5]:
                    if node(x) and x[0] == 'mcall' and x[4].split('::')[-1] == 'get':
                        self.report('double', 'get', 'a second owner is made of a pointer that '
                                    'is owned already', e[1])
                    if node(x) and x[0] == 'un' and x[3] == '&' and strip(x[2])[:2] == 'P<':
                        self.report('double', '&', 'an owning pointer is made of the address of '
                                    'an object it does not own', e[1])
            return
        for x in e[2:]:
            if isinstance(x, list):
                self.expr(x, st)

    def stdio(self, q):
        return q.split('::')[-1] in STDIO

    def mcall(self, e, st):
        meth = e[4].split('::')[-1]
        o, args = e[5], e[7] if len(e) > 7 and isinstance(e[7], list) else []
        for x in args:
            self.expr(x, st)
        self.expr(o, st)
        ot = strip(unref(o[2] if len(o) > 2 and isinstance(o[2], str) else ''))
        if ot.startswith('P<'):
            ot = strip(targ(ot))
        ps = self.paths(o, st)
        if e[4].startswith(N):
            if meth in ('get',):
                pass
            return
        if ot[:2] in ('U<', 'S<'):
            if meth == 'reset':
                for q in ps:
                    self.invalidate(st, q, '*', e[1])
                    st.moved.pop(q, None)
                for x in args:
                    if node(x) and (x[0] == 'un' and x[3] == '&' or x[0] == 'mcall' and
                                    x[4].split('::')[-1] == 'get'):
                        self.report('double', 'reset', 'an owning pointer is given a pointer that '
                                    'is not its to free', e[1])
            return
        if ot[:2] in ('V<', 'M<') or ot == 'str' or ot.startswith('T:std'):
            if meth in GROW:
                for q in ps:
                    if ot.startswith('M<') and meth in MAPKEEP:
                        continue
                    self.invalidate(st, q, '[]', e[1])
                    st.moved.pop(q, None)
            elif meth in INTO:
                self.use_path(st, ps, e[1])

    def iterish(self, e):
        while node(e) and e[0] in ('ctor', 'ld', 'cast'):
            if e[0] == 'ctor':
                if len(e[5]) != 1:
                    return False
                e = e[5][0]
            else:
                e = e[4] if e[0] == 'cast' else e[3]
        return node(e) and e[0] == 'mcall' and e[4].split('::')[-1] in ITER and \
            not e[4].startswith(N)

    def bind(self, var, init, st, line):
        """var now refers to what init names."""
        t = strip(self.types.get(var, ''))
        st.bad.pop(var, None)
        st.pts.pop(var, None)
        if not node(init):
            return
        if t in READER:
            x = init
            while node(x) and x[0] == 'ctor' and x[4] in ('move', 'copy') and len(x[5]) == 1:
                x = x[5][0]
            if node(x) and x[0] == 'ctor' and x[5]:
                init = x[5][0]
            else:
                return
        elif not handle_type(t) and not self.iterish(init):
            return
        if t[:2] == 'P<' and obtains(init):
            st.files[var] = (line, None)
            return
        self.sites += 1
        ps = self.paths(init, st)
        deep = [p for p in ps if p[0] == 'tmp' and (len(p) > 1 and any(
            c in ('[]', 'm[]', '*') for c in p[1:]) or t[:2] != 'R<' and t in READER)]
        st.pts[var] = frozenset(p for p in ps if p[0] != 'tmp') or frozenset({(var, '?')})
        if deep:
            st.bad[var] = (line, None)
            if t in READER:
                # a reader is made to be read
                self.use(st, var, line)

    # ------------------------------------------------------------ statements
    def stmt(self, s, st):
        if s is None or not st.live or not node_st(s):
            return
        k = s[0]
        if k == 'blk':
            self.scopes.append([])
            for x in s[2:]:
                self.stmt(x, st)
            self.pop(st, s[1])
        elif k == 'decl':
            for d in s[2:]:
                self.decl(d, st, s[1])
        elif k == 'expr':
            self.expr(s[2], st)
            if obtains(s[2]):
                self.report('leak', 'discarded', 'what is obtained here is never given back', s[1])
            if self.noreturn(s[2]):
                st.live = False
        elif k == 'ret':
            v = s[2] if len(s) > 2 else None
            if v is not None:
                self.expr(v, st)
                self.returned(v, st, s[1])
            self.leave(st, s[1], v)
            st.live = False
        elif k == 'if':
            self.expr(s[2], st)
            a, b = st.copy(), st.copy()
            self.refine(s[2], a, True)
            self.refine(s[2], b, False)
            about = mentioned(s[2], self.tests)
            for v in about & set(a.files) & set(b.files):
                # a test of it that is not understood
                for o in (a, b):
                    o.files[v] = (o.files[v][0], -1)
            self.depth += 1
            self.stmt(s[3], a)
            self.stmt(s[4] if len(s) > 4 else None, b)
            self.depth -= 1
            self.merge(st, [a, b], self.depth)
        elif k == 'for':
            self.scopes.append([])
            self.stmt(s[2], st)
            self.loop(st, s[3], s[4], s[5], True)
            self.pop(st, s[1])
        elif k == 'do':
            self.loop(st, s[3], None, s[2], False)
        elif k == 'while':
            self.loop(st, s[2], None, s[3], True)
        elif k == 'forrange':
            self.forrange(s, st)
        elif k == 'switch':
            self.switch(s, st)
        elif k == 'break':
            if self.loops:
                self.loops[-1][0].append(self.cut(st, self.loops[-1][2]))
            st.live = False
        elif k == 'continue':
            for b, c, depth in reversed(self.loops):
                if c is not None:
                    c.append(self.cut(st, depth))
                    break
            st.live = False

    def cut(self, st, depth):
        s = st.copy()
        for sc in reversed(self.scopes[depth:]):
            for v in reversed(sc):
                self.die(s, v, '?')
        return s

    def pop(self, st, line):
        for v in reversed(self.scopes.pop()):
            if st.live:
                self.die(st, v, line)

    def merge(self, st, outs, depth=None):
        some = len(outs)
        outs = [o for o in outs if o.live]
        if not outs:
            st.live = False
            return
        r = outs[0].copy()
        if depth is not None and len(outs) < some:
            # what holds on some ways only may be what the way out was for
            for d in (r.bad, r.moved, r.files):
                for k, v in d.items():
                    if v[1] is not None:
                        d[k] = (v[0], -1)
        for o in outs[1:]:
            r.join(o, depth)
        st.__dict__.update(r.__dict__)

    def noreturn(self, e):
        return node(e) and e[0] == 'call' and e[4].split('::')[-1] in (
            'exit', 'abort', '_exit', '__assert_fail', 'terminate', 'usage')

    def refine(self, c, st, on):
        """A file pointer compared with null."""
        if not node(c):
            return
        while c[0] == 'cast' and node(c[4]):
            c = c[4]
        if c[0] == 'ld' and var_of(c) in self.tests:
            return self.refine(self.tests[var_of(c)], st, on)
        if c[0] == 'un' and c[3] == '!':
            return self.refine(c[4], st, not on)
        if c[0] == 'cond' and truth(c[4]) is not None and truth(c[5]) is not None:
            if truth(c[4]) == truth(c[5]):
                return
            return self.refine(c[3], st, on == truth(c[4]))
        if c[0] == 'bin' and c[3] in ('==', '!='):
            for x, y in ((c[4], c[5]), (c[5], c[4])):
                if truth(y) is not None and not isnull(y) or (
                        isnull(y) and boolish(x, self)):
                    return self.refine(x, st, on == (truth(y) == (c[3] == '==')))
        if c[0] == 'bin' and c[3] in ('==', '!='):
            for x, y in ((c[4], c[5]), (c[5], c[4])):
                if isnull(y):
                    v = var_of(x)
                    if v in st.files and (c[3] == '==') == on:
                        st.files.pop(v)
        elif c[0] == 'bin' and c[3] == '&&' and on or c[0] == 'bin' and c[3] == '||' and not on:
            self.refine(c[4], st, on)
            self.refine(c[5], st, on)
        elif c[0] in ('cast', 'ld', 'ref'):
            v = var_of(c)
            if v in st.files and not on:
                st.files.pop(v)

    def decl(self, d, st, line):
        var, name, t, init = d[0], d[1], d[2], d[3]
        self.types[var] = t or ''
        self.names[var] = name
        if len(d) > 4 and d[4]:
            self.statics.add(var)
            return
        for x in (st.pts, st.bad):
            x.pop(var, None)
        for p in list(st.moved):
            if p[0] == var:
                del st.moved[p]
        self.expr(init, st)
        self.tests.pop(var, None)
        if strip(t or '') == 'bool' and node(init) and var not in self.assigned:
            self.tests[var] = init
        if self.scopes:
            self.scopes[-1].append(var)
        self.bind(var, init, st, line)

    def loop(self, st, cond, inc, body, pre):
        depth = len(self.scopes)
        seen = None
        exits = []
        cur = st.copy()
        for _ in range(6):
            s = cur.copy()
            brk, cont = [], []
            if pre and cond is not None:
                self.expr(cond, s)
            out = s.copy()
            if pre and cond is not None:
                exits.append(out)
            self.loops.append((brk, cont, depth))
            self.depth += 1
            self.stmt(body, s)
            self.depth -= 1
            self.loops.pop()
            self.merge(s, [s] + cont)
            if s.live:
                if isinstance(inc, list):
                    self.expr(inc, s)
                if not pre:
                    self.expr(cond, s)
                    exits.append(s.copy())
            exits += brk
            nxt = cur.copy()
            nxt.join(s)
            if nxt.key() == seen:
                break
            seen = nxt.key()
            cur = nxt
        self.merge(st, exits)

    def forrange(self, s, st):
        var, name, t = s[2]
        self.expr(s[3], st)
        ps = self.paths(s[3], st)
        for p in ps:
            if p[0] == 'tmp' and len(p) > 1 and any(c in ('[]', 'm[]', '*') for c in p[1:]):
                self.report('dangling', name, 'the loop over %s runs over storage of a temporary '
                            'that is gone' % name, s[1])
        self.scopes.append([])
        hid = ('range', s[1])
        self.types[hid] = 'P<>'
        self.types[var] = t or ''
        self.names[var] = name
        self.names[hid] = 'the range of the loop'
        el = frozenset(p + ('[]',) for p in ps if p[0] != 'tmp')
        if el:
            st.pts[hid] = el
        depth = len(self.scopes)
        cur = st.copy()
        exits = [st.copy()]
        seen = None
        for _ in range(6):
            s1 = cur.copy()
            brk, cont = [], []
            self.use(s1, hid, s[1])
            if handle_type(t):
                s1.pts[var] = el or frozenset({(var, '?')})
                s1.bad.pop(var, None)
            self.loops.append((brk, cont, depth))
            self.depth += 1
            self.stmt(s[4], s1)
            self.depth -= 1
            self.loops.pop()
            self.merge(s1, [s1] + cont)
            if s1.live:
                self.use(s1, hid, s[1])
                exits.append(s1.copy())
            exits += brk
            nxt = cur.copy()
            nxt.join(s1)
            if nxt.key() == seen:
                break
            seen = nxt.key()
            cur = nxt
        self.merge(st, exits)
        for d in (st.pts, st.bad):
            d.pop(hid, None)
            d.pop(var, None)
        self.pop(st, s[1])

    def switch(self, s, st):
        self.expr(s[2], st)
        brk = []
        self.loops.append((brk, None, len(self.scopes)))
        cur = st.copy()
        cur.live = False
        hasdef = False
        for labels, body in s[3]:
            hasdef = hasdef or 'default' in labels
            ent = st.copy()
            if cur.live:
                ent.join(cur)
            cur = ent
            self.depth += 1
            for x in body:
                self.stmt(x, cur)
            self.depth -= 1
        self.loops.pop()
        outs = [cur] + brk
        if not hasdef:
            outs.append(st.copy())
        self.merge(st, outs)

    def returned(self, v, st, line):
        if not (handle_type(self.rettype)):
            return
        if self.rettype in READER:
            x = v
            while node(x) and x[0] == 'ctor' and len(x[5]) == 1:
                x = x[5][0]
            if node(x) and x[0] == 'ctor' and x[5]:
                v = x[5][0]
            else:
                v = x
        self.sites += 1
        for p in self.paths(v, st):
            if p[0] == 'tmp' or p[0] in self.types and p[0] not in self.statics and \
                    not handle_type(self.types[p[0]]) and p[-1] != '?':
                self.report('dangling', 'return', 'a reference to something local to the '
                            'function is returned', line)

    def leave(self, st, line, v=None):
        for f, l in st.files.items():
            if v is not None and var_of(v) == f:
                continue
            n = self.names.get(f, '?')
            self.report('file', n, 'what was obtained at line %s is not given back on this way out' % l[0],
                        line, l)


def node_st(s):
    return isinstance(s, list) and s and isinstance(s[0], str)


def var_of(e):
    while node(e) and e[0] in ('ld', 'cast'):
        e = e[4] if e[0] == 'cast' else e[3]
    return e[3] if node(e) and e[0] == 'ref' else None


STDIO = set('fread fwrite fseek fseeko ftell ftello fprintf vfprintf fputs fputc fgets fgetc fflush '
            'ferror feof fclose rewind getc putc ungetc fscanf fileno setvbuf setbuf clearerr getline '
            'fgetpos fsetpos fputwc puts'.split())


def obtains(e):
    """Gives out something the receiver has to give back."""
    while node(e) and e[0] in ('cast', 'ld'):
        e = e[4] if e[0] == 'cast' else e[3]
    if not node(e):
        return False
    if e[0] == 'new':
        return True
    if e[0] == 'call':
        return e[4] in ('fopen', 'fdopen', 'tmpfile', 'malloc', 'calloc', 'realloc', 'strdup',
                        'operator new', 'aligned_alloc')
    if e[0] == 'mcall' and e[4].split('::')[-1] == 'release' and not e[4].startswith(N):
        o = e[5]
        return strip(unref(o[2] if isinstance(o[2], str) else ''))[:2] == 'U<'
    return False


def truth(e):
    while node(e) and e[0] == 'cast':
        e = e[4]
    return bool(e[3]) if node(e) and e[0] == 'int' else None


def boolish(e, flow):
    while node(e) and e[0] == 'cast':
        e = e[4]
    if not node(e):
        return False
    return e[0] in ('un', 'bin') and strip(e[2]) == 'bool' or e[0] == 'cond' or (
        e[0] == 'ld' and var_of(e) in flow.tests)


def assigned(n, out):
    """Locals that are written after their declaration, or whose address is taken."""
    if isinstance(n, list):
        if n and n[0] in ('asg', 'casg') and len(n) > 4 and node(n[4]):
            out.add(var_of(n[4]))
        if n and n[0] == 'un' and len(n) > 4 and n[3] in ('&', '++', '--'):
            out.add(var_of(n[4]))
        for x in n:
            assigned(x, out)


def mentioned(e, tests, seen=()):
    out = set()
    if isinstance(e, list):
        if e and e[0] == 'ref' and len(e) > 3:
            if e[3] in tests and e[3] not in seen:
                out |= mentioned(tests[e[3]], tests, tuple(seen) + (e[3],))
            out.add(e[3])
        for x in e:
            out |= mentioned(x, tests, seen)
    return out


def isnull(e):
    while node(e) and e[0] == 'cast':
        e = e[4]
    return node(e) and (e[0] == 'null' or e[0] == 'int' and e[3] == 0)


# ------------------------------------------------------------ types
VIEW = ('std::basic_string_view', 'std::span', 'std::reference_wrapper', 'std::weak_ptr',
        'std::string_view', '__normal_iterator')


def parts(t):
    """Types mentioned as template arguments, with how they are held."""
    t = strip(t)
    if t[:2] in ('U<', 'S<', 'V<', 'P<', 'R<', 'A<', 'M<'):
        k = t[0]
        inner = t[2:-1]
        if k == 'A':
            inner = inner.split(',', 1)[1]
        if k == 'M':
            d = 0
            for i, c in enumerate(inner):
                d += (c == '<') - (c == '>')
                if c == ',' and d == 0:
                    yield from parts(inner[:i])
                    inner = inner[i + 1:]
                    break
        yield k, inner
        yield from parts(inner)


def held(P, rec, seen, out, path=()):
    """Members of a result, transitively: (path, type)."""
    if rec in seen:
        return
    seen.add(rec)
    r = P.records.get(rec)
    if r is None:
        return
    for b in r.get('bases', []):
        held(P, strip(b).replace('T:', ''), seen, out, path)
    for f in r['fields']:
        t = strip(f['ty'])
        out.append((rec, f['n'], t))
        for x in [t] + [i for _, i in parts(t)]:
            x = strip(x)
            if x.startswith('T:'):
                held(P, x[2:], seen, out, path + (f['n'],))


def cycles(P, recs):
    """Shared ownership that can lead back to its owner."""
    g = {}
    for rec in recs:
        r = P.records.get(rec)
        for f in (r or {}).get('fields', []):
            t = strip(f['ty'])
            for k, x in list(parts(t)) + [('', t)]:
                x = strip(x)
                if x.startswith('T:'):
                    sh = 'S<' + x + '>' in t.replace('const ', '')
                    g.setdefault(rec, []).append((x[2:], sh, f['n']))
    out = []
    for rec in g:
        todo = [(y, sh, n) for y, sh, n in g[rec]]
        seen = set()
        while todo:
            y, sh, n = todo.pop()
            if y == rec and sh:
                out.append((rec, n))
                break
            if (y, sh) in seen:
                continue
            seen.add((y, sh))
            todo += [(z, sh or s2, n) for z, s2, _ in g.get(y, [])]
    return out


def written(P, name):
    """Some function of the library gives members of this name a value."""
    from p_effects import walk
    for f in P.fns.values():
        if any(i.get('field') == name and i['e'][0] != 'null' for i in f.get('inits') or []):
            return True
        for x in walk(f.get('body') or []):
            if x[0] in ('asg', 'opcall', 'un', 'ilist', 'call', 'mcall', 'ctor') and any(
                    isinstance(y, list) and y and y[0] == 'mem' and y[4] == name
                    for y in walk(x[2:])):
                return True
    return False


@prop('C29', 'Every type a result is made of: no member refers to storage it does not own and '
      'no shared ownership leads back to its owner.  Every function of the library, by a flow '
      'analysis over access paths: no reference, pointer, iterator or reader is used after its '
      'container was changed, its owner reset or its scope or full expression ended; nothing is '
      'used after it was moved from; no owned memory is deleted or given a second owner; '
      'every file opened and every block obtained is given back on every way out.', min=150)
def c29(ctx, rep, tier):
    import analysis
    import p_entry
    P = ctx.prog('normal')
    recs = {analysis.rec_of_ret(f) for q in P.byq for f in P.byq[q]
            if q.startswith(N) and f['file'].startswith(('src/', 'include/'))} - {None}
    recs |= {N + 'H265BitstreamParserState'}
    members, seen = [], set()
    for r in sorted(recs):
        held(P, r, seen, members)
    for rec, n, t in members:
        rep.obligations += 1
        bad = [k for k, _ in parts(t) if k in 'PR']
        if bad and strip(t) not in ('P<const i8>', 'P<i8>') or any(v in t for v in VIEW) or \
                any(x in t for x in READER):
            if not written(P, n):
                continue        # nothing is ever put into it
            rep.violation(rec, 'member', n, '%s refers to storage the structure does not own (%s)'
                          % (n, t), '')
    for rec, n in cycles(P, seen):
        rep.violation(rec, 'cycle', n, 'shared ownership through %s leads back to its owner: '
                      'never released' % n, '')
    rep.units.append({'types of results': len(seen), 'members': len(members)})
    nf = ns = 0
    for mg, fn in sorted(P.fns.items()):
        if fn.get('body') is None or not fn['file'].startswith(('src/', 'include/')):
            continue
        found = {}
        fl = Flow(P, fn, found).run()
        nf += 1
        ns += fl.sites
        rep.obligations += 1
        for kind, what, text, line in fl.undecided:
            rep.undec(fn['q'], kind, what, text, '%s:%s' % (fn['file'], line))
        for (kind, what), (text, where) in sorted(found.items()):
            rep.violation(fn['q'], kind, what, text, where)
    rep.units.append({'functions': nf, 'expressions visited': ns})
