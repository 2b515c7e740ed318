"""C25: the command-line tool.

A: the transfer function of the option loop, one documented option at a time, from
   an arbitrary state of the settings (every field a symbol of its own): the setting
   the option documents gets the documented value, everything else stays.
B: from an arbitrary state of the settings, what the rest of main() does with them:
   which files it reads, which parser gets which bytes with which parsing options,
   what is printed where.
Which field holds which setting is found out by A, not by name."""
import re
import bitflow as B
from bitflow import H, L, UN, Bad, Stop, Fault, Obj, Vec, Ptr, One, Lit, Str, Opq, expect
from interp import int_type, unref, strip_cv, targ
from props import prop

N = 'h265nal::'
FLAGS = ['as-one-line', 'add-offset', 'add-length', 'add-parsed-length', 'add-checksum',
         'add-resolution', 'add-contents']
DEFAULT = {'as-one-line': 1}
ARGS = {'infile': 'i', 'outfile': 'o', 'hvcc-file': None}
NUMS = {'nalu-length-bytes': (-1, -1), 'frames-per-second': (0, 30)}   # least, default
PARSING = {'add_offset', 'add_length', 'add_parsed_length', 'add_checksum', 'add_resolution'}
INT_MAX = (1 << 31) - 1


class Done(Exception):
    def __init__(self, how, what=None):
        Exception.__init__(self, how)
        self.how, self.what = how, what


class Cli:
    """One evaluation of main()."""

    def __init__(self, prog, ev, script, havoc=None, stop_at=None):
        self.P, self.ev, self.script = prog, ev, list(script)
        self.havoc, self.stop_at = havoc, stop_at
        self.n = 0
        self.before = self.after = None
        self.events = []
        self.tables = None
        h = {'getopt_long': self.getopt, 'exit': self.exit, 'strtol': self.strtol,
             'strtoul': self.strtol, 'strtoll': self.strtol, 'atoi': self.atoi, 'atol': self.atoi,
             '__errno_location': self.errno, 'fprintf': self.printf, 'printf': self.printf,
             'fputs': self.printf, 'puts': self.printf, 'fputc': self.printf,
             'putchar': self.printf, 'fopen': self.fopen, 'fclose': self.fclose,
             'fflush': lambda ev, e, a: 0,
             N + 'H265Utils::ReadFile': self.readfile,
             N + 'H265ConfigurationBoxParser::ParseConfigurationBox': self.parse('box'),
             N + 'H265BitstreamParser::ParseBitstream': self.parse('split'),
             N + 'H265BitstreamParser::ParseBitstreamNALULength': self.parse('lengths'),
             N + 'H265NalUnitParser::NalUnitState::fdump': self.fdump('nal'),
             N + 'H265ConfigurationBoxParser::ConfigurationBoxState::fdump': self.fdump('box'),
             }
        ev.hooks = h

    # ------------------------------------------------------------ settings
    def settings(self):
        """The object that holds the settings."""
        best = None
        for fr in self.ev.frames:
            for h in fr.vars.values():
                v = h.v
                if isinstance(v, Ptr) and isinstance(v.seq, One):
                    v = v.seq.h.v
                if not isinstance(v, Obj) or not v.t.startswith('T:'):
                    continue
                rec = self.P.records.get(v.t[2:])
                if rec and str(rec.get('file', '')).startswith('tools') and len(rec['fields']) > 5:
                    if best is not None and best is not v:
                        raise Stop('two objects that may hold the settings')
                    best = v
        if best is None:
            raise Stop('no object that holds the settings')
        return best

    def snapshot(self, o=None, pre=''):
        o = o or self.settings()
        out = {}
        for k, h in o.f.items():
            if isinstance(h.v, Obj):
                out.update(self.snapshot(h.v, pre + k + '.'))
            else:
                v = h.v
                out[pre + k] = ('str', v.s) if isinstance(v, (Str, Lit)) else v
        return out

    # ------------------------------------------------------------ getopt
    def row(self, c):
        f = list(c.v.f.values()) if isinstance(c.v, Obj) else []
        if len(f) != 4:
            raise Stop('the option table is not followed')
        name, arg, flag, val = [x.v for x in f]
        return (name.s[name.i:] if isinstance(name, Lit) else None, arg, flag, val)

    def getopt(self, ev, e, args):
        vals = [ev.val(a) for a in args]
        short, long, idx = vals[2], vals[3], vals[4]
        if not isinstance(short, Lit) or not isinstance(long, Ptr) or \
                not isinstance(long.seq, Vec):
            raise Stop('the option table is not followed')
        rows, ended = [], False
        for c in long.seq.items:
            r = self.row(c)
            if r[0] is None:
                ended = True
                break
            rows.append(r)
        if not ended:
            raise Bad('the option table has no end', {})
        s = short.s[short.i:]
        sh, i = {}, 0
        while i < len(s):
            k = 0
            while i + 1 + k < len(s) and s[i + 1 + k] == ':':
                k += 1
            sh[s[i]] = k
            i += 1 + k
        self.tables = (rows, sh)
        if self.n == 0 and self.havoc:
            self.havoc(self, self.settings())
        if self.n == 0:
            self.before = self.snapshot()
        if self.n == len(self.script):
            self.after = self.snapshot()
            if self.stop_at == 'end':
                raise Done('end')
            self.n += 1
            return -1
        if self.n > len(self.script):
            raise Bad('the options are asked for again after the last one', {})
        form, name, arg = self.script[self.n]
        self.n += 1
        og = ev.globals.setdefault('optarg', H(None, 'P<i8>'))
        if form == 'short':
            if name not in sh or (sh[name] == 1) != (arg is not None):
                return ord('?')
            og.v = arg
            return ord(name)
        hit = [(j, r) for j, r in enumerate(rows) if r[0] == name]
        if not hit:
            if sum(r[0].startswith(name) for r in rows) == 1:
                raise Stop('abbreviated option')
            return ord('?')
        j, (_, ha, flag, val) = hit[0]
        if ha not in (0, 1) or (ha == 1) != (arg is not None):
            return ord('?')
        if idx is not None:
            ev.deref(idx).v = j
        og.v = arg
        if flag is not None:
            ev.deref(flag).v = val
            return 0
        if not isinstance(val, int):
            raise Stop('option value')
        return val

    # ------------------------------------------------------------ libc
    def exit(self, ev, e, args):
        raise Done('exit', ev.val(args[0]))

    def errno(self, ev, e, args):
        h = ev.globals.setdefault('errno', H(ev.integer('errno before', 0, 200), 'i32'))
        return Ptr(One(h), 0)

    def strtol(self, ev, e, args):
        a = [ev.val(x) for x in args]
        if len(a) != 3 or a[2] != 10 or a[0] != ev.globals['optarg'].v:
            raise Stop('strtol')
        if a[1] is not None:
            ev.deref(a[1]).v = Ptr(One(H(ev.integer('first character after the number', -128, 127),
                                         'i8')), 0)
        lo, hi = -(1 << 34), (1 << 34) - 1        # representative of all 64 bits
        v = ev.integer('the number', lo, hi)
        # out of range: errno is set and the value is one of the ends
        oor = ev.integer('number out of range', 0, 1)
        if ev.truth(oor):
            ev.globals.setdefault('errno', H(0, 'i32')).v = 34
            return (1 << 63) - 1 if ev.truth(ev.integer('too large', 0, 1)) else -(1 << 63)
        return v

    def atoi(self, ev, e, args):
        if ev.val(args[0]) != ev.globals['optarg'].v:
            raise Stop('atoi')
        v = ev.integer('the number', -(1 << 34), (1 << 34) - 1)
        if ev.truth(ev.integer('number out of range', 0, 1)):
            raise Fault('conversion', 'a number out of range is undefined', e[1])
        return ev.conv(v, e[2])

    def stream(self, v):
        if isinstance(v, Opq):
            return v.what
        if isinstance(v, tuple):
            return v
        raise Stop('stream %r' % (v,))

    def text(self, v):
        return v.s[v.i:] if isinstance(v, Lit) else v.s if isinstance(v, Str) else v

    def printf(self, ev, e, args):
        n = e[4].split('::')[-1]
        a = [ev.val(x) for x in args]
        if n == 'fprintf':
            st, a = self.stream(a[0]), a[1:]
        elif n in ('fputs', 'fputc'):
            st, a = self.stream(a[1]), a[:1]
        else:
            st = 'stdout'
        a = [self.text(x) if isinstance(x, (Lit, Str)) else x for x in a]
        if n in ('fputc', 'putchar'):
            a = ['%c', a[0]]
        elif n in ('fputs', 'puts'):
            a = ['%s' if n == 'fputs' else '%s\n', a[0]]
        self.events.append(('print', st, a, e[1]))
        return 0

    def fopen(self, ev, e, args):
        a = [ev.val(x) for x in args]
        k = len(self.events)
        ok = ev.truth(ev.integer('the output can be opened', 0, 1))
        self.events.append(('fopen', self.text(a[0]), self.text(a[1]), ok))
        return Opq('file %d' % k) if ok else None

    def fclose(self, ev, e, args):
        self.events.append(('fclose', self.stream(ev.val(args[0]))))
        return 0

    # ------------------------------------------------------------ library
    def readfile(self, ev, e, args):
        name = ev.val(args[0])
        buf = ev.lv(args[1])
        n = self.text(name)
        ok = ev.truth(ev.integer('%s can be read' % n, 0, 1))
        self.events.append(('read', n, ok))
        if not ok:
            return -1
        et = targ(unref(buf.t))
        buf.v.items = [H(ev.byte(('byte of ' + str(n), i)), et) for i in range(self.size(n))]
        self.bufs = getattr(self, 'bufs', {})
        self.bufs[n] = buf.v
        return 0

    def size(self, n):
        return 5

    def opts(self, v):
        if isinstance(v, H):
            v = v.v
        if not isinstance(v, Obj):
            raise Stop('parsing options')
        return {k: h.v for k, h in v.f.items()}

    def parse(self, kind):
        def f(ev, e, args):
            a = []
            for x in args:
                v = ev.val(x) if not (isinstance(x[2], str) and 'ParsingOptions' in x[2]) else \
                    ev.lv(x)
                a.append(v)
            ok = ev.truth(ev.integer(kind + ' succeeds', 0, 1)) if kind == 'box' else True
            self.events.append(('parse', kind, a[0], a[1], a[2:-2], a[-2], self.opts(a[-1]), ok))
            if not ok:
                return None
            return self.made(kind)
        return f

    def made(self, kind):
        if kind == 'box':
            return Ptr(One(self.ev.make('T:' + N + 'H265ConfigurationBoxParser::'
                                        'ConfigurationBoxState', True)), 0)
        h = self.ev.make('T:' + N + 'H265BitstreamParser::BitstreamState', True)
        v = h.v.f['nal_units'].v
        self.nals = self.nalunits()
        for o in self.nals:
            v.items.append(H(Ptr(One(o), 0), v.et))
        return Ptr(One(h), 0)

    def nalunits(self):
        return []

    def fdump(self, kind):
        def f(ev, e, args):
            a = [ev.val(x) for x in args[:2]]
            o = self.opts(ev.lv(args[2]))
            obj = ev.deref(ev.rv(e[5]), e[1]) if e[6] else ev.lv(e[5])
            self.events.append(('dump', kind, obj, self.stream(a[0]), a[1], o))
            return None
        return f

    # ------------------------------------------------------------ run
    def run(self):
        ev = self.ev
        mains = [f for f in self.P.byq.get('main', []) if f.get('body') is not None
                 and f['file'].startswith('tools')]
        if len(mains) != 1:
            raise Stop('main() not found')
        argv = Ptr(Vec([H(Lit('h265nal'), 'P<i8>') for _ in range(2)], 'P<i8>', True), 0)
        ev.globals['optarg'] = H(None, 'P<i8>')
        for s in ('stdout', 'stderr', 'stdin'):
            ev.globals[s] = H(Opq(s), 'P<T:_IO_FILE>')
        try:
            r = ev.call(mains[0], [ev.integer('argc', 1, 1000), argv])
            return 'return', r
        except Done as d:
            return d.how, d.what


def havoc(skip=()):
    """Every setting gets a value of its own."""
    def f(cli, o, pre=''):
        ev = cli.ev
        for k, h in o.f.items():
            n = pre + k
            t = unref(h.t or '')
            if isinstance(h.v, Obj):
                f(cli, h.v, n + '.')
            elif t == 'str':
                h.v = Str('old ' + n)
            elif t[:2] == 'P<':
                h.v = Lit('old ' + n)
            elif t == 'bool':
                h.v = ev.integer(n, 0, 1)
            elif t[:2] == 'E<':
                h.v = ev.integer(n, 0, 1)
            elif int_type(t):
                # far from the ends of its type
                w, sg = int_type(t)
                h.v = ev.integer(n, -(1 << (w - 2)) if sg else 0, 1 << (w - 2))
            else:
                raise Stop('setting %s of type %s' % (n, t))
    return f


def same(a, b):
    return a is b or type(a) is type(b) and a == b


def inject(prog):
    if 'option' not in prog.records:
        prog.records['option'] = {'bases': [], 'file': '', 'fields': [
            {'n': 'name', 'ty': 'P<const i8>'}, {'n': 'has_arg', 'ty': 'i32'},
            {'n': 'flag', 'ty': 'P<i32>'}, {'n': 'val', 'ty': 'i32'}]}


def effect(prog, script):
    """[(how, what, before, after, asg, events)] over the parts, or raises Stop."""
    out = []

    def job(ev):
        c = Cli(prog, ev, script, havoc(), 'end')
        how, what = c.run()
        return how, what, c.before, c.after, c.events, c.tables
    for ev, r in B.explore(prog, job):
        if isinstance(r, (Stop, Fault)):
            raise r
        out.append((ev,) + r)
    return out


# ---------------------------------------------------------------- A: the option loop
def show(v):
    return repr(v[1]) if isinstance(v, tuple) else str(v)


def changes(r):
    ev, how, what, before, after, events, tables = r
    return {k: (before[k], after.get(k)) for k in before
            if not same(before[k], after.get(k))} if after else {}


def same(a, b):
    return a is b or type(a) is type(b) and a == b


class Map_:
    """What A finds out: which field holds which setting, and the two dump modes."""

    def __init__(self):
        self.field = {}          # setting -> field
        self.modes = {}          # 'dump-all' / 'dump-length' -> value


def arg(name):
    return Lit('an argument of ' + name)


def part_a(prog, rep, out):
    """One obligation per option and form; fills out."""
    def one(key, script, check):
        rep.obligations += 1
        try:
            rs = effect(prog, script)
            check(rs)
            rep.samples.append('%s: %s' % (key, '; '.join(
                r[1] if r[1] != 'end' else ', '.join('%s = %s' % (k, show(v[1]))
                                                     for k, v in changes(r).items())
                for r in rs[:6])))
        except Bad as b:
            rep.violation('main', 'option', key, '%s: %s' % (key, b.text), 'tools/h265nal.cc')
        except Fault as b:
            rep.violation('main', 'option', key, '%s: %s' % (key, b.text),
                          'tools/h265nal.cc:%s' % b.line)
        except Stop as s:
            rep.undec('main', 'option', key, '%s: %s' % (key, s), 'tools/h265nal.cc')

    def taken(rs):
        for r in rs:
            if r[1] != 'end':
                raise Bad('the option is not accepted', {})

    def only(ch, *fields):
        for k in ch:
            if k not in fields:
                raise Bad('the setting %s is changed, too (%s)' % (k, show(ch[k][1])), {})

    implied = {}

    def setter(name, setting, test, also=()):
        def f(rs):
            taken(rs)
            for r in rs:
                ch = changes(r)
                hit = [k for k, (a, b) in ch.items() if test(a, b, r[3])]
                known = out.field.get(setting)
                if known is not None:
                    if known not in hit and not test(r[3][known], r[4][known], r[3]):
                        raise Bad('it leaves the setting %s at %s' % (known, show(r[4][known])), {})
                    hit = [known]
                extra = [out.field.get(a) for a in also]
                hit = [k for k in hit if k not in extra or k == known]
                if len(hit) > 1:
                    hit = [k for k in hit if k not in out.field.values()] or hit
                if not hit:
                    raise Bad('it has no effect', {})
                if known is None:
                    for s, k in out.field.items():
                        if k == hit[0] and s != setting:
                            raise Bad('it sets what --%s sets' % s, {})
                    out.field[setting] = hit[0]
                only(ch, hit[0], *extra)
        return f

    def tosym(a, b, before):
        return isinstance(a, L) and isinstance(b, int)

    for s in FLAGS:
        also = {'add-contents': ('add-offset', 'add-length')}.get(s, ())
        one('--' + s, [('long', s, None)],
            setter(s, s, lambda a, b, _: b == 1, also))
        one('--no-' + s, [('long', 'no-' + s, None)],
            setter('no-' + s, s, lambda a, b, _: b == 0))
    for s, short in ARGS.items():
        def has(a, b, _, s=s):
            return b == ('str', arg(s).s)
        one('--' + s, [('long', s, arg(s))], setter(s, s, has))
        if short:
            one('-' + short, [('short', short, arg(s))], setter(s, s, has))

    def up(a, b, _):
        return isinstance(a, L) and isinstance(b, L) and B.add(b, a, -1) == 1
    one('-d', [('short', 'd', None)], setter('d', 'debug', up))
    one('--debug', [('long', 'debug', None)], setter('debug', 'debug', up))
    one('--quiet', [('long', 'quiet', None)], setter('quiet', 'debug', lambda a, b, _: b == 0))
    one('-q', [('short', 'q', None)], setter('q', 'debug', lambda a, b, _: b == 0))

    def mode(name):
        def f(rs):
            setter(name, 'dump mode', lambda a, b, _: isinstance(b, int),
                   ('add-length',) if name == 'dump-length' else ())(rs)
            v = {r[4][out.field['dump mode']] for r in rs}
            if len(v) != 1:
                raise Stop('the dump mode is not followed')
            out.modes[name] = v.pop()
            if len(out.modes) == 2 and len(set(out.modes.values())) == 1:
                raise Bad('both dump modes are the same', {})
        return f
    one('--dump-all', [('long', 'dump-all', None)], mode('dump-all'))
    one('--dump-length', [('long', 'dump-length', None)], mode('dump-length'))

    def number(name):
        lo = NUMS[name][0]

        def f(rs):
            some = False
            for r in rs:
                ev, how, what, before, after = r[:5]
                end = ev.dom.get('first character after the number', (0, 0))
                val = ev.dom.get('the number')
                if val is None:
                    raise Stop('the number is not followed')
                oor = ev.dom.get('number out of range', (0, 0))
                if how == 'end':
                    ch = changes(r)
                    n = ev.integer('the number', *val)
                    if not ch:
                        raise Bad('a number (%d) has no effect' % val[0], {})
                    if oor[1]:
                        raise Bad('a number that does not fit is taken', {})
                    if end != (0, 0):
                        raise Bad('text after the number is ignored', {})
                    hit = [k for k, (a, b) in ch.items() if same(b, n)]
                    if not hit:
                        k = sorted(ch)[0]
                        raise Bad('the setting becomes %s for numbers %d..%d' % (
                            show(ch[k][1]), val[0], val[1]), {})
                    if val[0] < lo or val[1] > INT_MAX:
                        raise Bad('numbers %d..%d are taken' % val, {})
                    if out.field.setdefault(name, hit[0]) != hit[0]:
                        raise Stop('two settings')
                    only(ch, hit[0])
                    some = True
                elif end[0] <= 0 <= end[1] and oor[0] == 0 and \
                        val[0] <= 8 and val[1] >= lo and end == (0, 0):
                    raise Bad('the number %d is refused' % max(lo, val[0]), {})
            if not some:
                raise Bad('no number is taken', {})
        return f
    for s in NUMS:
        one('--' + s, [('long', s, arg(s))], number(s))

    def ends(code):
        def f(rs):
            for r in rs:
                if r[1] == 'end':
                    raise Bad('the tool goes on', {})
                if code == 0 and (r[1] not in ('exit', 'return') or r[2] != 0):
                    raise Bad('the tool reports a failure', {})
                if code and r[2] == 0:
                    raise Bad('the tool reports success', {})
        return f
    one('--help', [('long', 'help', None)], ends(None))
    one('-h', [('short', 'h', None)], ends(None))
    one('--version', [('long', 'version', None)], ends(0))
    one('an unknown long option', [('long', 'no-such-option', None)], ends(1))
    one('an unknown short option', [('short', 'Z', None)], ends(1))
    used = {}
    for s, k in out.field.items():
        if k in used:
            rep.violation('main', 'option', s, '--%s and --%s share a setting' % (s, used[k]),
                          'tools/h265nal.cc')
        used[k] = s


def defaults(prog, rep, out):
    """The settings before the first option; the help text."""
    def run(script):
        res = []

        def job(ev):
            c = Cli(prog, ev, script, None, 'end')
            how, what = c.run()
            return how, what, c.before, c.events, c.tables
        for ev, r in B.explore(prog, job):
            if isinstance(r, (Stop, Fault)):
                raise r
            res.append(r)
        return res
    want = {s: DEFAULT.get(s, 0) for s in FLAGS}
    want.update({s: None for s in ARGS})
    want.update({s: d for s, (_, d) in NUMS.items()})
    want['debug'] = 0
    if 'dump-all' in out.modes:
        want['dump mode'] = out.modes['dump-all']
    try:
        rs = run([])
        for s, w in sorted(want.items()):
            rep.obligations += 1
            if s not in out.field:
                rep.undec('main', 'default', s, 'where %s is kept is not known' % s,
                          'tools/h265nal.cc')
                continue
            for r in rs:
                g = r[2][out.field[s]] if r[2] else UN
                if g is UN:
                    rep.violation('main', 'default', s, '%s has no default value' % s,
                                  'tools/h265nal.cc')
                elif not same(g, w):
                    rep.violation('main', 'default', s, 'the default of %s is %s instead of %s' % (
                        s, show(g), show(w)), 'tools/h265nal.cc')
        hs = run([('long', 'help', None)])
    except Fault as x:
        rep.violation('main', 'default', x.kind, x.text, 'tools/h265nal.cc:%s' % x.line)
        return
    except (Stop, Bad) as x:
        rep.undec('main', 'default', 'all', str(x), 'tools/h265nal.cc')
        return
    for how, what, before, events, tables in hs:
        text = ''
        for e in events:
            if e[0] == 'print':
                text += render_text(e[2])
        rows, sh = tables
        lines = text.split('\n')
        for o in sorted(set(re.findall(r'--([a-z][a-z-]*[a-z])', text))):
            rep.obligations += 1
            if not any(r[0] == o for r in rows):
                rep.violation('main', 'help', o, 'the help names --%s, which is no option' % o,
                              'tools/h265nal.cc')
        for o in sorted(set(re.findall(r'(?:^|\s)-([a-z])\b', text))):
            rep.obligations += 1
            if o not in sh:
                rep.violation('main', 'help', o, 'the help names -%s, which is no option' % o,
                              'tools/h265nal.cc')
        for s in FLAGS:
            for pre, v in (('--', 1), ('--no-', 0)):
                ls = [l for l in lines if re.search(re.escape(pre + s) + r'(?![a-z-])', l)]
                if not ls:
                    continue
                rep.obligations += 1
                if ('[default]' in ls[0]) != (want[s] == v):
                    rep.violation('main', 'help', pre + s, 'the help is wrong about the default of '
                                  '%s' % (pre + s), 'tools/h265nal.cc')
        for s, (_, d) in NUMS.items():
            ls = [l for l in lines if '--' + s in l]
            m = re.search(r'\[default: (-?\d+)\]', ls[0]) if ls else None
            if m:
                rep.obligations += 1
                if int(m.group(1)) != d:
                    rep.violation('main', 'help', s, 'the help gives the default of --%s as %s' % (
                        s, m.group(1)), 'tools/h265nal.cc')


def render_text(a):
    it = iter(a[1:])

    def f(m):
        if m.group(0) == '%%':
            return '%'
        v = next(it, '')
        return v if isinstance(v, str) else str(v) if isinstance(v, int) else '?'
    return re.sub(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?[a-zA-Z%]', f, a[0])


# ---------------------------------------------------------------- B: the rest of main()
FMT = re.compile(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])')


def pieces(prints):
    """The output as a list of characters and (conversion, value)."""
    out = []
    for a in prints:
        it = iter(a[1:])
        pos = 0
        for m in FMT.finditer(a[0]):
            out += list(a[0][pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                out.append('%')
                continue
            v = next(it, None)
            if v is None:
                raise Bad('a conversion without a value', {})
            if isinstance(v, str):
                out += list(v)
            elif isinstance(v, tuple) and v and v[0] == 'num':
                out.append((m.group(0), v[1]))
            elif m.group(1) == 'c' and isinstance(v, int):
                out.append(chr(v))
            else:
                out.append((m.group(0), v))
        out += list(a[0][pos:])
    return out


class Tail:
    """main() after the options, from an arbitrary state of the settings."""

    def __init__(self, prog, out, mode, nals, fixed=None, size=5):
        self.P, self.out, self.mode, self.nalspec, self.size = prog, out, mode, nals, size
        self.fixed = fixed or {}

    def havoc(self, cli, o):
        ev, F = cli.ev, self.out.field
        self.want = {}
        inv = {k: s for s, k in F.items()}

        def fill(o, pre=''):
            for k, h in o.f.items():
                n = pre + k
                if isinstance(h.v, Obj):
                    fill(h.v, n + '.')
                    continue
                s = inv.get(n)
                if s in self.fixed:
                    v = self.fixed[s]
                elif s in FLAGS:
                    v = ev.integer('--' + s, 0, 1)
                elif s == 'dump mode':
                    v = self.out.modes[self.mode]
                elif s == 'debug':
                    v = ev.integer('debug', 0, 1)
                elif s in ('infile', 'hvcc-file'):
                    v = Lit(s) if ev.truth(ev.integer(s + ' given', 0, 1)) else None
                elif s == 'outfile':
                    k_ = ev.fix(ev.integer('outfile', 0, 3))
                    v = (None, Lit('-'), Lit('-x'), Lit('out'))[k_]
                elif s == 'nalu-length-bytes':
                    v = ev.integer(s, -1, INT_MAX)
                elif s == 'frames-per-second':
                    v = ev.integer(s, 0, INT_MAX)
                else:
                    continue
                t = unref(h.t or '')
                if t == 'str':
                    raise Stop('a setting kept as a string')
                h.v = v
                self.want[s] = v
        fill(o)
        miss = [s for s in F if s not in self.want]
        if miss:
            raise Stop('settings not found: ' + ', '.join(miss))

    def nal(self, ev, k, spec):
        """A NAL unit: spec = dict(type, slice, first, offset, length)."""
        h = ev.make('T:' + N + 'H265NalUnitParser::NalUnitState', True)
        f = h.v.f
        f['offset'].v, f['length'].v = spec['offset'], spec['length']
        f['nal_unit_header'].v = self.ptr(ev, N + 'H265NalUnitHeaderParser::NalUnitHeaderState')
        f['nal_unit_header'].v.seq.h.v.f['nal_unit_type'].v = spec['type']
        f['nal_unit_payload'].v = self.ptr(ev, N + 'H265NalUnitPayloadParser::NalUnitPayloadState')
        if spec.get('slice'):
            p = f['nal_unit_payload'].v.seq.h.v.f['slice_segment_layer']
            p.v = self.ptr(ev, N + 'H265SliceSegmentLayerParser::SliceSegmentLayerState')
            q = p.v.seq.h.v.f['slice_segment_header']
            q.v = self.ptr(ev, N + 'H265SliceSegmentHeaderParser::SliceSegmentHeaderState')
            g = q.v.seq.h.v.f
            g['first_slice_segment_in_pic_flag'].v = spec['first']
            g['slice_segment_address'].v = spec['addr'] = ev.integer('address %d' % k, 0, 65535)
            g['slice_pic_order_cnt_lsb'].v = spec['poc'] = ev.integer('poc %d' % k, 0, 65535)
        return h

    def ptr(self, ev, t):
        return Ptr(One(ev.make('T:' + t, True)), 0)

    def job(self, ev):
        cli = Cli(self.P, ev, [], self.havoc)
        cli.size = lambda n: self.size if n == 'infile' else 3
        specs = []

        def nalunits():
            out = []
            for k, s in enumerate(self.nalspec):
                s = dict(s)
                if s['length'] is None:
                    s['length'] = ev.integer('length of NAL unit %d' % k, 0, 100000)
                specs.append(s)
                out.append(self.nal(ev, k, s))
            return out
        cli.nalunits = nalunits
        ev.hooks['std::to_string'] = lambda ev, e, a: Str(('num', ev.val(a[0])))
        how, what = cli.run()
        self.check(ev, cli, how, what, specs)
        return True

    def check(self, ev, cli, how, what, specs):
        W = self.want
        E = cli.events
        one = lambda name: ev.truth(ev.integer(name, 0, 1))
        infile, hvcc = W['infile'] is not None, W['hvcc-file'] is not None
        i = 0
        # the messages on standard error are free, and so are those of -d -d
        E = [e for e in E if not (e[0] == 'print' and e[1] == 'stderr')]

        def fail(why):
            if how not in ('return', 'exit') or what == 0 or not isinstance(what, int):
                raise Bad('the tool reports success although %s' % why, {})
            for e in E:
                if e[0] in ('print', 'dump'):
                    raise Bad('something is printed although %s' % why, {})

        if not infile and not hvcc:
            return fail('there is nothing to parse')
        cont = one('--add-contents') if self.opt('add-contents') is None else self.fixed['add-contents']
        length = self.mode == 'dump-length'
        want = {k: W[k.replace('_', '-')] for k in PARSING}
        if cont:
            want['add_offset'] = want['add_length'] = 1
        if length:
            want['add_length'] = 1

        def options(o, where):
            for k, v in want.items():
                if k not in o:
                    raise Stop('parsing option ' + k)
                expect(ev, o[k], v, '%s given to %s' % (k, where))

        states = []
        reads = [e for e in E if e[0] == 'read']
        exp = (['hvcc-file'] if hvcc else []) + (['infile'] if infile else [])
        got = [e[1] for e in reads]
        bad = [e[1] for e in reads if not e[2]]
        parses = [e for e in E if e[0] == 'parse']
        boxfail = any(e[1] == 'box' and not e[7] for e in parses)
        for e in parses:
            kind, data, size, mid, st, o, ok = e[1:]
            src = 'hvcc-file' if kind == 'box' else 'infile'
            buf = cli.bufs.get(src)
            if buf is None:
                raise Bad('bytes are parsed that were not read from the %s' % src, {})
            if not (isinstance(data, Ptr) and data.seq is buf and data.i == 0):
                raise Bad('other bytes than those of the %s are parsed' % src, {})
            expect(ev, size, len(buf.items), 'the number of bytes parsed')
            options(o, {'box': 'ParseConfigurationBox', 'split': 'ParseBitstream',
                        'lengths': 'ParseBitstreamNALULength'}[kind])
            if not isinstance(st, Ptr) or not isinstance(st.seq, One):
                raise Stop('the state object')
            states.append(st.seq.h.v)
            if kind == 'lengths':
                expect(ev, mid[0], W['nalu-length-bytes'], 'the number of length bytes')
        if any(s is not states[0] for s in states):
            raise Bad('the parameter sets of the hvcC file are not used for the bitstream', {})
        if bad:
            return fail('%s cannot be read' % bad[0])
        if boxfail:
            return fail('the hvcC file cannot be parsed')
        if sorted(got) != sorted(exp):
            raise Bad('the files read are %s instead of %s' % (got, exp), {})
        kinds = [e[1] for e in parses]
        if hvcc and kinds[:1] != ['box']:
            raise Bad('the hvcC file is not parsed first', {})
        if infile:
            neg = ev.cmp('<', W['nalu-length-bytes'], 0)
            if kinds[-1:] != ['split' if neg else 'lengths']:
                raise Bad('the input is split by %s for nalu-length-bytes %s' % (
                    {'split': 'start codes', 'lengths': 'lengths'}.get((kinds or ['nothing'])[-1],
                                                                       'nothing'),
                    '< 0' if neg else '>= 0'), {})
        if len(kinds) != len(exp):
            raise Bad('%d structures are parsed' % len(kinds), {})
        # output
        of = W['outfile']
        opens = [e for e in E if e[0] == 'fopen']
        closes = [e for e in E if e[0] == 'fclose']
        if of is None or of.s == '-':
            if opens or closes:
                raise Bad('standard output is opened or closed', {})
            target = 'stdout'
        else:
            if len(opens) != 1 or opens[0][1] != of.s or not opens[0][2].startswith('w'):
                raise Bad('the output file is not opened for writing', {})
            if not opens[0][3]:
                return fail('the output cannot be opened')
            target = closes[0][1] if closes else None
            if len(closes) != 1 or not str(target).startswith('file '):
                raise Bad('the output file is not closed once', {})
        seq = [e for e in E if e[0] in ('print', 'dump')]
        for e in seq:
            if (e[1] if e[0] == 'print' else e[3]) != target:
                raise Bad('output goes to %s instead of %s' % (
                    e[1] if e[0] == 'print' else e[3], of.s if of is not None else 'stdout'), {})
        if closes and E.index(closes[0]) < max([E.index(e) for e in seq], default=0):
            raise Bad('something is printed to the closed output', {})
        if how != 'return' and how != 'exit' or what not in (0, None):
            raise Bad('the tool reports a failure although all went well', {})
        indent = -1 if ev.truth(W['as-one-line']) else 0
        dumps = [e for e in seq if e[0] == 'dump']
        for e in dumps:
            options(e[5], 'fdump')
            expect(ev, e[4], indent, 'the indentation')
        boxes = [e for e in dumps if e[1] == 'box']
        if len(boxes) != (1 if hvcc else 0):
            raise Bad('the hvcC box is printed %d times' % len(boxes), {})
        nd = [e for e in dumps if e[1] == 'nal']
        if not infile:
            if nd:
                raise Bad('NAL units are printed without input', {})
            return
        if not length:
            self.full(ev, cli, specs, seq, nd, cont)
        else:
            if nd:
                raise Bad('NAL units are printed in full by --dump-length', {})
            self.rows(ev, cli, specs, seq, W)

    def opt(self, s):
        return self.fixed.get(s)

    def full(self, ev, cli, specs, seq, nd, cont):
        if len(nd) != len(specs):
            raise Bad('%d of %d NAL units are printed' % (len(nd), len(specs)), {})
        for e, o in zip(nd, cli.nals):
            if e[2] is not o and e[2].v is not o.v:
                raise Bad('the NAL units are printed out of order', {})
        pos = [seq.index(e) for e in nd] + [len(seq)]
        buf = cli.bufs['infile']
        for k, s in enumerate(specs):
            p = pieces([x[2] for x in seq[pos[k] + 1:pos[k + 1]] if x[0] == 'print'])
            hexs = [x for x in p if isinstance(x, tuple)]
            if not p or p[-1] != '\n' or p.count('\n') != 1:
                raise Bad('the output of a NAL unit is not one line', {})
            if not cont:
                if hexs:
                    raise Bad('values are printed after the NAL unit', {})
                continue
            if len(hexs) != s['length']:
                raise Bad('%d of the %d bytes of the NAL unit are printed' % (
                    len(hexs), s['length']), {})
            for i, (c, v) in enumerate(hexs):
                if c not in ('%02x', '%02hhx', '%02X', '%2.2x'):
                    raise Stop('conversion ' + c)
                expect(ev, v, buf.items[s['offset'] + i].v, 'byte %d of the contents' % i)
            if any(p[j] not in ' \t' for j in self.between(p)):
                raise Bad('the bytes are not separated by spaces', {})

    def between(self, p):
        ix = [j for j, x in enumerate(p) if isinstance(x, tuple)]
        for a, b in zip(ix, ix[1:]):
            if b == a + 1:
                raise Bad('two bytes are printed without a separator', {})
            for j in range(a + 1, b):
                yield j

    COLS = ['nal_num', 'frame_num', 'nal_unit_type', 'nal_unit_type_str', 'nal_length_bytes',
            'bitrate_bps', 'first_slice_segment_in_pic_flag', 'slice_segment_address',
            'slice_pic_order_cnt_lsb']

    def rows(self, ev, cli, specs, seq, W):
        boxes = [k for k, e in enumerate(seq) if e[0] == 'dump']
        p = pieces([x[2] for x in seq if x[0] == 'print'])
        rows, row, cell = [], [], []
        for x in p:
            if x == '\n':
                rows.append(row + [cell])
                row, cell = [], []
            elif x == ',':
                row.append(cell)
                cell = []
            else:
                cell.append(x)
        if row or cell:
            raise Bad('the last row is not ended', {})
        if boxes and rows[:1] == [[[]]]:
            rows = rows[1:]                       # the end of the line of the box
        head = [''.join(c) for c in rows[0]] if rows and all(
            isinstance(y, str) for c in rows[0] for y in c) else None
        if head != self.COLS:
            raise Bad('the columns are not %s' % ','.join(self.COLS), {})
        fps = W['frames-per-second']
        exp, frame, total, last = [], 0, 0, 0

        def flush():
            exp.append([None, frame, last, 'frame', None, mul(B.scale(total, 8), fps), None,
                        None, None])
        for k, s in enumerate(specs):
            if s.get('slice'):
                if s['first'] and ev.cmp('>', total, 0):
                    flush()
                    frame, total = frame + 1, 0
                last = s['type']
                total = B.add(total, s['length'])
            name = self.name(ev, s['type'])
            exp.append([k, frame, s['type'], name, s['length'], None] + (
                [s['first'], s['addr'], s['poc']] if s.get('slice') else [None] * 3))
        if ev.cmp('>', total, 0):
            flush()
        got = rows[1:]
        if len(got) != len(exp):
            raise Bad('%d rows instead of %d' % (len(got), len(exp)), {})
        for n, (g, w) in enumerate(zip(got, exp)):
            if len(g) != len(w):
                raise Bad('row %d has %d columns' % (n + 1, len(g)), {})
            for c, a, b in zip(self.COLS, g, w):
                what = '%s in row %d (of %s)' % (c, n + 1, self.label())
                if b is None:
                    if a:
                        raise Bad(what + ' is not empty', {})
                elif isinstance(b, str):
                    if ''.join(x if isinstance(x, str) else '?' for x in a) != b:
                        raise Bad(what + ' is not ' + b, {})
                elif len(a) == 1 and isinstance(a[0], tuple):
                    expect(ev, a[0][1], b, what)
                elif a and all(isinstance(x, str) for x in a) and ''.join(a).isdigit():
                    expect(ev, int(''.join(a)), b, what)
                else:
                    raise Bad(what + ' is missing', {})

    def label(self):
        return ' '.join('%s%s' % (s['type'], ('F' if s['first'] else 'f') if s.get('slice') else '')
                        for s in self.nalspec)

    def name(self, ev, t):
        fn = [f for f in self.P.byq.get(N + 'NalUnitTypeToString', []) if f.get('body') is not None]
        if not fn:
            raise Stop('NalUnitTypeToString')
        v = ev.call(fn[0], [t])
        if isinstance(v, H):
            v = v.v
        return v.s if isinstance(v, (Str, Lit)) else None


def mul(a, b):
    if isinstance(a, int):
        return B.scale(b, a) if isinstance(b, L) else a * b
    if isinstance(b, int):
        return B.scale(a, b)
    raise Stop('a product of two unknown numbers')


def cases(prog, out):
    cs = []

    def case(key, label, t, cost=None):
        c = {'key': key, 'label': label, 'job': t.job}
        if cost:
            c['cost'] = cost
        cs.append(c)
    two = [dict(type=32, offset=4, length=17), dict(type=19, offset=25, length=15, slice=1, first=1)]
    case('main: --dump-all', 'dumping two NAL units', Tail(prog, out, 'dump-all', two, size=40), 99)
    case('main: --dump-all', 'dumping an empty stream', Tail(prog, out, 'dump-all', []), 98)
    case('main: --dump-length', 'listing an empty stream', Tail(prog, out, 'dump-length', []), 97)
    kinds = [dict(type=39), dict(type=1, slice=1, first=1), dict(type=0, slice=1, first=0),
             dict(type=19, slice=0)]
    seqs = [()]
    everything = []
    for n in range(4):
        everything += seqs
        seqs = [s + (k,) for s in seqs for k in range(4)]
    base = {s: 0 for s in FLAGS}
    base['outfile'] = None
    base['infile'] = Lit('infile')
    base['hvcc-file'] = None
    base['nalu-length-bytes'] = -1
    base['debug'] = 0
    for sq in everything:
        nals = []
        for j, k in enumerate(sq):
            s = dict(kinds[k], offset=0, length=None)
            if s.get('slice'):
                s['type'] = (1, 19, 9, 21)[j] if s['first'] else (0, 20, 8, 16)[j]
            nals.append(s)
        fx = dict(base)
        fx['frames-per-second'] = 30
        case('main: --dump-length', 'rows', Tail(prog, out, 'dump-length', nals, fx))
        fx = dict(base)
        nals = [dict(s, length=3 + 7 * j) for j, s in enumerate(nals)]
        case('main: --dump-length', 'rows', Tail(prog, out, 'dump-length', nals, fx))
    return cs


@prop('C25', 'The transfer function of the option loop of main() is computed for every documented option from an arbitrary state '
      'of the settings (all fields symbolic, numbers and their conversion symbolic) and compared with the documented effect; '
      'defaults and help text are compared with each other; the rest of main() is evaluated from an arbitrary state of the '
      'settings: files, parser, parsing options, output.', min=1)
def c25(ctx, rep, tier):
    prog = ctx.prog('normal')
    inject(prog)
    out = Map_()
    part_a(prog, rep, out)
    need = set(FLAGS) | set(ARGS) | set(NUMS) | {'debug', 'dump mode'}
    if len(rep.findings) == 0 or set(out.field) == need:
        pass
    defaults(prog, rep, out)
    rep.extra['settings'] = dict(out.field)
    if set(out.field) != need or len(out.modes) != 2:
        rep.undec('main', 'tail', 'all', 'where these settings are kept is not known: %s' % ', '.join(
            sorted(need - set(out.field))), 'tools/h265nal.cc')
        return
    B.report(rep, prog, B.run_cases(prog, cases(prog, out)), lambda k: 'tools/h265nal.cc')
