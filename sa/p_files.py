"""Reading of the input: files and standard input, with every failure of the calls."""
import bitflow as B
from analysis import N
from bitflow import H, Bad, Stop, Lit, expect
from props import prop

READ = N + 'H265Utils::ReadFile'


class File:
    """The model of one stdio file."""
    truthy = True

    def __init__(self, ev, n, fail=None, seek=True, tell=True):
        self.data = B.Bytes('b', n)
        self.n, self.fail, self.seek, self.tell = n, fail, seek, tell
        self.pos, self.open, self.eof, self.err = 0, False, False, False


def text(v):
    return v.s[v.i:].split('\0')[0] if isinstance(v, Lit) else None


def model(ev, f, name, cin):
    """Hooks of the C library over one file and one standard input."""
    h = {}

    def hook(*names):
        def d(fn):
            for n in names:
                h[n] = fn
            return fn
        return d

    def file(v):
        if v is not f or f is None:
            if v is None:
                raise Bad('a null file is used', {})
            raise Stop('a file that is not followed')
        if not f.open:
            raise Bad('the file is used after it was closed', {})
        return f

    @hook('fopen', 'fopen64')
    def fopen(ev, e, a):
        nm, mode = text(ev.val(a[0])), text(ev.val(a[1]))
        if name is None:
            raise Bad('a file is opened instead of standard input', {})
        if nm != name:
            raise Bad('another file is opened', {})
        if mode is None or not mode.startswith('r') or '+' in mode:
            raise Bad('the file is not opened for reading', {})
        if f is None:
            return None
        f.open = True
        return f

    @hook('fclose')
    def fclose(ev, e, a):
        file(ev.val(a[0])).open = False
        return 0

    @hook('fseek', 'fseeko', 'fseeko64')
    def fseek(ev, e, a):
        x = file(ev.val(a[0]))
        off, wh = ev.fix(ev.val(a[1])), ev.fix(ev.val(a[2]))
        if not x.seek:
            return -1
        x.pos = off + (0, x.pos, x.n)[wh]
        x.eof = False
        return 0

    @hook('rewind')
    def rewind(ev, e, a):
        x = file(ev.val(a[0]))
        if x.seek:
            x.pos = 0
        x.eof = x.err = False

    @hook('ftell', 'ftello', 'ftello64')
    def ftell(ev, e, a):
        x = file(ev.val(a[0]))
        return x.pos if x.tell else -1

    @hook('fread')
    def fread(ev, e, a):
        d = ev.val(a[0])
        size, cnt = ev.fix(ev.val(a[1])), ev.fix(ev.val(a[2]))
        x = file(ev.val(a[3]))
        want = size * cnt
        top = x.n if x.fail is None else min(x.n, x.fail)
        got = max(0, min(want, top - x.pos))
        put(ev, d, x.data, x.pos, got, e[1])
        x.pos += got
        if got < want:
            if x.fail is not None and x.pos >= x.fail:
                x.err = True
            else:
                x.eof = True
        return got // size if size else 0

    @hook('fgetc', 'getc')
    def fgetc(ev, e, a):
        x = file(ev.val(a[0]))
        top = x.n if x.fail is None else min(x.n, x.fail)
        if x.pos < top:
            x.pos += 1
            return ev.at(x.data, x.pos - 1).v
        if x.fail is not None:
            x.err = True
        else:
            x.eof = True
        return -1

    @hook('feof')
    def feof(ev, e, a):
        return int(file(ev.val(a[0])).eof)

    @hook('ferror')
    def ferror(ev, e, a):
        return int(file(ev.val(a[0])).err)

    @hook('fprintf', 'perror', 'fputs', 'puts', 'printf')
    def quiet(ev, e, a):
        return 0

    @hook('strerror')
    def strerror(ev, e, a):
        return Lit('error')

    IS = 'std::basic_istream<char>::'

    @hook(IS + 'read')
    def cread(ev, e, a):
        d, want = ev.val(a[0]), ev.fix(ev.val(a[1]))
        if cin is None:
            raise Bad('standard input is read instead of the file', {})
        cin.got = 0
        if cin.eof:
            return cin
        got = min(want, cin.n - cin.pos)
        put(ev, d, cin.data, cin.pos, got, e[1])
        cin.pos += got
        cin.got = got
        cin.eof = got < want
        return cin

    @hook(IS + 'gcount')
    def gcount(ev, e, a):
        if cin is None:
            raise Bad('standard input is read instead of the file', {})
        return cin.got

    for k in ('std::basic_ios<char>::', IS):
        h[k + 'eof'] = h[k + 'fail'] = h[k + 'operator!'] = \
            lambda ev, e, a: int(cin is not None and cin.eof)
        h[k + 'good'] = h[k + 'operator bool'] = lambda ev, e, a: int(cin is None or not cin.eof)
        h[k + 'bad'] = lambda ev, e, a: 0
    ev.hooks = h


def put(ev, d, data, pos, n, line):
    if n and not isinstance(d, B.Ptr):
        raise Stop('where the bytes go is not followed')
    for k in range(n):
        ev.at(d.seq, B.add(d.i, k), line).v = ev.at(data, pos + k).v


def job(fn, given, name, f, cin, good):
    def run(ev):
        x = File(ev, **f) if f is not None else None
        c = None
        if cin is not None:
            c = File(ev, cin)
            c.got = 0
        model(ev, x, name, c)
        for s in ('stdout', 'stderr', 'stdin'):
            ev.globals[s] = H(B.Opq(s), 'P<T:_IO_FILE>')
        buf = H(B.Vec([], 'u8'), 'V<u8>')
        r = ev.call(fn, [Lit(given) if given is not None else None, buf])
        r = r.v if isinstance(r, H) else r
        if x is not None and x.open:
            raise Bad('the file is left open', {})
        if good is None:
            return
        if not good:
            if not ev.truth(ev.cmp('<', r, 0)):
                raise Bad('success is reported though the input could not be read', {})
            return
        if ev.truth(ev.cmp('<', r, 0)):
            raise Bad('failure is reported though the input can be read', {})
        src = x if x is not None else c
        if len(buf.v.items) != src.n:
            raise Bad('%d bytes are delivered instead of %d' % (len(buf.v.items), src.n), {})
        for i, h in enumerate(buf.v.items):
            expect(ev, h.v, ev.at(src.data, i).v, 'byte %d' % i)
    return run


def cases(prog, fn, tier):
    out = []

    def add(label, *a):
        out.append({'key': READ, 'label': label, 'dom': {}, 'job': job(fn, *a),
                    'limit': 400000})
    sizes = (1, 2, 3, 4, 9) if tier == 'quick' else (1, 2, 3, 4, 5, 8, 9, 64, 255, 256, 4096, 4099)
    names = ('in', '-x', 'x-', '--', 'a/b')
    for n in sizes:
        for nm in names if n < 4 else names[:1]:
            add('a file of %d bytes' % n, nm, nm, dict(n=n), None, True)
    for n in (1, 2, 4):
        for k in range(n):
            add('a file of %d bytes that cannot be read after %d' % (n, k), 'in', 'in',
                dict(n=n, fail=k), None, False)
        add('a file whose size cannot be told', 'in', 'in',
            dict(n=n, seek=False, tell=False, fail=0), None, False)
    add('an empty file', 'in', 'in', dict(n=0), None, None)
    add('a file that cannot be opened', 'in', 'in', None, None, False)
    chunks = (0, 1, 2, 5, 4095, 4096, 4097) if tier == 'quick' else \
        (0, 1, 2, 3, 4, 5, 255, 256, 4095, 4096, 4097, 8192, 8195)
    for nm in ('-', None):
        for n in chunks if nm else chunks[:4]:
            add('standard input of %d bytes' % n, nm, None, None, n, True)
    return out


@prop('C31', 'H265Utils::ReadFile is evaluated over a model of the C and C++ library whose bytes are all '
      'symbolic and whose calls fail in every way one at a time: the bytes delivered, the result, and that '
      'the file is closed on every way out are compared with the content of the model.', min=20)
def c31(ctx, rep, tier):
    prog = ctx.prog('normal')
    fs = [f for f in prog.byq.get(READ, []) if f.get('body') is not None]
    if not fs:
        rep.undec('ReadFile', 'find', 'ReadFile', 'not found')
        return
    rep.extra['model'] = 'fopen/fseek/ftell/fread/fgetc/feof/ferror/fclose, std::cin read/gcount'
    B.report(rep, prog, B.run_cases(prog, cases(prog, fs[0], tier)),
             lambda k: '%s:%s' % (fs[0]['file'], fs[0]['line']))
