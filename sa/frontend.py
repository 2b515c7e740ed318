"""Front end: builds the clang lowering plugin, lowers every translation unit
of the project under analysis and links the per-TU IR into one Program."""
import norm
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
REPO = os.environ.get('H265SA_REPO', '/repo')
CLANG = shutil.which('clang++') or 'clang++'
LLVM_INC = '/usr/lib/llvm-18/include'

NORMAL = ['-DFDUMP_DEFINE', '-DRTP_DEFINE', '-DFPRINT_ERRORS']
SMALL = ['-DSMALL_FOOTPRINT']


class FrontendError(Exception):
    pass


def build_plugin(tmp):
    so = os.path.join(tmp, 'irplugin.so')
    cmd = [CLANG, '-std=c++17', '-O0', '-fPIC', '-shared', '-fno-rtti',
           '-I' + LLVM_INC, '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-D_GNU_SOURCE',
           os.path.join(HERE, 'irplugin.cpp'), '-o', so]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FrontendError('cannot build the clang plugin: ' + r.stderr[-2000:])
    return so


def sources(config):
    src = sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')))
    tools = sorted(glob.glob(os.path.join(REPO, 'tools', '*.cc')))
    if config == 'small':
        # the small footprint library does not contain the RTP sources
        src = [s for s in src if '_rtp_' not in os.path.basename(s)]
        tools = []
    return src + tools


def spec_sources(config):
    return sorted(glob.glob(os.path.join(SPEC, '*.cc')))


def _lower_one(args):
    so, src, out, defs, cfgdir = args
    cmd = [CLANG, '-std=gnu++14', '-w', '-I' + os.path.join(REPO, 'include'),
           '-I' + cfgdir] + defs + [
        '-fsyntax-only', '-fplugin=' + so,
        '-Xclang', '-plugin', '-Xclang', 'repo-ir',
        '-Xclang', '-plugin-arg-repo-ir', '-Xclang', 'root=' + REPO + '/',
        '-Xclang', '-plugin-arg-repo-ir', '-Xclang', 'root2=' + SPEC + '/',
        '-Xclang', '-plugin-arg-repo-ir', '-Xclang', 'out=' + out, src]
    if src.startswith(SPEC + '/'):
        cmd.insert(1, '-I' + SPEC)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return src, None, r.stderr[-3000:]
    objs = []
    with open(out) as f:
        for line in f:
            objs.append(json.loads(line))
    return src, objs, ''


def _cached(cache, config):
    """Development only: reuse a lowered unit whose text and headers are the same."""
    h = hashlib.sha256(config.encode())
    for f in [os.path.join(HERE, 'irplugin.cpp')] + sorted(
            glob.glob(os.path.join(REPO, 'include', '*'))) + sorted(
            glob.glob(os.path.join(SPEC, '*.h'))):
        with open(f, 'rb') as fh:
            h.update(os.path.basename(f).encode() + fh.read())
    base = h.digest()

    def low(args):
        src = args[1]
        with open(src, 'rb') as fh:
            k = hashlib.sha256(base + src.split('/')[-1].encode() + fh.read()).hexdigest()
        path = os.path.join(cache, 'tu' + k)
        if os.path.exists(path):
            with open(path, 'rb') as fh:
                return src, pickle.load(fh), ''
        r = _lower_one(args)
        if r[1] is not None:
            with open(path + '.%d' % os.getpid(), 'wb') as fh:
                pickle.dump(r[1], fh, protocol=4)
            os.replace(path + '.%d' % os.getpid(), path)
        return r
    return low


class Program:
    def __init__(self, config):
        self.config = config
        self.records = {}
        self.fns = {}        # mangled -> fn
        self.byq = {}        # qualified -> [fn]
        self.protos = {}
        self.enums = {}
        self.vars = {}       # qualified -> var
        self.files = []
        self.tu_of = {}

    def add_tu(self, src, objs):
        self.files.append(os.path.relpath(src, REPO))
        tu = os.path.basename(src)
        for o in objs:
            k = o['k']
            if k == 'record':
                self.records.setdefault(o['n'], o)
            elif k == 'fn':
                if o['m'] not in self.fns:
                    o['tu'] = tu
                    self.fns[o['m']] = o
                    self.byq.setdefault(o['q'], []).append(o)
            elif k == 'proto':
                self.protos.setdefault(o['m'], o)
            elif k == 'enum':
                self.enums.setdefault(o['n'], o)
            elif k == 'var':
                old = self.vars.get(o['n'])
                if old is None or ('init' in o and 'init' not in old):
                    o['tu'] = tu
                    self.vars[o['n']] = o

    def fn(self, q, nparams=None, pred=None):
        c = [f for f in self.byq.get(q, [])
             if nparams is None or len(f['ps']) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c


def _tree_hash(config):
    h = hashlib.sha256()
    h.update(config.encode())
    files = [os.path.join(HERE, 'irplugin.cpp'), os.path.join(HERE, 'frontend.py')]
    for d in [os.path.join(REPO, x) for x in ('src', 'include', 'tools')] + [SPEC]:
        for root, _, fs in os.walk(d):
            for f in sorted(fs):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def load(config='normal', jobs=8):
    return norm.program(lower(config, jobs))


def lower(config='normal', jobs=8):
    """Lower the current tree.  A cache keyed by the content of every source
    file is used only when H265SA_CACHE names a directory (development)."""
    cache = os.environ.get('H265SA_CACHE')
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        key = os.path.join(cache, _tree_hash(config) + '.pickle')
        if os.path.exists(key):
            with open(key, 'rb') as f:
                return pickle.load(f)
    tmp = tempfile.mkdtemp(prefix='h265sa.')
    try:
        so = None
        if cache:
            with open(os.path.join(HERE, 'irplugin.cpp'), 'rb') as f:
                so_c = os.path.join(
                    cache, 'p' + hashlib.sha256(f.read()).hexdigest() + '.so')
            if not os.path.exists(so_c):
                shutil.copy(build_plugin(tmp), so_c)
            so = so_c
        else:
            so = build_plugin(tmp)
        cfgdir = os.path.join(tmp, 'cfg')
        os.makedirs(cfgdir)
        with open(os.path.join(cfgdir, 'config.h'), 'w') as f:
            f.write('#pragma once\n#define PROJECT_NAME "h265nal"\n'
                    '#define PROJECT_VERSION "0"\n'
                    '#define PROJECT_VERSION_MAJOR "0"\n'
                    '#define PROJECT_VERSION_MINOR "0"\n'
                    '#define PROJECT_VERSION_PATCH ""\n')
        defs = NORMAL if config == 'normal' else SMALL
        srcs = sources(config)
        nsrc = len(srcs)
        if not srcs:
            raise FrontendError('no source files under ' + REPO)
        srcs = srcs + spec_sources(config)
        prog = Program(config)
        args = [(so, s, os.path.join(tmp, '%d.jsonl' % i), defs, cfgdir)
                for i, s in enumerate(srcs)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            low = _lower_one
            if cache:
                low = _cached(cache, config)
            for src, objs, err in ex.map(low, args):
                if objs is None:
                    raise FrontendError('cannot lower %s:\n%s' % (src, err))
                prog.add_tu(src, objs)
        if key:
            with open(key + '.tmp', 'wb') as f:
                pickle.dump(prog, f, protocol=4)
            os.replace(key + '.tmp', key)
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    p = load(sys.argv[1] if len(sys.argv) > 1 else 'normal')
    print(len(p.fns), 'functions', len(p.records), 'records')
    kinds = {}

    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int):
                kk = x[0]
                if kk in ('unk', 'unkst'):
                    kk += ':' + str(x[-1])
                if kk == 'cast':
                    kk += ':' + x[3]
                kinds[kk] = kinds.get(kk, 0) + 1
            for y in x:
                walk(y)
    for f in p.fns.values():
        walk(f['body'])
    for k, v in sorted(kinds.items(), key=lambda t: -t[1]):
        print(k, v)
