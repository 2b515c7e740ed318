"""Runs the checks of one or more properties, applies the known-findings file,
writes the evidence and the replay files and decides the exit status."""
import json
import os
import sys
import time
import traceback

import frontend
import analysis
import idd
import conform
import timelimit

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVID = os.environ.get('H265SA_EVIDENCE', os.path.join(ROOT, 'evidence'))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


STEP = 200      # seconds for one structure
LIMIT = {'quick': 780, 'thorough': 14400}
START = time.monotonic()


# properties of functions that work on what the parsers return
FACTS = {'C12', 'C15', 'C18', 'C23', 'C24'}


class OutOfTime(Exception):
    pass


class Broken(Exception):
    """The analysis lost what it must see: no answer."""


class Ctx:
    """Everything derived from the current tree, computed once per run."""

    def __init__(self):
        self._prog, self._world, self._cmp = {}, {}, {}
        self.memo = {}

    def prog(self, config='normal'):
        if config not in self._prog:
            self._prog[config] = frontend.load(config)
        return self._prog[config]

    def world(self, config='normal'):
        if config not in self._world:
            W = analysis.World(self.prog(config))
            self._world[config] = W
        return self._world[config]

    def lost(self):
        """Parsers that were not followed."""
        out = {}
        for W in self._world.values():
            out.update(W.failed)
        return out

    def weak(self):
        """Structures whose arguments or parameter sets come from parsers that
        were not followed."""
        out = set()
        for W in self._world.values():
            calls = analysis.calls(W.prog)
            sets = analysis.below(calls, {'vps', 'sps', 'pps'})
            bad = set(W.failed)
            if bad & sets:
                bad.add('slice_segment_layer')
                bad.add('slice_segment_header')
            out |= analysis.below(calls, bad)
        return out

    def compare(self, sid):
        if sid not in self._cmp:
            W = self.world()
            try:
                with timelimit.limit(STEP, lambda: analysis.Blowup('more than %d s' % STEP)):
                    c = conform.compare(W, sid, idd.IDD())
                    analysis.guarded(c.run)
                self._cmp[sid] = (c, None)
            except (analysis.Undecided, analysis.Blowup, RecursionError,
                    analysis.Vanished) as ex:
                self._cmp[sid] = (None, '%s: %s' % (type(ex).__name__, ex))
        return self._cmp[sid]


class Report:
    def __init__(self):
        self.findings = []
        self.obligations = 0
        self.units = []          # functions, structures ... analysed
        self.undecided = []      # text
        self.samples = []
        self.extra = {}
        self.rule = ''

    def finding(self, f):
        self.findings.append(f)

    def violation(self, sid, kind, key, text, where):
        self.findings.append(conform.Finding(sid, kind, key, text, where, 'violation'))

    def undec(self, sid, kind, key, text, where=''):
        self.findings.append(conform.Finding(sid, kind, key, text, where, 'undecided'))


def known():
    """{(property, ident)}"""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property='):
                    rest = line[len('known: property='):]
                    prop, rest = rest.split(' ', 1)
                    ident, _, text = rest.partition(' | ')
                    out[(prop, ident.strip())] = text
    return out


def run_one(ctx, pid, tier, alone=True):
    import props
    t0, t0m = time.time(), time.monotonic()
    p = props.PROPS[pid]
    rep = Report()
    rep.rule = p['rule']
    try:
        with timelimit.limit(max(60, LIMIT[tier] - (t0m - START if alone else 0)), OutOfTime):
            p['fn'](ctx, rep, tier)
    except (Broken, frontend.FrontendError):
        raise
    except OutOfTime:
        rep.undec('all', 'time', 'limit', 'out of time: what is left is not decided')
    except Exception as ex:
        if os.environ.get('H265SA_DEBUG'):
            raise
        # what was found before stands; the rest is not decided
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        rep.undec('all', 'step', type(ex).__name__, 'not followed: %s (%s:%s)' % (
            str(ex)[:160], os.path.basename(tb.filename), tb.lineno))
    lost = ctx.lost()
    weak = ctx.weak() if lost else set()
    for f in rep.findings:
        sid = f.sid.split('/')[0]
        if lost and f.verdict == 'violation' and (
                sid in weak or (pid in FACTS and sid not in analysis.QNAME)):
            # what these functions are given is not known without those parsers
            f.verdict = 'undecided'
            f.text = 'not decided while %s is not followed: %s' % (
                ', '.join(sorted(lost)[:4]), f.text)
    viol = [f for f in rep.findings if f.verdict == 'violation']
    und = [f for f in rep.findings if f.verdict != 'violation']
    kn = known()
    fresh, listed = [], []
    seen = set()
    for f in viol:
        k = (pid, f.ident())
        if k in kn:
            if k not in seen:
                listed.append((f, kn[k]))
        else:
            fresh.append(f)
        seen.add(k)
    # too little to look at, and nothing that says what was not followed
    if rep.obligations < p.get('min', 1) and not und and not rep.undecided:
        raise Broken('%s: only %d obligations found, at least %d expected'
                     % (pid, rep.obligations, p.get('min', 1)))
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, 'replay-%s.json' % pid)
    if fresh:
        with open(replay, 'w') as fh:
            json.dump({'property': pid, 'rule': p['rule'], 'violations': [
                {'id': f.ident(), 'what': f.text, 'where': f.where} for f in fresh]},
                fh, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    undt = ['%s | %s' % (f.ident(), f.text[:200]) for f in und] + rep.undecided
    cov = {
        'explanation': p['rule'],
        'obligations': rep.obligations,
        'violated': len(fresh),
        'known_findings': len(listed),
        'undecided': len(undt),
        'discharged': rep.obligations - len(viol) - len(und),
        'undecided_list': undt[:60],
        'analysed': rep.units,
        'samples': rep.samples[:12],
    }
    cov.update(rep.extra)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    for f, text in listed:
        print('KNOWN-FINDING: property=%s %s | %s' % (pid, f.ident(), text))
    for f in fresh[:20]:
        print('%s: %s\n    %s\n    at %s' % (pid, f.ident(), f.text[:400], f.where))
    print('%s: %d obligations, %d violated, %d known, %d undecided, %.1f s' % (
        pid, rep.obligations, len(fresh), len(listed), len(undt), time.time() - t0))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


def main(argv):
    import props
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ids = argv or ['all']
    if ids == ['--setup']:
        # every check builds what it needs itself: this only shows that it can
        n = len(frontend.load("normal").fns)
        print('setup: front end works, %d functions lowered' % n)
        return 0
    if ids == ['all']:
        ids = list(props.PROPS)
    sys.setrecursionlimit(20000)
    ctx = Ctx()
    rc = 0
    for pid in ids:
        try:
            r = run_one(ctx, pid, tier, len(ids) == 1)
        except (Broken, frontend.FrontendError) as ex:
            print('%s: analysis broken: %s' % (pid, ex))
            r = 2
        except Exception:
            traceback.print_exc()
            print('%s: analysis broken' % pid)
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc == 0 else rc)
    return rc
