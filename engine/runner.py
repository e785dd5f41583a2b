"""Runs the cases of one property on a pool of processes and reports the verdict."""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

import z3
import build
import concrete
import llir
import native
import symex
from symex import SolverUnknown, Unsupported
from llir import IRError
from env import PROGRAM_ID

VERIF = build.VERIF
WITNESS_S = 45         # time for a witness that is replayed on the real code
REACH_S = 10           # time for showing that a claim is not vacuous
REPLAYS = os.path.join(VERIF, 'cache', 'replay')


class Unconfirmed(Unsupported):
    """the solver has a counterexample that the real code does not show"""


class Violation(Exception):
    def __init__(self, rec):
        self.rec = rec


class Ctx:
    """what a case uses to state its obligations"""

    def __init__(self, prop, label, mod, so, deadline):
        self.prop, self.label, self.mod, self.so, self.deadline = prop, label, mod, so, deadline
        self.worlds = []
        self.discharged = []
        self.witnesses = []
        self.notes = []
        self.bounds = []
        self.validated = 0

    def watch(self, w):
        if w not in self.worlds:
            w.ex.deadline = self.deadline
            self.worlds.append(w)

    def bound(self, text):
        self.bounds.append(text)

    def prove(self, name, w, conds, outs=(), says=''):
        """no input satisfies conds; otherwise the counterexample is replayed on the real code"""
        self.watch(w)
        t = time.time()
        r, m = w.ex.decide(conds)
        if r == 'unsat':
            self.discharged.append((name, round(time.time() - t, 2)))
            return True
        rec = self.confirm(name, w, conds, outs, says)
        raise Violation(rec)

    def prove_client(self, name, w, conds, native_says, says=''):
        """as prove, for a client-side entry point: native_says(model tables) runs the real code and
        returns (inputs, what it did wrong or None)"""
        self.watch(w)
        t = time.time()
        r, m = w.ex.decide(conds)
        if r == 'unsat':
            self.discharged.append((name, round(time.time() - t, 2)))
            return True
        for hints in (True, False):
            try:
                m = concrete.concretise(w, list(conds), hints=hints)
                break
            except (concrete.CannotConcretise, SolverUnknown):
                m = None
        if m is None:
            raise Unconfirmed('%s: a counterexample could not be made concrete' % name)
        inp, wrong = native_says(concrete.Tables(w.ex, m), m)
        if wrong is None:
            raise Unconfirmed('%s: the counterexample does not reproduce on the real code' % name)
        raise Violation(dict(property=self.prop, case=self.label, claim=name, statement=says, calls=[],
                             client=concrete.to_json(inp), observed=[dict(kind='client', result=str(wrong), accounts=None)]))

    def holds(self, name, w, conds):
        """as prove, for a claim that has an alternative"""
        self.watch(w)
        t = time.time()
        try:
            r, m = w.ex.decide(conds)
        except SolverUnknown:
            return False
        if r == 'unsat':
            self.discharged.append((name, round(time.time() - t, 2)))
        return r == 'unsat'

    def confirm(self, name, w, conds, outs, says):
        err = None
        m = None
        for hints in (True, False):
            try:
                m = concrete.concretise(w, list(conds), hints=hints)
                break
            except (concrete.CannotConcretise, SolverUnknown) as e:
                err = e
        if m is None:
            raise Unconfirmed('%s: a counterexample could not be made concrete: %s' % (name, err))
        rec = dict(property=self.prop, case=self.label, claim=name, statement=says, calls=[], observed=[])
        for call, o in zip(w.calls, outs):
            inp = concrete.inputs(w, m, call)
            pred = concrete.predicted(w, m, call, o)
            got = concrete.run_native(self.so, inp)
            d = concrete.compare(pred, got)
            if d is not None:
                raise Unconfirmed('%s: the counterexample does not reproduce on the real code: %s' % (name, d))
            rec['calls'].append(concrete.to_json(inp))
            rec['observed'].append(concrete.to_json(dict(kind=got[0], result=got[1], accounts=got[2])))
        return rec

    def reach(self, name, w, conds, outs=(), replay=True):
        """some input satisfies conds (the claims above are not vacuous)"""
        self.watch(w)
        if not replay:
            try:
                w.ex.deadline = min(self.deadline, time.time() + REACH_S)
                r, m = w.ex.decide(conds)
            except SolverUnknown:
                r = 'unknown'
            finally:
                w.ex.deadline = self.deadline
            if r == 'sat':
                self.witnesses.append(dict(name=name))
            else:
                self.notes.append('%s: %s' % (name, 'not reachable' if r == 'unsat' else 'reachability undecided'))
            return None
        note = ''
        for hints in (True, False):
            w.ex.deadline = min(self.deadline, time.time() + WITNESS_S)
            try:
                m = concrete.concretise(w, list(conds), hints=hints)
                if m is None:
                    note = '%s: not reachable' % name
                break
            except (concrete.CannotConcretise, SolverUnknown) as e:
                m = None
                note = '%s: witness not made concrete: %s' % (name, e)
            finally:
                w.ex.deadline = self.deadline
        if m is None:
            self.notes.append(note)
            return False
        sample = []
        for call, o in zip(w.calls, outs):
            inp = concrete.inputs(w, m, call)
            pred = concrete.predicted(w, m, call, o)
            got = concrete.run_native(self.so, inp)
            d = concrete.compare(pred, got)
            if d is not None:
                raise Unconfirmed('%s: the executor disagrees with the real code on a witness: %s' % (name, d))
            self.validated += 1
            sample.append('%s %s' % (got[0], got[1]))
        self.witnesses.append(dict(name=name, native=sample))
        return True

    def result(self):
        st = {}
        enc, stub = set(), set()
        for w in self.worlds:
            for k, v in w.ex.stats.items():
                if isinstance(v, (int, float)):
                    st[k] = st.get(k, 0) + v
            enc |= w.ex.encoded
            stub |= w.ex.stubbed
        return dict(label=self.label, discharged=self.discharged, witnesses=self.witnesses, notes=self.notes,
                    bounds=self.bounds, stats=st, encoded=enc, stubbed=stub, validated=self.validated)


def run_case(prop, case, mod, so, deadline):
    label, f, kw = case
    ctx = Ctx(prop, label, mod, so, deadline)
    t = time.time()
    out = {}
    try:
        f(ctx, **kw)
        out['verdict'] = 'held'
    except Violation as v:
        out['verdict'] = 'violated'
        out['violation'] = v.rec
    except (Unsupported, IRError, SolverUnknown, concrete.CannotConcretise, RecursionError, MemoryError) as e:
        out['verdict'] = 'unknown'
        out['why'] = '%s: %s' % (type(e).__name__, e)
        out['budget'] = isinstance(e, SolverUnknown)
        for w in ctx.worlds[-1:]:
            if w.ex.cur is not None:
                try:
                    out['where'] = symex.where(w.ex.cur)[-1500:]
                except Exception:
                    pass
    except Exception:
        out['verdict'] = 'error'
        out['why'] = traceback.format_exc()[-3000:]
    out.update(ctx.result())
    out['wall'] = round(time.time() - t, 2)
    return out


def pool(prop, cases, mod, so, jobs, case_s, total_s, stop_on_violation=True, log=None):
    """run every case in its own process; -> results in the order of completion"""
    todo = list(cases)
    live = {}
    results = []
    end = time.time() + total_s
    stopping = False
    while live or (todo and not stopping):
        while todo and len(live) < jobs and not stopping:
            case = todo.pop(0)
            r, w = os.pipe()
            dl = min(time.time() + case_s, end)
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    res = run_case(prop, case, mod, so, dl)
                    b = pickle.dumps(res)
                except BaseException:
                    b = pickle.dumps(dict(label=case[0], verdict='error', why=traceback.format_exc()[-3000:]))
                with os.fdopen(w, 'wb') as f:
                    f.write(b)
                os._exit(0)
            os.close(w)
            live[r] = [pid, case, b'', dl + 60]
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            c = os.read(r, 1 << 16)
            if c:
                live[r][2] += c
                continue
            pid, case, buf, _ = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                res = pickle.loads(buf)
            except Exception:
                res = dict(label=case[0], verdict='unknown', why='the process of the case died')
            results.append(res)
            if log:
                log(res)
            if res['verdict'] == 'violated' and stop_on_violation:
                stopping = True
        now = time.time()
        for r in list(live):
            pid, case, buf, dl = live[r]
            if now > dl or stopping:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                if not stopping:
                    results.append(dict(label=case[0], verdict='unknown', why='time budget of the case exhausted', budget=True))
    return results, [c[0] for c in todo]


def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main(prop, tier):
    import props
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    P = props.PROPS[prop]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage={}, wall_s=0.0, violations=0)
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    if os.path.exists(evp):
        os.remove(evp)
    try:
        ll, so = build.build(P.variant)
    except build.BuildError as e:
        print('the harness does not build:\n%s' % e)
        return 2
    tb = time.time()
    mod = llir.Module(ll)
    native.PRELOAD = so
    cases = P.cases(tier)
    jobs = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
    total = 780 if tier == 'quick' else 6 * 3600
    case_s = 500 if tier == 'quick' else 3600

    def log(r):
        if os.environ.get('VERIF_VERBOSE') or r['verdict'] in ('unknown', 'error'):
            print('%-8s %-30s %6.1fs  %s%s' % (r['verdict'], r['label'], r.get('wall', 0), r.get('why', ''),
                                               ' '.join(r.get('notes', []))), flush=True)
            if r.get('where'):
                print(r['where'])
    sys.stdout.flush()
    results, left = pool(prop, cases, mod, so, jobs, case_s, total - (tb - t0), log=log)
    viol = [r for r in results if r['verdict'] == 'violated']
    unk = [r for r in results if r['verdict'] in ('unknown', 'error')]
    enc, stub, bounds = set(), set(), []
    st = {}
    for r in results:
        enc |= r.get('encoded', set())
        stub |= r.get('stubbed', set())
        for b in r.get('bounds', []):
            if b not in bounds:
                bounds.append(b)
        for k, v in r.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
    held = [r for r in results if r['verdict'] == 'held']
    samples = [dict(case=r['label'], claims=[d[0] for d in r['discharged']], seconds=r['wall'],
                    witnesses=r['witnesses'][:3]) for r in held[:6]]
    cov = dict(cases_not_run=left, states=int(st.get('states', 0)), transitions=int(st.get('insts', 0)),
               traces_validated_against_impl=sum(r.get('validated', 0) for r in results), samples=samples,
               cases=len(cases), cases_held=len(held), cases_unknown=[dict(case=r['label'], why=r.get('why', '')[:500])
                                                                      for r in unk],
               obligations=sum(len(r.get('discharged', [])) for r in results),
               queries=int(st.get('queries', 0)), solver_calls=int(st.get('checks', 0)),
               solver_s=round(st.get('solver_s', 0), 1), refinements=int(st.get('refinements', 0)),
               merges=int(st.get('merges', 0)), functions_encoded=sorted(map(llir.demangle, enc)),
               functions_modelled=sorted(map(llir.demangle, stub)), bounds=bounds,
               nonvacuity=sum(len(r.get('witnesses', [])) for r in results),
               notes=sorted({n for r in results for n in r.get('notes', [])})[:40], build_s=round(tb - t0, 1),
               build_variant=P.variant, solver='z3 %s' % z3.get_version_string())
    ev['coverage'] = cov
    ev['assumptions'] = list(P.assumptions)
    ev['violations'] = len(viol)
    ev['wall_s'] = round(time.time() - t0, 1)
    rc = 0
    known = known_findings(prop)
    fresh = []
    for r in viol:
        v = r['violation']
        k = [k for k in known if k['claim'] == v['claim'] and k['case'] == v['case']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            fresh.append(v)
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        v = fresh[0]
        path = os.path.join(REPLAYS, '%s-%d.json' % (prop, os.getpid()))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s [%s] %s' % (v['claim'], v['case'], v['statement']))
        for o in v['observed']:
            print('  the real code: %s %s' % (o['kind'], o['result']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif (unk or left) and len(held) >= len(unk) + len(left) and all(r.get('budget') for r in unk):
        # only the clock ended these: the bounds explored are those of the cases that were decided
        print('%s held on %d of %d cases; NOT EXPLORED for lack of time: %s' %
              (prop, len(held), len(cases), ', '.join([r['label'] for r in unk] + left)))
    elif unk or left:
        print('no answer: %d cases undecided, %d not run' % (len(unk), len(left)))
        rc = 2
    else:
        print('%s held: %d cases, %d claims, %d witnesses replayed, %.0fs' %
              (prop, len(held), cov['obligations'], cov['traces_validated_against_impl'], ev['wall_s']))
    return rc
