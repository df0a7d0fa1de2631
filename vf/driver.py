"""Runs the contracts of one property: symbolic execution, discharge, replay,
native search, evidence."""
import json
import multiprocessing as mp
import os
import random
import resource
import subprocess
import sys
import threading
import time
import traceback

from . import build, engine, smt
from . import terms as tm
from .registry import PROPS, LEVEL, ASSUME

VERIF = build.VERIF
threading.stack_size(512 << 20)
NCPU = min(8, os.cpu_count() or 8)


def in_big_thread(fn):
    box = []

    def go():
        try:
            box.append(('ok', fn()))
        except BaseException as e:   # noqa
            box.append(('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return box[0]


def model_inputs(inputs, model):
    out = []
    seen = set()
    for n, k, v in inputs:
        if n in seen:
            continue
        if k in ('real',):
            if v.n is not tm.FALSE and smt.model_value(model, v.n):
                out.append((n, 'nan'))
            else:
                x = smt.model_value(model, v.r)
                if x is None:
                    continue
                out.append((n, float(x).hex()))
        elif k in ('int', 'bool'):
            x = smt.model_value(model, v)
            if x is None:
                continue
            out.append((n, str(int(x))))
        elif k in ('realarray', 'intarray'):
            for i in range(64):
                e = v.select(tm.ic(i))
                if k == 'realarray':
                    if e.n is not tm.FALSE and smt.model_value(model, e.n):
                        out.append(('%s[%d]' % (n, i), 'nan'))
                    else:
                        out.append(('%s[%d]' % (n, i), float(smt.model_value(model, e.r) or 0).hex()))
                else:
                    out.append(('%s[%d]' % (n, i), str(int(smt.model_value(model, e) or 0))))
        seen.add(n)
    return out


def prove_one(e, o, timeout):
    t = time.time()
    st, by, model = smt.prove(o.pc, o.goal, timeout, o.close)
    ins = model_inputs(e.inputs, model) if model is not None else None
    return st, by, ins, time.time() - t


def run_job(module, job, tok, conn):
    """child process: execute one harness, discharge its obligations"""
    res = dict(name=job.name, error=None, obls=[], covers=[], t_exec=0.0)

    def work():
        e = engine.Engine(module, job.opts)
        for tgt, stub in job.contracts.items():
            hits = [f.name for f in module.funcs.values() if f.dem.startswith(tgt)] + \
                [n for n, d in module.decls.items() if d.startswith(tgt)]
            for h in hits:
                e.contracts[h] = stub
        t0 = time.time()
        e.deadline = t0 + job.exec_s
        tok.acquire()
        try:
            outs = e.run('vh_' + job.name)
        finally:
            tok.release()
            res['t_exec'] = time.time() - t0
            res['stack'] = [f.dem[:160] for f, _ in e.stack][-4:]
        nret = 0
        for k, v, s in outs:
            if k == 'ret':
                nret += 1
                continue
            ti = v[1]
            nm = e.obj_name(ti.o) if isinstance(ti, engine.P) else '?'
            e.obls.append(engine.Obl('no exception (%s) escapes' % nm, job.name, list(s.pc), tm.FALSE, None, 'assert'))
        res['paths'] = len(outs)
        res['entered'] = sorted(set(module.funcs[f].dem for f in e.entered if '/repo/' in (module.funcs[f].file or '') or 'fes::' in module.funcs[f].dem.split('(')[0]))
        dem = lambda n: module.funcs[n].dem if n in module.funcs else module.decls.get(n, n)
        res['externals'] = sorted(set(dem(n) for n in e.natives_used if not n.startswith('vf_')))
        res['contracts'] = sorted('%s (contract %s)' % (dem(n)[:160], e.contracts[n]) for n in e.used_contracts)
        res['covers'] = e.covers
        res['undef_reads'] = e.undef_reads
        res['loops'] = getattr(e, 'loop_log', [])
        todo = [o for o in e.obls if o.status is None]
        # identical obligations are proved once
        seen = {}
        uniq = []
        for o in todo:
            key = (o.name, tuple(c.id for c in o.pc), o.goal.id)
            if key in seen:
                seen[key].append(o)
            else:
                seen[key] = [o]
                uniq.append((key, o))
        n = min(NCPU, len(uniq))
        if n:
            qs = []
            for w in range(n):
                r, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    try:
                        out = []
                        for i in range(w, len(uniq), n):
                            tok.acquire()
                            try:
                                if time.time() > job.deadline:
                                    st = ('unknown', 'time budget', None, 0.0)
                                else:
                                    st = prove_one(e, uniq[i][1], job.prove_s)
                            except Exception as ex:
                                st = ('unknown', 'error: %r' % (ex,), None, 0.0)
                            finally:
                                tok.release()
                            out.append((i,) + st)
                        with os.fdopen(wr, 'w') as f:
                            json.dump(out, f)
                        os._exit(0)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(1)
                os.close(wr)
                qs.append((pid, r))
            for pid, r in qs:
                with os.fdopen(r) as f:
                    data = f.read()
                os.waitpid(pid, 0)
                try:
                    rows = json.loads(data)
                except ValueError:
                    rows = []
                for i, st, by, ins, dt in rows:
                    for o in seen[uniq[i][0]]:
                        o.status, o.by, o.inputs, o.time = st, by, ins, dt
                        dt = 0.0
        for o in e.obls:
            if o.status is None:
                o.status, o.by = 'unknown', 'no answer'
            res['obls'].append((o.name, o.where, o.kind, o.status, o.by, o.time, o.inputs if o.status == 'refuted' else None))
    st, info = in_big_thread(work)
    if st == 'err':
        res['error'] = info
    conn.send(res)
    conn.close()


def run_search(exe, name, seed, secs, runs, out):
    try:
        p = subprocess.run([exe, 'search', name, str(seed), str(secs), str(runs), out], capture_output=True, text=True, timeout=secs * 2 + 60)
    except subprocess.TimeoutExpired:
        return 0, 'timeout'
    return p.returncode, p.stdout.strip()


def replay(exe, name, path, out=None):
    cmd = [exe, 'replay', name, path] + ([out] if out else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return 0, 'timeout'
    return p.returncode, p.stdout.strip()


def write_replay(path, name, prop, obl, ins, note):
    with open(path, 'w') as f:
        f.write('# property %s harness %s\n# obligation: %s [%s] in %s\n# %s\n' % (prop, name, obl[0], obl[2], obl[1], note))
        f.write('# replay: %s\n' % ('python3-vt check.py --replay %s %s' % (prop, path)))
        for k, v in ins or ():
            f.write('%s = %s\n' % (k, v))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                # harness NAME: property=ID text
                h, rest = l.split(':', 1)
                out.append((h.split()[-1], rest.strip()))
    return out


def main(prop, argv=()):
    t_start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = PROPS[prop]
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or j.tier == 'quick']
    only = os.environ.get('VF_ONLY')
    if only:
        jobs = [j for j in jobs if j.name in only.split(',')]
    budget = 780 if tier == 'quick' else 3000
    budget = float(os.environ.get('VF_BUDGET', budget))
    deadline = t_start + budget
    js, exe = build.build(spec['files'], asan=spec.get('asan', False))
    t_build = time.time() - t_start
    module = engine.Module(js)
    tok = mp.Semaphore(NCPU)
    ctx = mp.get_context('fork')
    procs = []
    results = {}
    # symbolic jobs
    pend = [j for j in jobs if not j.native_only]
    for j in pend:
        if tier == 'thorough':
            j.prove_s *= 4
            j.exec_s *= 4
        j.deadline = deadline - 120
        j.exec_s = min(j.exec_s, max(10, deadline - 150 - time.time()))
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=run_job, args=(module, j, tok, b))
        p.start()
        b.close()
        procs.append((j, p, a))
    for j, p, a in procs:
        left = max(1, deadline - 60 - time.time())
        try:
            if a.poll(left):
                results[j.name] = a.recv()
            else:
                results[j.name] = dict(name=j.name, error='time budget of the check exhausted', obls=[], covers=[], t_exec=left)
        except EOFError:
            results[j.name] = dict(name=j.name, error='verifier process ended (memory?)', obls=[], covers=[], t_exec=0)
        if p.is_alive():
            p.join(1)
            if p.is_alive():
                p.kill()
    known = dict()
    for h, txt in load_known():
        known.setdefault(h, txt)
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    violations = []
    notes = []
    known_lines = []
    obligations = discharged = 0
    by = {}
    solver = 0.0
    bounded = []
    samples = []
    entered = set()
    externals = set()
    contracts = set()
    evals = 0
    incomplete = []
    unreproduced = []
    import glob
    for j in jobs:
        if j.native_only:
            continue
        r = results[j.name]
        entered.update(r.get('entered', ()))
        externals.update(r.get('externals', ()))
        contracts.update(r.get('contracts', ()))
        if r['error']:
            incomplete.append((j, r['error'].strip().split('\n')[-1][:300]))
            if os.environ.get('VF_DEBUG'):
                print(j.name, r['error'], r.get('stack'))
        for c, ok in r['covers']:
            pass
        if not r['error']:
            cov = {}
            for c, ok in r['covers']:
                cov[c] = cov.get(c, False) or ok
            bad = [c for c, ok in cov.items() if not ok]
            if bad or not r['obls']:
                incomplete.append((j, 'vacuous: ' + (', '.join(bad) or 'no obligation generated')))
        nb = 0
        for o in r['obls']:
            if j.finding:
                continue
            obligations += 1
            if o[3] == 'proved':
                discharged += 1
                by[o[4]] = by.get(o[4], 0) + 1
                if j.bounded:
                    nb += 1
            solver += o[5]
        if j.bounded:
            bounded.append('%s: %s (%d obligations)' % (j.name, j.bounded, nb))
        if r['obls'] and len(samples) < 12:
            o = r['obls'][-1]
            samples.append('%s: "%s" in %s: %s by %s' % (j.name, o[0], o[1], o[3], o[4]))
        ref = [o for o in r['obls'] if o[3] == 'refuted']
        unk = [o for o in r['obls'] if o[3] == 'unknown']
        if unk:
            incomplete.append((j, '%d obligations undecided, e.g. "%s" in %s (%s)' % (len(unk), unk[0][0], unk[0][1], unk[0][4])))
        if os.environ.get('VF_DEBUG'):
            for o in unk + ref:
                print('  ', j.name, o[3], o[0], 'in', o[1], o[4], o[6][:20] if o[6] else '')
        hit = None
        for n, o in enumerate(ref[:6]):
            path = os.path.join(rdir, '%s-%s-%d.txt' % (prop, j.name, n))
            write_replay(path, j.name, prop, o, o[6], 'verifier counterexample (%s)' % o[4])
            rc, txt = replay(exe, j.name, path)
            if rc == 1:
                hit = (path, o, txt)
                break
        if ref and not hit:
            path = os.path.join(rdir, '%s-%s-search.txt' % (prop, j.name))
            rc, txt = run_search(exe, j.name, seed, min(20, max(2, deadline - 30 - time.time())), 10 ** 7, path)
            if rc == 1:
                hit = (path, ref[0], txt)
            else:
                unreproduced.append((j, ref))
        if hit:
            if j.finding:
                known_lines.append(j)
            else:
                violations.append((j, hit[0], '%s [%s] in %s: %s' % (hit[1][0], hit[1][2], hit[1][1], hit[2]), True))
    found = set(j.name for j, _, _, _ in violations)
    for j, ref in unreproduced:
        if j.finding:
            continue
        path = os.path.join(rdir, '%s-%s-failed-obligations.txt' % (prop, j.name))
        with open(path, 'w') as f:
            f.write('# property %s harness %s: obligations the verifier refutes; no failing input reproduced natively\n' % (prop, j.name))
            for o in ref:
                f.write('obligation "%s" [%s] in %s: refuted by %s\n' % (o[0], o[2], o[1], o[4]))
                for k, v in (o[6] or ())[:200]:
                    f.write('    %s = %s\n' % (k, v))
        violations.append((j, path, ref[0][0], False))
    # native cross-check, and bounded stand-in for what was not decided
    weak = set(j.name for j, _ in incomplete)
    left = max(5.0, deadline - 20 - time.time())
    todo = [j for j in jobs if j.name not in found]
    nw = len([j for j in todo if j.name in weak or j.native_only])
    from concurrent.futures import ThreadPoolExecutor

    def native(j):
        secs = j.search_s
        if j.name in weak or j.native_only:
            secs = max(secs, min(60.0 if tier == 'quick' else 300.0, left * NCPU / (nw + 1) / 2))
        if tier == 'thorough':
            secs *= 5
        secs = min(secs, left)
        path = os.path.join(rdir, '%s-%s-native.txt' % (prop, j.name))
        return j, path, run_search(exe, j.name, seed, secs, 10 ** 8, path)
    with ThreadPoolExecutor(NCPU) as ex:
        for j, path, (rc, txt) in ex.map(native, todo):
            if rc == 1:
                if j.finding:
                    if j not in known_lines:
                        known_lines.append(j)
                else:
                    violations.insert(0, (j, path, 'native run: ' + txt, True))
            elif rc == 0 and 'runs=' in txt:
                evals += int(txt.split('runs=')[1].split()[0])
            else:
                notes.append('native run of %s: %s %s' % (j.name, rc, txt))
    for j in known_lines:
        if j.name in known:
            print('KNOWN-FINDING: %s' % known[j.name])
        else:
            violations.append((j, os.path.join(rdir, '%s-%s-native.txt' % (prop, j.name)), 'unlisted finding', True))
    for j, why in incomplete:
        print('UNDECIDED %s: %s (native search stands in, bounded)' % (j.name, why))
    full = not incomplete and not bounded and not violations
    level = spec.get('level', 'proof')
    if incomplete or (bounded and all(j.bounded or j.finding or j.native_only for j in jobs)):
        level = 'other' if not (obligations and discharged == obligations) else level
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'proof') if not incomplete else 'other',
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd='python3-vt check.py %s' % prop,
                  trusted_base=LEVEL['trusted'] + sorted('external model: ' + x[:120] for x in externals) + sorted('assumed contract: ' + c for c in contracts),
                  functions_under_contract=sorted(entered), discharged_by=by, solver_seconds=round(solver, 2),
                  bounded=bounded, undecided=['%s: %s' % (j.name, w) for j, w in incomplete],
                  harnesses=[j.name for j in jobs], samples=samples, evaluations=evals, distinct_nontrivial=evals,
                  rule='native cross-check runs of the same contracts on the real code (random inputs from VERIF_SEED, preconditions hold)',
                  known_findings=[known.get(j.name, j.name) for j in known_lines],
                  explanation='%d of %d proof obligations discharged (%s); %s' % (discharged, obligations, ', '.join('%s %d' % kv for kv in sorted(by.items())), ('bounded parts: ' + '; '.join(bounded)) if bounded else 'no bound on inputs beyond the stated preconditions')),
              assumptions=ASSUME + spec.get('assumptions', []), wall_s=round(time.time() - t_start, 2), violations=len(violations))
    if notes:
        ev['coverage']['notes'] = notes
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged, %d native runs, build %.0fs, total %.0fs' % (prop, discharged, obligations, evals, t_build, time.time() - t_start))
    for j, r in sorted(results.items()):
        print('  %-28s paths %s exec %.1fs obligations %d' % (j, r.get('paths'), r['t_exec'], len(r['obls'])))
    if violations:
        violations.sort(key=lambda v: not v[3])
        for j, path, txt, real in violations[:8]:
            print('  failed in %s: %s' % (j.name, txt))
        j, path, txt, real = violations[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if real else ' no-failing-input-found'))
        return 1
    return 0
