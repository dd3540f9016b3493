"""Runs the jobs of one property in parallel, writes evidence, reports violations."""
import json, multiprocessing as mp, os, signal, subprocess, sys, time
import build, props, jobs, unit, smt, step
from specs.machine import MACHINES

WORKERS = int(os.environ.get('DV_WORKERS', '8'))
PROOF_S = {'quick': 520, 'thorough': 700}
SEARCH_S = {'quick': 100, 'thorough': 130}

TRUSTED = [
    'clang 18 -O0 front end (C++ to LLVM IR) and its debug information for member offsets; the IR is what is verified, the native build may use another compiler',
    'the symbolic executor, term normaliser and loop-invariant checker in /verif/dv (sym.py, term.py, fold.py, sweep.py)',
    'z3 (python binding) as SMT back end; cvc5 where z3 answers unknown and, in the thorough tier, as a second opinion on every query',
    'the specifications in /verif/dv/specs, transcribed from the published standards and compared with known-answer vectors and with Python hashlib/hmac by tools/selftest.py',
]


def _init(deadline, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(200000)
    import resource
    import threading
    threading.stack_size(512 * 1024 * 1024)
    smt.SECOND[0] = tier == 'thorough'


def _run(a):
    job, deadline = a
    import threading
    box = []
    th = threading.Thread(target=lambda: box.append(jobs.run_job(job, deadline)))
    th.start()
    th.join()
    return box[0] if box else dict(name=job[0], ok=False, units=[jobs.failed(job[0], 'worker stopped')], wall=0)


def _load(a):
    """phase 1: compile a module, describe its code"""
    if a[0] == 'obj':
        jobs.preload(a[1])
        return a, None
    hdr, cls, mcn, cfg = a
    try:
        if mcn is None:
            return a, None
        mc = MACHINES[mcn]
        m = build.hasher(mc, cfg)
        return a, (build.closure(m, 'h_update'), build.closure(m, 'h_updatec'))
    except Exception as e:
        return a, None


WEIGHT = {'update': 20, 'ce_mem': 30, 'step': 6, 'same_step': 8, 'result': 4, 'same_result': 6}


def weight(job):
    kind, kw = job[1][0]
    w = WEIGHT.get(kind, getattr(props, 'WEIGHT', {}).get(kind, 1))
    if kind == 'update':
        w = 40 if 'long' in kw['case'] else 5
        if MACHINES[kw['mcn']].w == 64:
            w *= 2
    return -w


def dedupe(js, info):
    """jobs whose code is identical (same normalised IR) are run once"""
    seen, out, dup = {}, [], {}
    for j in js:
        kind, kw = j[1][0]
        key = None
        if kind in ('update', 'step', 'same_step') and len(j[1]) == 1:
            mc = MACHINES[kw['mcn']]
            c = info.get((kw['mcn'], kw['cfg']))
            if kind == 'same_step' and c:
                c0 = info.get((kw['mcn'], 'std17'))
                c = c and c0 and (c, c0)
            if c:
                key = (kind, c, mc.N, mc.w, mc.k, mc.kind, mc.step.__name__, tuple(sorted((a, b) for a, b in kw.items() if a not in ('mcn',))))
        if key is not None and key in seen:
            dup.setdefault(seen[key], []).append(j[0])
            continue
        if key is not None:
            seen[key] = j[0]
        out.append(j)
    return out, dup


def run_jobs(js, deadline, tier):
    res = []
    ctx = mp.get_context('fork')
    pool = ctx.Pool(WORKERS, _init, (deadline, tier), maxtasksperchild=40)
    try:
        need = sorted(set((MACHINES[kw['mcn']].hdr, MACHINES[kw['mcn']].cls, kw['mcn'], c) for j in js for k, kw in j[1] if kw.get('mcn') for c in set([kw['cfg'], 'std17'])))
        info = {}
        obj = set(jobs.preload_key(k, kw) for j in js for k, kw in j[1]) - {None}
        need += [('obj', k) for k in sorted(obj)]
        for a, r in pool.imap_unordered(_load, need):
            if r:
                info[(a[2], a[3])] = r
        js2, dup = dedupe(js, info)
        js2.sort(key=weight)
        left = {j[0] for j in js2}
        it = pool.imap_unordered(_run, [(j, deadline) for j in js2], chunksize=1)
        for _ in js2:
            try:
                r = it.next(timeout=max(1, deadline + 90 - time.time()))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            left.discard(r['name'])
            r['same_code'] = dup.get(r['name'], [])
            res.append(r)
            if os.environ.get('DV_TRACE'):
                print('  %-50s %s %.1fs' % (r['name'], 'ok' if r['ok'] else 'FAIL', r['wall']), flush=True)
                if not r['ok']:
                    for u in r['units']:
                        for f in u['failures'][:3]:
                            print('      ', u['unit'], '|', f['obligation'], '|', f['how'], f['status'][:300], '|', str(f.get('model'))[:300], flush=True)
        for n in left:
            res.append(dict(name=n, ok=False, units=[jobs.failed(n, 'time limit')], wall=0, same_code=[]))
    finally:
        pool.terminate()
        pool.join()
    return res


def known(here):
    """known findings: {pid: [entry]}"""
    out = {}
    p = os.path.join(here, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if d.get('kind') == 'known':
                    out.setdefault(d['property'], []).append(d)
    return out


def base(n):
    """a demangled name without template arguments and parameter list"""
    out, d = '', 0
    i = 0
    n = n.replace('operator<<', 'operator@1').replace('operator<', 'operator@2').replace('operator->', 'operator@3').replace('operator()', 'operator@4').replace('(anonymous namespace)', '@5')
    for c in n:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            if c == '(':
                break
            out += c
    for a, b in (('@1', '<<'), ('@2', '<'), ('@3', '->'), ('@4', '()'), ('@5', '(anonymous namespace)')):
        out = out.replace(a, b)
    out = out.strip()
    return out.split(' ')[-1] if 'operator ' not in out else out


def collapse(names):
    """function names with the number of instances (overloads, template instances)"""
    r = {}
    for n in names:
        b = base(n)
        r[b] = r.get(b, 0) + 1
    return ['%s (%d instances)' % (k, v) if v > 1 else k for k, v in sorted(r.items())]


def check(pid, tier, seed, t0, here):
    js = props.PROPS[pid](tier)
    deadline = t0 + PROOF_S[tier]
    res = run_jobs(js, deadline, tier)
    tot = dict(obligations=0, discharged=0)
    by, kinds, under, contr, smt_t, smt_q, cvc5, loops, assumed = {}, {}, {}, {}, 0.0, 0, 0, 0, set()
    fails = []
    for r in res:
        for u in r['units']:
            tot['obligations'] += u['obligations']
            tot['discharged'] += u['discharged']
            for k, v in u['by'].items():
                by[k] = by.get(k, 0) + v
            for k, v in u['kinds'].items():
                kinds[k] = kinds.get(k, 0) + v
            for k, v in u['called'].items():
                under[k] = under.get(k, 0) + v
            for k, v in u['contracted'].items():
                contr[k] = contr.get(k, 0) + v
            s = u.get('smt') or {}
            smt_t += s.get('time', 0)
            smt_q += s.get('smt', 0)
            cvc5 += s.get('cvc5', 0)
            loops += len(u['loops'])
            assumed |= set(u.get('assumed') or [])
            if u['nfail']:
                fails.append((r, u))
    units = [dict(job=r['name'], ok=r['ok'], obligations=sum(u['obligations'] for u in r['units']), discharged=sum(u['discharged'] for u in r['units']), wall_s=round(r['wall'], 2), same_code=r.get('same_code') or []) for r in sorted(res, key=lambda r: r['name'])]
    realfns = collapse(k for k in under if 'boost::hash2' in k)
    ev = dict(property=pid, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=tot['obligations'], discharged=tot['discharged'], checker_cmd='python3-vt check.py %s --tier %s' % (pid, tier), trusted_base=TRUSTED,
                            discharged_by=by, obligation_kinds=kinds, functions_under_contract=realfns, callees_taken_by_contract=collapse(contr),
                            loops_by_invariant=loops, smt_queries=smt_q, solver_time_s=round(smt_t, 2), cvc5_queries=cvc5, units=units, extra=getattr(props, 'EXTRA', {}).get(pid, '')),
              assumptions=props.ASSUME.get(pid, []) + sorted(assumed), violations=0, wall_s=0)
    rc = 0
    kf = known(here).get(pid, [])
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if fails or not res:
        rc = 1
        ev['violations'] = 1
        found = None
        try:
            import search
            found = search.search(pid, fails, SEARCH_S[tier], seed, t0)
        except Exception as e:
            import traceback
            found = None
            print('search: ' + traceback.format_exc(), file=sys.stderr)
        rep = os.path.join(here, 'evidence', 'replay-%s.json' % pid)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        d = dict(property=pid, tier=tier, failing_input=found,
                 failed_obligations=[dict(unit=u['unit'], failures=u['failures'][:4]) for r, u in fails[:40]])
        with open(rep, 'w') as f:
            json.dump(d, f, indent=1, default=str)
        for r, u in fails[:6]:
            for x in u['failures'][:2]:
                print('failed obligation: %s | %s | %s %s' % (u['unit'], x['obligation'], x['how'], str(x['status'])[:200]))
        if found:
            print('failing input on the real code: %s' % str(found.get('deviation'))[:400])
        print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if found else ' no-failing-input-found'))
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d units, %.1f s' % (pid, tot['obligations'], tot['discharged'], sum(len(r['units']) for r in res), time.time() - t0))
    return rc
