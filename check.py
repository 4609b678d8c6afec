#!/usr/bin/env python3
"""Driver of one property check:  check.py <PID>
 1. TLC explores the specification's own models for the property (exhaustive or simulated);
    the models also emit the behaviours that are replayed below (spec -> code);
 2. a recorder runs the real library from /repo and logs ndjson events (code -> spec);
 3. TLC validates every trace against spec/Trace.tla; total verdicts, failing clauses named;
 4. known findings are matched, evidence/<PID>.json is rewritten, exit code 0/1.
"""
import sys, os, json, time, subprocess, shutil, tempfile, re, signal, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
SPEC = os.path.join(HERE, 'spec')
PY = '/opt/venv/bin/python'
TLCJAR = '/opt/veriftools/tla'
from registry import REGISTRY

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


class Broken(Exception):
    """The machinery itself failed: neither verdict."""


def tlc(module, cfg, workdir, env=None, workers=1, heap='3g', timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix='meta', dir=workdir)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss32m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=4 -Djava.io.tmpdir=%s' % (heap, workdir)
    e.update(env or {})
    cmd = ['tlc', '-workers', str(workers), '-metadir', meta, '-nowarning', '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    out = os.path.join(workdir, 'tlc-%s.out' % os.path.basename(meta))
    t = time.time()
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
    txt = open(out, errors='replace').read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', txt)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return dict(rc=rc, out=txt, generated=gen, distinct=dist, wall=time.time() - t)


def run_trace(path, workdir, budget):
    """Validate one trace file; returns (bad list of {line, clause}, states, error text or None)"""
    nlines = sum(1 for _ in open(path))
    if nlines == 0:
        return [], 0, None
    r = tlc('Trace.tla', 'Trace.cfg', workdir, env=dict(TRACE=path), timeout=budget)
    m = re.search(r'<<"VERDICT", "(.*)">>', r['out'])
    if m and r['rc'] == 0:
        return json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')), r['distinct'], None
    at = re.findall(r'<<"AT", (\d+)>>', r['out'])
    if r['rc'] == -9 or 'OutOfMemory' in r['out'] or 'StackOverflow' in r['out'] or not at:
        return None, r['distinct'], 'TLC gave no verdict (rc=%s)\n%s' % (r['rc'], r['out'][-2500:])
    # the specification cannot even evaluate the event: it is not a behaviour of the specification
    err = r['out'][r['out'].find('Error:'):][:400]
    return [dict(line=int(at[-1]), clause='Unevaluable', note=err)], r['distinct'], None


def main():
    pid = sys.argv[1]
    reg = REGISTRY[pid]
    t0 = time.time()
    evid = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    replaydir = os.path.join(evid, 'replay', pid)
    shutil.rmtree(replaydir, ignore_errors=True)
    os.makedirs(replaydir)
    work = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        code = body(pid, reg, t0, evid, replaydir, work)
    except Broken as e:
        print('CHECK-BROKEN %s: %s' % (pid, e))
        code = 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def body(pid, reg, t0, evid, replaydir, work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(work, 'mpl'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', VERIF_SEED=str(SEED), VERIF_TIER=TIER, HOME=work,
               VERIF_WORK=work, VERIF_SHARDS=str(reg.get('shards', 8)))
    os.makedirs(env['MPLCONFIGDIR'])
    states = transitions = 0
    samples, models = [], []
    violations = []      # (event, clause, note)

    # 1. models (spec side)
    jobs = [m for m in reg.get('models', []) if TIER in m.get('tiers', ('quick', 'thorough'))]
    gen = os.path.join(work, 'gen')
    os.makedirs(gen)

    def model(m):
        return m, tlc(m['module'], m.get('cfg', m['module'].replace('.tla', '.cfg')), work,
                      env=dict(GENDIR=gen, TIER=TIER, SEED=str(SEED), **m.get('env', {})),
                      workers=m.get('workers', 1), timeout=m.get('timeout', 600), heap=m.get('heap', '3g'),
                      extra=m.get('extra', ()))
    with ThreadPoolExecutor(4) as ex:
        for m, r in ex.map(model, jobs):
            if r['rc'] != 0:
                raise Broken('model %s: rc=%s\n%s' % (m['module'], r['rc'], r['out'][-3000:]))
            states += r['distinct']
            transitions += r['generated']
            progs = sorted(set(json.loads(x) for x in re.findall(r'^<<"PROG", (".*")>>$', r['out'], re.M)))
            if progs:
                with open(os.path.join(gen, 'prog-%s.ndjson' % m.get('cfg', m['module']).replace('.cfg', '')), 'w') as f:
                    f.write('\n'.join(progs) + '\n')
            models.append(dict(module=m['module'], cfg=m.get('cfg', ''), distinct=r['distinct'], generated=r['generated'], wall_s=round(r['wall'], 1)))

    # 2. record
    tdir = os.path.join(work, 'traces')
    os.makedirs(tdir)
    env['VERIF_GEN'] = gen
    p = subprocess.Popen([PY, os.path.join(HERE, 'harness', reg['recorder'])] + [tdir, pid], cwd=work, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=reg.get('record_timeout', 500))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = 'timeout'
    out = out.decode(errors='replace')
    summary = {}
    if os.path.exists(os.path.join(tdir, 'summary.json')):
        summary = json.load(open(os.path.join(tdir, 'summary.json')))
    if rc != 0 or not summary:
        if os.path.join(HERE, 'harness') in out.split('File ')[-1] and 'MemoryError' not in out and rc != 'timeout':
            raise Broken('recorder failed rc=%s\n%s' % (rc, out[-3000:]))
        # the code under test took the recorder down or never returned
        violations.append((dict(case='<recorder>', op='recorder', rc=str(rc), tail=out[-1500:]), 'NoAnswer', ''))
    t_rec = time.time() - t0

    # 3. validate
    files = sorted(os.path.join(tdir, f) for f in os.listdir(tdir) if f.endswith('.ndjson'))
    files = [f for f in files if os.path.getsize(f)]
    budget = max(60, (reg.get('budget', 850) if TIER == 'quick' else reg.get('budget_thorough', 6 * 3600)) - (time.time() - t0))
    n_traces = n_events = 0
    opcount = {}
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda f: (f, run_trace(f, work, budget)), files))
    for f, (bad, st, err) in results:
        lines = open(f).read().splitlines()
        evs = [json.loads(x) for x in lines]
        if err:
            raise Broken(err)
        states += st
        transitions += max(0, st - 1)
        n_events += len(evs)
        for e in evs:
            opcount[e['op']] = opcount.get(e['op'], 0) + 1
        rejected = {evs[b['line'] - 1].get('case') for b in bad}
        n_traces += len({e.get('case') for e in evs} - rejected) + len(rejected)
        for b in bad:
            violations.append((evs[b['line'] - 1], b['clause'], b.get('note', '')))
        for e in evs:
            if e['op'] not in ('case',) and len(samples) < 4 and len(json.dumps(e)) < 700 and all(s['op'] != e['op'] for s in samples):
                samples.append(e)

    # 4. known findings
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]
    fresh, seen = [], {}
    for ev, clause, note in violations:
        k = next((k for k in known if k['case'] == ev.get('case') and k['clause'] == clause and k.get('op', ev.get('op')) == ev.get('op')), None)
        if k:
            seen[k['id']] = k
        else:
            fresh.append((ev, clause, note))
    for k in seen.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    cases = {}
    for ev, clause, note in fresh:
        cases.setdefault((ev.get('case'), clause), (ev, note))
    from collections import Counter
    if cases:
        print('failing clauses: ' + ', '.join('%s/%s x%d' % (o, c, k) for (o, c), k in
              sorted(Counter((ev.get('op'), clause) for (case, clause), (ev, note) in cases.items()).items())))
    for i, ((case, clause), (ev, note)) in enumerate(list(cases.items())[:25]):
        path = os.path.join(replaydir, '%03d.json' % i)
        json.dump(dict(property=pid, clause=clause, case=case, event=ev, note=note,
                       how='rerun: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s' % (SEED, TIER, pid)), open(path, 'w'), indent=1)
        brief = {k: v for k, v in ev.items() if len(json.dumps(v)) < 160}
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   clause=%s case=%s %s' % (clause, case, json.dumps(brief)[:400]))
    minimum = reg.get('min_events', 1)
    if not fresh and n_events < minimum:
        raise Broken('vacuous run: %d events < %d' % (n_events, minimum))
    ev = dict(property=pid, tier=TIER, seed=SEED, level='model_checking',
              coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=n_traces,
                            samples=samples or [dict(note='all events longer than the sample limit')], events=n_events, events_by_operation=opcount,
                            models=models, exhaustive=False,
                            rule=reg.get('rule', '')),
              assumptions=reg.get('assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=len(cases))
    json.dump(ev, open(os.path.join(evid, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d states, %d transitions, %d traces, %d events, %d violations, record %.0fs, wall %.0fs' % (
        pid, TIER, states, transitions, n_traces, n_events, len(cases), t_rec, time.time() - t0))
    return 1 if fresh else 0


if __name__ == '__main__':
    main()
