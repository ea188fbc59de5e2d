#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property on /repo's current working tree (REPO overrides it).

 1. bin/gv generates the proof obligations of every contract in contracts/ that
    serves the property, from the current source, and discharges them.
 2. The property's executable oracle (replay/) runs for a short while. It is a
    bounded check: it stands in for what the contracts leave out, and it turns
    a failed obligation into a concrete failing input.
 3. An obligation that fails starts a longer search for a failing input.

Exit 0: every obligation was discharged and nothing failed. Exit 1: a line
VIOLATION property=<id> replay=<path>, ending in no-failing-input-found when
only an obligation failed.
"""
import sys, os, json, subprocess, time, tempfile, shutil, glob, re

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, V + '/tools')
from overlay import overlay

ENV = dict(os.environ)
ENV.update(PATH='/opt/veriftools/go1.27.3/bin:' + os.environ.get('PATH', '/usr/bin:/bin'),
           GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOSUMDB='off')
ENV.setdefault('HOME', '/root')
for k in list(ENV):
    if k.startswith('VR_') or k in ('TRACE', 'trace', 'GVDEBUG', 'GVHINT'):
        del ENV[k]

ORACLE_ONLY_NOTE = 'bounded, not counted as proved'


def newest(dirs):
    return max(os.path.getmtime(f) for d in dirs for f in glob.glob(d))


def build_gv():
    gv = f'{V}/bin/gv'
    if not os.path.exists(gv) or os.path.getmtime(gv) < newest([f'{V}/gv/*.go', f'{V}/gv/go.mod']):
        subprocess.run([f'{V}/tools/build.sh'], check=True, env=ENV)
    return gv


class Oracle:
    """The compiled oracle of one property."""

    def __init__(self, prop, work):
        self.prop, self.work, self.err = prop, work, None
        overlay(V, REPO, work, prop)
        pkg = './examples/lisp-repl' if prop == 'C26' else '.'
        p = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', f'{work}/ov.json', '-o', f'{work}/vr.test', pkg],
                           cwd=REPO, env=ENV, capture_output=True, text=True)
        if p.returncode or not os.path.exists(f'{work}/vr.test'):
            self.err = p.stdout + p.stderr

    def start(self, seed, budget, tag, **extra):
        d = f'{self.work}/{tag}'
        os.makedirs(d, exist_ok=True)
        env = dict(ENV, VR_PROP=self.prop, VR_SEED=str(seed), VR_BUDGET=str(budget), VR_OUT=f'{d}/out.json',
                   VR_STATS=f'{d}/stats.json', GOTRACEBACK='single', **extra)
        log = open(f'{d}/log', 'w')
        p = subprocess.Popen([f'{self.work}/vr.test', '-test.run', '^TestVerifReplay$', '-test.timeout', f'{int(budget) + 120}s'],
                             cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT)
        return p, d, log, budget

    def finish(self, h):
        """-> None when nothing failed, else (message, case file or None)"""
        p, d, log, budget = h
        try:
            rc = p.wait(timeout=budget + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'timeout'
        log.close()
        out = open(f'{d}/log', errors='replace').read()
        if rc == 0:
            return None
        if rc == 1 and os.path.exists(f'{d}/out.json'):
            o = json.load(open(f'{d}/out.json'))
            return o['message'], f'{d}/out.json'
        return f'the program ended abnormally ({rc})\n' + out[:6000], None

    def search(self, seed, budget, tag):
        r = self.finish(self.start(seed, budget, tag))
        if r and r[1] is None:
            # the process died: again with a trace of the case at hand
            t = f'{self.work}/{tag}-trace.json'
            r2 = self.finish(self.start(seed, budget, tag + '-t', VR_TRACE=t))
            if r2 and r2[1]:
                return r2
            if r2 and os.path.exists(t):
                return r2[0], t
        return r

    def stats(self, tag):
        try:
            return json.load(open(f'{self.work}/{tag}/stats.json'))
        except Exception:
            return []


def replay(file):
    o = json.load(open(file))
    if 'case' not in o:
        print(f'{file} holds no input: the obligations named in it failed.')
        return 1
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        orc = Oracle(o['property'], work)
        if orc.err:
            print(orc.err)
            return 2
        return subprocess.run([f'{work}/vr.test', '-test.run', '^TestVerifReplay$'], cwd=work, env=dict(ENV, VR_REPLAY=os.path.abspath(file))).returncode
    finally:
        shutil.rmtree(work)


def known_findings(prop):
    out = []
    for l in open(f'{V}/known-findings.txt'):
        m = re.match(r'finding: property=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            out.append(m.group(2).strip())
    return out


def main():
    prop = sys.argv[1]
    if '--replay' in sys.argv:
        sys.exit(replay(sys.argv[sys.argv.index('--replay') + 1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    man = json.load(open(f'{V}/MANIFEST.json'))
    claim = next((c for c in man['checks'] if c['property'] == prop), {})
    os.makedirs(f'{V}/out', exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    try:
        run(prop, tier, seed, t0, claim, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, t0, claim, work):
    quick = tier != 'thorough'
    gv = build_gv()
    gj = f'{work}/gv.json'
    gvlog = open(f'{work}/gv.log', 'w')
    cmd = [gv, '-repo', REPO, '-specs', f'{V}/contracts', '-prop', prop, '-json', gj, '-again', '3', '-limit', '250' if quick else '900']
    gp = subprocess.Popen(cmd, env=ENV, stdout=gvlog, stderr=subprocess.STDOUT)
    orc = Oracle(prop, work)
    found = None
    if not orc.err:
        if quick:
            found = orc.search(seed, 8, 'a')
        else:
            hs = [(f'a{i}', seed * 1000 + i) for i in range(6)]
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(6) as ex:
                for r in ex.map(lambda h: orc.search(h[1], 240, h[0]), hs):
                    found = found or r
    end = t0 + (640 if quick else 4000)
    while gp.poll() is None:
        # with a failing input at hand the first round of the verifier is enough
        if time.time() > end or (found and os.path.exists(gj)):
            gp.kill()
            gp.wait()
            break
        time.sleep(0.1)
    gvlog.close()
    log = open(f'{work}/gv.log', errors='replace').read()
    targets, res = [], {}
    failed = []          # [(target, obligation, detail)]
    if os.path.exists(gj):
        res = json.load(open(gj))
        targets = res['targets'] or []
        for t in targets:
            if t.get('error'):
                failed.append((t['id'], t['error'], None))
            for f in t.get('failed') or []:
                failed.append((t['id'], f['name'], f))
    else:
        failed.append(('verifier', 'no result: ' + log[-3000:], None))
    if not targets and claim.get('level') == 'proof':
        failed.append(('verifier', 'no contract serves this property', None))
    if failed and not found and not orc.err:
        # look longer for an input
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(7) as ex:
            for r in ex.map(lambda i: orc.search(seed * 1000 + i, 45 if quick else 300, f'b{i}'), range(7)):
                found = found or r
    violation = None
    tag = f'{V}/out/{prop}-{"found" if found else "obligation"}.json'
    obl = [dict(function=a, obligation=b, answer=(d or {}).get('answer'), path=(d or {}).get('path')) for a, b, d in failed[:40]]
    if found:
        msg, case = found
        o = json.load(open(case)) if case else {}
        o.update(property=prop, message=msg, failed_obligations=obl,
                 replay=f'{V}/check.py {prop} --replay {tag}')
        json.dump(o, open(tag, 'w'), indent=1)
        violation = f'VIOLATION property={prop} replay={tag}'
        print('failing input: ' + msg[:3000])
    elif failed:
        o = dict(property=prop, failed_obligations=obl, verifier_output=log[-20000:],
                 scripts=[d.get('script') for _, _, d in failed if d and d.get('script')][:3],
                 command=' '.join(cmd), oracle=orc.err or 'no failing input found')
        json.dump(o, open(tag, 'w'), indent=1)
        violation = f'VIOLATION property={prop} replay={tag} no-failing-input-found'
    for a, b, d in failed[:20]:
        print(f'obligation failed: {a}: {b}' + (f' [{d["answer"]}]' if d else ''))
    if orc.err:
        print('note: the oracle does not compile against this tree:\n' + orc.err[:2000])

    # ------------------------------------------------------------ evidence
    nob = sum(t['obligations'] for t in targets) + sum(1 for t in targets if t.get('error'))
    dis = sum(t['discharged'] for t in targets)
    by = {}
    for t in targets:
        for k, n in (t.get('backends') or {}).items():
            by[k] = by.get(k, 0) + n
    assumed = sorted({a for t in targets for a in t.get('assumed') or []})
    called = sorted({a for t in targets for a in t.get('relied_on') or []})
    ids = {t['id'] for t in targets}
    stats = [s for tg in sorted(os.listdir(work)) for s in orc.stats(tg)] if not orc.err else []
    kinds = {}
    for s in stats:
        k = kinds.setdefault(s['kind'], dict(kind=s['kind'], bounds=s['bounds'], cases=0, skipped=0, label=ORACLE_ONLY_NOTE))
        k['cases'] += s['cases']
        k['skipped'] += s['skipped']
    cov = dict(
        obligations=nob, discharged=dis, checker_cmd=' '.join(cmd[:9]) + ' (bin/gv is built from gv/ by tools/build.sh)',
        trusted_base=['gv: the condition generator in gv/ (go/ssa from golang.org/x/tools, symbolic execution, loop invariant inference checked by the solver)',
                      'z3, cvc5', 'the Go compiler and runtime'] + assumed,
        functions_under_contract=[dict(function=t['id'], contract=t['contract'], obligations=t['obligations'], discharged=t['discharged'],
                                       backends=t.get('backends'), solver_ms=t['solver_ms'], inlined=t.get('inlined') or [],
                                       relied_on=t.get('relied_on') or [], loops=t['loops'], paths=t['paths']) for t in targets],
        discharged_by=by, solver_s=round(res.get('solver_s', 0), 2), solver_queries=res.get('queries', 0),
        contracts_relied_on=called,
        bounded_stand_ins=list(kinds.values()),
        evaluations=sum(k['cases'] for k in kinds.values()),
    )
    if failed:
        cov['undischarged'] = [f'{a}: {b}' for a, b, _ in failed[:40]]
    level = claim.get('level', 'proof')
    if level == 'exploration':
        cov.update(distinct_nontrivial=cov['evaluations'], rule='random cases as described in bounded_stand_ins; skipped cases are not counted', samples=[])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=['machine integers are 64-bit values treated as mathematical integers with lengths bounded by 2^40; allocation always succeeds',
                           'no goroutine other than the caller touches the objects involved'] + assumed,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for k in known_findings(prop):
        print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop}: {dis} of {nob} obligations discharged over {len(targets)} functions ({by}); bounded: '
          + '; '.join(f"{k['kind']} {k['cases']} cases" for k in kinds.values()) + f'; {time.time() - t0:.1f} s')
    if violation:
        print(violation)
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
