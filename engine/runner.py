"""bin/check PROPERTY [quick|thorough]: decide one property on /repo's current tree."""
import os, sys, json, time, shutil, subprocess, collections, re, random, tempfile, atexit, hashlib, signal
from . import build, harness, props, term as tm, rt
HERE = build.HERE

def log(*a): print(*a, flush=True)

class Run:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.cfg = props.CFG[prop]
        self.t0 = time.time()
        self.work = os.path.join(HERE, 'build', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        atexit.register(self.cleanup, os.getpid())
        self.native = {}
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        random.seed(self.seed)
    def cleanup(self, pid):
        if os.getpid() == pid and not os.environ.get('VERIF_KEEP'): shutil.rmtree(self.work, ignore_errors=True)
    def sel(self, n):
        if n.startswith('+'): return self.tier == 'thorough' and n[1:].startswith(self.prop + '.')
        return n.startswith(self.prop + '.')
    def native_exe(self, hw):
        if hw: return self.exe
        if 'sw' not in self.native:
            w = self.work + '/sw'
            os.makedirs(w)
            objs = build.stubs_native(w + '/obj', False, (), build.fakes(self.cfg['harness']))
            build.ml_lib(w)
            self.native['sw'] = build.harness(w, self.cfg['harness'], objs)
        return self.native['sw']
    def run_native(self, exe, scenario, tape, alt=False, timeout=120):
        p = os.path.join(self.work, 'tape')
        with open(p, 'w') as f: f.write('\n'.join(tape) + '\n')
        env = dict(build.ENV); env['SYM_TAPE'] = p; env['SYM_SCENARIO'] = scenario
        if alt: env['SYM_ALT'] = '1'
        try:
            r = subprocess.run([exe], env=env, capture_output=True, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired: return 'SYM-HANG', -1
        return r.stdout.decode('latin1'), r.returncode
    def confirm(self, rec):
        """replay a refuted obligation; returns (confirmed, how, transcript)"""
        if rec.get('tape') is None: return False, 'no tape', ''
        tape = rec['tape']; sc = rec['scenario']; kind = rec.get('kind')
        exe = self.native_exe(rec.get('hw', 1))
        if kind != 'indep' and any(t.startswith('asm|') for t in tape):   # results of CPU instructions cannot be injected natively
            ok, tr = self.concrete(rec)
            return ok, 'concrete execution of the IR and bytecode', tr
        out, rc = self.run_native(exe, sc, tape)
        if kind == 'indep':
            out2, rc2 = self.run_native(exe, sc, tape, alt=True)
            d1 = [l for l in out.splitlines() if l.startswith('SYM-DUMP %s ' % rec['ob'])]
            d2 = [l for l in out2.splitlines() if l.startswith('SYM-DUMP %s ' % rec['ob'])]
            if d1 and d2 and d1 != d2:
                return True, 'native (two runs with different secrets leave different memory)', d1[0][:400] + '\n' + d2[0][:400]
            ok, tr = self.concrete(rec)
            return ok, 'concrete execution of the IR and bytecode', tr
        if kind == 'fail':
            if any(l.startswith('SYM-FAIL ' + rec['ob']) for l in out.splitlines()): return True, 'native', out[-2000:]
            return False, 'native run does not fail', out[-2000:]
        if kind == 'exn':
            if any(l.startswith('SYM-EXN') for l in out.splitlines()): return True, 'native', out[-2000:]
            return False, 'native run raises nothing', out[-2000:]
        if rc < 0: return True, 'native run killed by signal %d' % -rc, out[-2000:]
        if kind == 'abort': return False, 'native run does not abort', out[-2000:]
        ok, tr = self.concrete(rec)
        return ok, 'concrete execution of the IR and bytecode', tr
    def concrete(self, rec):
        """re-run the scenario in the engine on the concrete counterexample"""
        res = os.path.join(self.work, 'concrete.jsonl')
        f = dict(self.m.scenarios).get(rec['scenario'])
        pid = os.fork()
        if pid == 0:
            try:
                r, w = os.pipe(); os.set_blocking(r, False)
                rt.C.jobs = (r, w)
                harness.replay_mode(self.m, rec['tape'], rec.get('kind') == 'indep')
                rt.explore1(lambda: self.m.run_one(rec['scenario'], f), res, time.time() + 120)
            finally: os._exit(0)
        os.waitpid(pid, 0)
        for line in open(res):
            d = json.loads(line)
            if d.get('r') == 'refuted' and (d.get('kind') == rec.get('kind') and d['ob'] == rec['ob']): return True, d.get('msg', '')
        return False, open(res).read()[-500:]

    def main(self):
        cfg = self.cfg
        try:
            self.exe, irs = build.build(self.work, cfg['harness'])
        except build.BuildError as e:
            log('BUILD FAILED'); log(str(e)[-3000:])
            return 2
        self.m = harness.Machine(self.exe, irs)
        harness.KNOWN[:] = [(re.compile(k['scenario']), re.compile(k['obligation'])) for k in json.load(open(HERE + '/known_findings.json'))['findings']
                            if k['property'] == self.prop and k['status'] == 'known']
        if cfg.get('setup'): cfg['setup'](self.m)
        q = self.tier == 'quick'
        # the rewriter is part of the trusted base: z3 compares random terms with their normal forms on every run
        self.rwn = 60 if q else 600
        vo = open(self.work + '/rw', 'w')
        vp = subprocess.Popen([sys.executable, '-m', 'engine.selftest_terms', str(self.seed), str(self.rwn)], stdout=vo, stderr=vo, cwd=HERE)
        res = harness.run_scenarios(self.m, self.work + '/res', self.sel, 8,
                                    per=cfg.get('per', 150) * (1 if q else 5), total=cfg.get('total', 420) * (1 if q else 8),
                                    obtimeout=cfg.get('obtimeout', 20) * 1000 * (1 if q else 5))
        extra = cfg['extra'](self) if cfg.get('extra') else []
        for _ in range(3000):
            rw = open(self.work + '/rw').read()
            if 'bad ' in rw or 'Error' in rw: break
            time.sleep(0.1)
        self.rwbad = not rw.endswith('bad 0\n')
        if self.rwbad: log('REWRITER VALIDATION FAILED'); return 3
        return self.report(res, extra)

    def report(self, res, extra):
        cnt = collections.Counter(); by = collections.Counter(); stats = collections.Counter()
        undecided = []; refuted = collections.OrderedDict(); vac = []; reach = collections.Counter()
        for sc, recs in res.items():
            okends = 0; obs = 0
            for x in recs:
                if 'ob' in x:
                    obs += 1
                    cnt[x['r']] += 1
                    if x['r'] == 'proved': by[x['by']] += 1
                    elif x['r'] == 'unknown': undecided.append('%s: %s (%s)' % (sc, x['ob'], x['by']))
                    else:
                        x['scenario'] = sc
                        refuted.setdefault((sc, x['ob']), []).append(x)
                elif 'end' in x:
                    cnt['end:' + x['end']] += 1
                    if x['end'] == 'ok': okends += 1
                    elif x['end'] in ('timeout', 'unsupported', 'internal'): undecided.append('%s: path not finished (%s %s)' % (sc, x['end'], x.get('msg', '')))
                elif 'stats' in x:
                    for k, v in x['stats'].items(): stats[k] += v
                elif 'reach' in x: reach[x['reach']] += 1
            if not okends and not any(x.get('r') == 'refuted' for x in recs): vac.append(sc)
            elif not obs: vac.append(sc + ' (no obligation)')
        for x in extra:
            cnt[x['r']] += 1
            if x['r'] == 'proved': by[x['by']] += 1
            elif x['r'] == 'unknown': undecided.append('%s: %s (%s)' % (x.get('scenario'), x['ob'], x['by']))
            else: refuted.setdefault((x['scenario'], x['ob']), []).append(x)
        kf = json.load(open(HERE + '/known_findings.json'))['findings']
        viol = []; known = []; unconf = []
        nrep = 0
        for (sc, ob), xs in refuted.items():
            done = False; last = None
            known_hit = None
            for k in kf:
                if k['status'] == 'known' and k['property'] == self.prop and re.fullmatch(k['scenario'], sc) and re.fullmatch(k['obligation'], ob):
                    known_hit = k
            if known_hit and known_hit in known: continue
            if time.time() - self.t0 > 800: unconf.append((sc, ob, 'no time left to replay')); continue
            if len(viol) >= 8: break
            for x in xs[:3]:
                nrep += 1
                if 'confirmed' in x: ok, how, tr = x['confirmed']
                else: ok, how, tr = self.confirm(x)
                if ok:
                    done = True
                    if known_hit: known.append(known_hit); break
                    viol.append((x, how, tr)); break
                last = (sc, ob, how, tr)
            if not done and last: unconf.append(last)
        rdir = os.path.join(HERE, 'replay')
        for k in known:
            log('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        for i, (x, how, tr) in enumerate(viol):
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1((x['scenario'] + x['ob']).encode()).hexdigest()[:8]
            path = os.path.join(rdir, '%s-%s.json' % (self.prop, h))
            json.dump({'property': self.prop, 'tier': self.tier, 'scenario': x['scenario'], 'obligation': x['ob'], 'message': x.get('msg', ''),
                       'kind': x.get('kind'), 'hw': x.get('hw', 1), 'confirmed_by': how, 'transcript': tr, 'tape': x.get('tape')}, open(path, 'w'), indent=1)
            log('counterexample: %s: %s %s' % (x['scenario'], x['ob'], x.get('msg', '')))
            log('  confirmed by %s: %s' % (how, tr.strip()[:300]))
            log('VIOLATION property=%s replay=%s' % (self.prop, path))
        for u in undecided[:20]: log('UNDECIDED', u[:600])
        for u in unconf: log('UNCONFIRMED', str(u)[:900])
        for v in vac: log('VACUOUS', v)
        paths = sum(v for k, v in cnt.items() if k.startswith('end:') and k != 'end:dropped')
        fn = sorted(f for m in self.m.E.modules.values() for f in getattr(m, 'called', set()))
        # functions actually entered are collected per process: report the ones the scenarios use
        cov = {'obligations': cnt['proved'] + cnt['refuted'] + cnt['unknown'], 'discharged': cnt['proved'],
               'checker_cmd': 'bin/check %s %s' % (self.prop, self.tier),
               'trusted_base': props.TRUSTED,
               'explanation': cfg_text(self.cfg),
               'scenarios': len(res), 'paths': paths, 'discharged_by': dict(by),
               'solver_queries': stats['queries'], 'solver_sat': stats['sat'], 'solver_unsat': stats['unsat'], 'solver_unknown': stats['unknown'],
               'solver_time_s': round(stats['time'], 2), 'sweep_merges': stats['sweep'], 'branches': stats['branches'],
               'functions_encoded': self.cfg.get('functions', []), 'bounds': self.cfg.get('bounds', ''),
               'outside': self.cfg.get('outside', ''),
               'undecided': undecided[:100], 'unconfirmed': [str(u)[:500] for u in unconf], 'vacuous': vac,
               'rewriter_validation_queries': self.rwn, 'replays_run': nrep, 'reached': dict(reach),
               'samples': list(res)[:5]}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.cfg.get('level', 'other'), 'coverage': cov,
              'assumptions': props.ASSUME + self.cfg.get('assumptions', []), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(ev, open(HERE + '/evidence/%s.json' % self.prop, 'w'), indent=1)
        log('%s %s: %d scenarios, %d paths, %d obligations, %d proved %s, %d undecided, %d known, %d violations, %d queries %.1fs solver, %.1fs' % (
            self.prop, self.tier, len(res), paths, cov['obligations'], cnt['proved'], dict(by), len(undecided) + len(unconf), len(known), len(viol),
            stats['queries'], stats['time'], time.time() - self.t0))
        return 1 if viol else 0

def cfg_text(c): return c.get('explanation', '')

def replay(path):
    d = json.load(open(path))
    r = Run(d['property'], d.get('tier', 'quick'))
    if d.get('tape') is None and r.cfg.get('replay'): return r.cfg['replay'](r, d)
    r.exe, irs = build.build(r.work, r.cfg['harness'])
    r.m = harness.Machine(r.exe, irs)
    if r.cfg.get('setup'): r.cfg['setup'](r.m)
    ok, how, tr = r.confirm(dict(ob=d['obligation'], scenario=d['scenario'], tape=d['tape'], kind=d['kind'], hw=d['hw']))
    log(tr); log('REPRODUCED' if ok else 'NOT REPRODUCED', how)
    return 1 if ok else 0

def main():
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rc = Run(sys.argv[1], tier).main()
    sys.stdout.flush()
    sys.exit(rc)
if __name__ == '__main__': main()
