#!/usr/bin/env python3
"""Runs the model checker for one property: tools/check.py <PROPERTY> [quick|thorough]

Builds the checked code from /repo's working tree, hands the scenarios to one worker per core, writes
evidence/<PROPERTY>.json. Exit 0: held on everything explored; 1: VIOLATION; anything else: error."""
import hashlib, json, os, queue, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()

# what each property runs, per tier: (engine, build profile, stride[, whose list of scenarios])
PLAN = {
    'C01': {'quick': [('seq', 'dev', 1)], 'thorough': [('seq', 'dev', 1), ('seq', 'rel', 1)]},
    'C02': {'quick': [('seq', 'dev', 1)], 'thorough': [('seq', 'dev', 1), ('seq', 'rel', 1)]},
    'C03': {'quick': [('seq', 'dev', 1)], 'thorough': [('seq', 'dev', 1), ('seq', 'rel', 1)]},
    'C04': {'quick': [('seq', 'dev', 1)], 'thorough': [('seq', 'dev', 1), ('seq', 'rel', 1)]},
    'C05': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1)]},
    'C06': {'quick': [('conc', 'dev', 1), ('conc', 'o0', 7)]},
    'C07': {'quick': [('conc', 'dev', 1), ('conc', 'o0', 7)]},
    'C08': {'quick': [('conc', 'dev', 1), ('conc', 'o0', 2)]},
    'C09': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1), ('conc', 'o0', 8)]},
    'C10': {'quick': [('seq', 'dev', 1), ('real', 'release', 1), ('conc', 'dev', 1)]},
    'C11': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1)]},
    'C12': {'quick': [('seq', 'dev', 1)], 'thorough': [('seq', 'dev', 1), ('seq', 'rel', 1)]},
    'C13': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1)]},
    'C14': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1), ('conc', 'o0', 9)]},
    'C15': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1)]},
    'C16': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1), ('conc', 'o0', 5)]},
    'C17': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1)]},
    'C18': {'quick': [('seq', 'dev', 1), ('conc', 'dev', 1)]},
}
for p in PLAN.values():
    if 'thorough' not in p:
        seq = [x for x in p['quick'] if x[0] == 'seq']
        p['thorough'] = [x for x in p['quick'] if x[0] == 'real'] + seq + [('seq', 'rel', 1) for _ in seq] + [('conc', 'dev', 1), ('conc', 'rel', 4), ('conc', 'o0', 4)]
# a part of the wide lists (the scenarios of the thorough tier, within the bounds of the quick one), the same part every time
for p, k in dict(C05=4, C06=150, C07=120, C08=160, C10=120, C11=100, C13=120, C15=60, C17=24, C18=200).items():
    PLAN[p]['quick'] = PLAN[p]['quick'] + [('conc', 'dev', k, 'wide')]
BUDGET = {'quick': 780, 'thorough': 840}

ASSUME = [
    'The checked code is the working tree of /repo compiled by the nightly compiler with the instrumentation of '
    '-Zsanitizer=thread, linked to mc/rt; the compiler is trusted.',
    'Sequential consistency, but for the programs with reads of overwritten values: there a read may return what its thread '
    'is not yet ordered after seeing replaced (release/acquire as in C11, plain accesses as relaxed atomics).',
    'crossbeam-epoch is replaced by mc/epoch, which runs a deferred closure as soon as the contract of the real one allows '
    '(but not in the part over the real collector).',
    'Threads are fibers of one OS thread, each with its own copy of the thread-locals of the code under test.',
]


def die(msg, code=2):
    print('ERROR: ' + msg, flush=True)
    sys.exit(code)


def build(eng, profile):
    env = dict(os.environ, RUSTC_WRAPPER=VERIF + '/mc/wrap.sh', CARGO_TARGET_DIR=VERIF + '/mc/target', CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    env.pop('RUSTC', None)
    if eng == 'real':
        # no model of anything: the tree over the real collector
        del env['RUSTC_WRAPPER']
        env.update(RUSTFLAGS='--cfg congee_verif -Awarnings', CARGO_TARGET_DIR=VERIF + '/mc/target/real')
    cmd = ['cargo', '+nightly', 'build', '--offline', '--locked', '--profile', profile]
    r = subprocess.run(cmd, cwd=VERIF + ('/mc/real' if eng == 'real' else '/mc/harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die('the checked code does not build:\n' + r.stdout[-6000:])
    if eng == 'real':
        return VERIF + '/mc/target/real/release/real'
    return VERIF + '/mc/target/' + ('debug' if profile == 'dev' else profile) + '/mc'


def known(prop):
    out = []
    try:
        for l in open(VERIF + '/known-findings.txt'):
            l = l.strip()
            if l.startswith('known: property=' + prop + ' '):
                d = dict(x.split('=', 1) for x in l[len('known: '):].split(' :: ')[0].split(' | '))
                d['what'] = l.split(' :: ', 1)[1] if ' :: ' in l else l
                out.append(d)
    except FileNotFoundError:
        pass
    return out


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.known = known(prop)
        self.known_hit = set()
        self.violation = None
        self.error = None
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.parts = []

    def part(self, eng, profile, stride, tier, deadline):
        b = build(eng, profile)
        # the unoptimised build is there for repeated reads: plain interleavings only
        n = int(subprocess.check_output([b, 'base' if (eng, profile) == ('conc', 'o0') else 'count', eng, self.prop, tier]))
        # a fixed selection that does not fall in step with how the scenarios are listed
        idx = [i for i in range(n) if (i * 0x9E3779B1 >> 15) % stride == 0]
        # neighbours resemble each other: visit the list in strides, so that a cut leaves no hole
        k = 97
        order = [i for j in range(k) for i in idx[j::k]]
        q = queue.Queue()
        for i in order:
            q.put(i)
        res = {}
        t0 = time.time()
        procs = []

        def worker():
            p = None
            try:
                while not self.stop.is_set() and time.time() < deadline:
                    try:
                        i = q.get_nowait()
                    except queue.Empty:
                        break
                    if p is None:
                        p = subprocess.Popen([b, 'worker', eng, self.prop, tier], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.PIPE, text=True, bufsize=1)
                        with self.lock:
                            procs.append(p)
                    try:
                        p.stdin.write(f'{i}\n')
                        p.stdin.flush()
                        l = p.stdout.readline()
                    except (BrokenPipeError, ValueError):
                        l = ''
                    if l.startswith('D\t'):
                        with self.lock:
                            res[i] = l.rstrip('\n').split('\t')
                        continue
                    if self.stop.is_set():
                        break
                    if l.startswith('V\t'):
                        _, kind, msg, scen, sched = (l.rstrip('\n').split('\t') + [''] * 5)[:5]
                        with self.lock:
                            m = [x for x in self.known if x.get('kind') == kind and x.get('scenario') == scen]
                            if m:
                                self.known_hit.add(m[0]['what'])
                            elif self.violation is None:
                                self.violation = dict(kind=kind, message=msg, scenario=scen, schedule=sched, engine=eng, profile=profile,
                                                      tier=tier, property=self.prop, index=i)
                        if not m:
                            self.stop.set()
                    else:
                        err = ''
                        try:
                            p.wait(5)
                            err = p.stderr.read()[-2000:]
                        except Exception:
                            pass
                        # ended from here when the time was up: not an error
                        if not self.stop.is_set() and time.time() < deadline + 5:
                            with self.lock:
                                if self.error is None:
                                    self.error = f'worker for {eng} {i}: {l.strip()} {err} (exit {p.returncode})'
                            self.stop.set()
                    p.kill()
                    p.wait()
                    p = None
            finally:
                if p is not None:
                    p.kill()
                    p.wait()

        ts = [threading.Thread(target=worker) for _ in range(os.cpu_count() or 8)]
        for t in ts:
            t.start()
        while any(t.is_alive() for t in ts):
            for t in ts:
                t.join(0.1)
            if self.stop.is_set() or time.time() > deadline + 5:
                self.stop_procs(procs)
        names = {}
        if res:
            pick = sorted(res)
            pick = [pick[int(j * (len(pick) - 1) / 5)] for j in range(6)]
            want = set(pick)
            for l in subprocess.check_output([b, 'list', eng, self.prop, tier], text=True).splitlines():
                i, t = l.split('\t', 1)
                if int(i) in want:
                    names[int(i)] = t
        self.parts.append(dict(engine=eng, profile=profile, tier=tier, stride=stride, scenarios=len(idx), done=len(res), res=res, names=names, secs=time.time() - t0))

    def stop_procs(self, procs):
        with self.lock:
            for p in procs:
                if p.poll() is None:
                    p.kill()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if prop not in PLAN:
        die('no such property')
    budget = float(os.environ.get('MC_BUDGET', BUDGET[tier]))
    run = Run(prop, tier)
    plan = PLAN[prop][tier]
    for j, (eng, profile, stride, *of) in enumerate(plan):
        left = T0 + budget - time.time()
        # what an early part does not use goes to the later ones
        share = left / (len(plan) - j) if tier == 'thorough' else left
        run.part(eng, profile, stride, *(of or [tier]), time.time() + share)
        if run.stop.is_set():
            break
    if run.error and not run.violation:
        die(run.error, 3)

    S = lambda eng, k, f=int: sum(f(r[k]) for p in run.parts if p['engine'] == eng for r in p['res'].values())
    conc = any(p['engine'] == 'conc' for p in run.parts)
    cov = dict(
        states=S('conc', 5) + S('seq', 2) + S('real', 2),
        transitions=S('conc', 4) + S('seq', 3) + S('real', 3),
        traces_validated_against_impl=S('conc', 2) + S('seq', 4) + S('real', 4),
        exhaustive=all(p['done'] == p['scenarios'] for p in run.parts) and all(r[10] != '9' for p in run.parts if p['engine'] == 'conc' for r in p['res'].values()),
        explanation='The explorer executes the implementation itself, so every explored execution is a trace of the implementation; '
        'each is compared with the reference map. states: scheduling states plus sequential states compared; transitions: shared-memory '
        'accesses plus sequential operations; traces_validated_against_impl: complete executions. exhaustive: everything within the bounds (operations per program, and the preemption bounds listed) was explored.',
    )
    if any(p['engine'] == 'seq' for p in run.parts):
        cov['sequential'] = dict(units=sum(p['done'] for p in run.parts if p['engine'] == 'seq'), states=S('seq', 2), operations=S('seq', 3),
                                 maximal_sequences=S('seq', 4), injected_faults=S('seq', 5), scans=S('seq', 6))
    if any(p['engine'] == 'real' for p in run.parts):
        cov['real_collector'] = dict(units=sum(p['done'] for p in run.parts if p['engine'] == 'real'), histories=S('real', 4), operations=S('real', 3))
    if conc:
        b = {}
        for p in run.parts:
            if p['engine'] == 'conc':
                for r in p['res'].values():
                    b[r[10]] = b.get(r[10], 0) + 1
        cov['concurrent'] = dict(
            scenarios=sum(p['done'] for p in run.parts if p['engine'] == 'conc'), schedules=S('conc', 2), schedules_cut_as_redundant=S('conc', 3),
            accesses=S('conc', 4), distinct_histories=S('conc', 6), distinct_outcomes=S('conc', 7), deferred_frees_run=S('conc', 8),
            waiting_loops_suspended=S('conc', 9), scenarios_with_all_interleavings=b.get('0', 0),
            scenarios_with_all_interleavings_up_to_preemptions={k: v for k, v in sorted(b.items()) if k in '1234567'}, scenarios_cut_short=b.get('9', 0),
            scenarios_with_all_bursts_of_operations=b.get('8', 0),
            scenarios_with_all_reads_of_overwritten_values={f'{int(k) // 10 % 10} preemptions, {int(k) % 10} such reads': v for k, v in sorted(b.items()) if len(k) == 3})
    cov['parts'] = [dict(engine=p['engine'], build=p['profile'], list=p['tier'], one_in=p['stride'], scenarios=p['scenarios'], completed=p['done'], seconds=round(p['secs'], 1)) for p in run.parts]
    samples = []
    for p in run.parts:
        for i, nme in sorted(p['names'].items()):
            r = p['res'][i]
            if p['engine'] == 'conc':
                samples.append(dict(scenario=nme, build=p['profile'], schedules=int(r[2]), accesses=int(r[4]), outcomes=int(r[7])))
            else:
                samples.append(dict(scenario=nme, build=p['profile'], states=int(r[2]), operations=int(r[3])))
    cov['samples'] = samples
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', coverage=cov, assumptions=ASSUME,
              wall_s=round(time.time() - T0, 2), violations=1 if run.violation else 0)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in sorted(run.known_hit):
        print(f'KNOWN-FINDING: property={prop} {k}')
    if run.violation:
        v = run.violation
        os.makedirs(VERIF + '/replays', exist_ok=True)
        h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = f'{VERIF}/replays/{prop}-{h}.json'
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
            f.write('\n')
        print(f"{v['kind']}: {v['message']}\n  in: {v['scenario']}\n  replay with: tools/replay.py {path}")
        print(f'VIOLATION property={prop} replay={path}', flush=True)
        sys.exit(1)
    print(f"{prop} {tier}: held; {cov['traces_validated_against_impl']} executions, {cov['transitions']} transitions, {ev['wall_s']} s")


main()
