"""Bounded exhaustive exploration of the real implementation: case scheduling in isolated processes, counting, replay,
known findings and evidence.  A check module provides PID, cases(tier) -> [json-able dict] and run(case, ctx)."""
import argparse, hashlib, itertools, json, os, pickle, resource, select, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVID = os.environ.get('MC_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAY = os.environ.get('MC_REPLAY', os.path.join(VERIF, 'build', 'replay'))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Machinery(Exception):
    """The check itself cannot give an answer (exit code 2)."""


class Abort(Exception):
    """Stops exploring this case after a recorded violation."""


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Ctx:
    def __init__(self, case, tmp=None):
        self.case, self.tmp = case, tmp
        self.states, self.viols, self.samples, self.outcomes = set(), [], [], {}
        self.transitions = self.traces = self.evals = 0

    def state(self, *obj): self.states.add(digest(obj))
    def trans(self, n=1): self.transitions += n
    def trace(self, n=1): self.traces += n
    def outcome(self, label): self.outcomes[label] = self.outcomes.get(label, 0) + 1
    def sample(self, s):
        if len(self.samples) < 1: self.samples.append(str(s)[:600])

    def viol(self, key, msg, stop=False):
        if len(self.viols) < 40: self.viols.append((str(key), str(msg)[:3000]))
        if stop: raise Abort()

    def require(self, cond, key, msg='', stop=False):
        self.transitions += 1
        if not cond: self.viol(key, msg() if callable(msg) else msg, stop)
        return bool(cond)

    def close(self, a, b, key, msg='', rtol=1e-9, atol=1e-9, stop=False):
        """elementwise agreement of two arrays, same number of elements"""
        import numpy as np
        self.transitions += 1
        a = np.asarray(a, float); b = np.asarray(b, float)
        if a.size != b.size:
            self.viol(key, f'{msg() if callable(msg) else msg}: sizes {a.shape} vs {b.shape}: {a.tolist()} vs {b.tolist()}', stop); return False
        a, b = a.reshape(-1), b.reshape(-1)
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        with np.errstate(all='ignore'):
            d = np.abs(a - b); ok = same | (d <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))
        if not ok.all():
            m = msg() if callable(msg) else msg
            i = int(np.argmax(~ok))
            self.viol(key, f'{m}: entry {i}: got {a[i]!r} expected {b[i]!r}  (got {a.tolist()[:24]} expected {b.tolist()[:24]})', stop); return False
        return True

    def rejects(self, fn, key, msg='', exc=Exception):
        """fn() has to raise"""
        self.transitions += 1
        try: fn()
        except exc: return True
        except BaseException as e:
            self.viol(key, f'{msg}: raised {type(e).__name__} instead: {e}'); return False
        self.viol(key, f'{msg}: accepted silently'); return False

    def accepts(self, fn, key, msg=''):
        self.transitions += 1
        try: return fn()
        except Exception as e:
            self.viol(key, f'{msg}: rejected: {type(e).__name__}: {e}'); return None

    def dump(self):
        return dict(states=self.states, viols=self.viols, samples=self.samples, outcomes=self.outcomes,
                    transitions=self.transitions, traces=self.traces)


# ----------------------------------------------------------------------------------------------- enumeration helpers
def lattice(base, alts, k, valid=None):
    """every assignment differing from base in at most k features (alts: feature -> other values), fewest deviations first"""
    keys = list(alts); seen = set()
    for n in range(k + 1):
        for sub in itertools.combinations(keys, n):
            for vals in itertools.product(*[alts[f] for f in sub]):
                c = dict(base); c.update(zip(sub, vals))
                if valid is not None and not valid(c): continue
                h = digest(sorted(c.items(), key=lambda t: t[0]))
                if h in seen: continue
                seen.add(h); yield c


def product(**kw):
    for v in itertools.product(*kw.values()): yield dict(zip(kw.keys(), v))


def sequences(alphabet, depth):
    for n in range(depth + 1):
        yield from itertools.product(alphabet, repeat=n)


# ----------------------------------------------------------------------------------------------------- process engine
def _run_child(mod, items, wfd, tmp, quiet):
    """executes cases one after another; every record is length-prefixed pickle"""
    def send(o):
        b = pickle.dumps(o); b = len(b).to_bytes(8, 'little') + b
        while b: b = b[os.write(wfd, b):]
    if quiet:
        f = os.open(os.path.join(tmp, 'log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, 1); os.dup2(f, 2); os.close(f)
    os.chdir(tmp)
    for i, case in items:
        send(('start', i, None)); ctx = Ctx(case, tmp)
        try:
            mod.run(case, ctx)
        except Abort: pass
        except Machinery as e: send(('machinery', i, f'{e}')); continue
        except SystemExit as e: ctx.viol('exit', f'SystemExit {e}')
        except MemoryError: send(('machinery', i, 'out of memory')); continue
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.basename(t.filename)}:{t.name}' for t in tb]
            if isinstance(e, KeyboardInterrupt): raise
            ctx.viol('exception', f'{type(e).__name__}: {e}\n' + ''.join(traceback.format_exception(e)[-6:]))
        send(('done', i, ctx.dump()))
        try: sys.stdout.flush(); sys.stderr.flush()
        except Exception: pass
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


class Engine:
    def __init__(self, mod, jobs, timeout, chunk):
        self.mod, self.jobs, self.timeout, self.chunk = mod, jobs, timeout, chunk
        self.scratch = tempfile.mkdtemp(prefix='mc-', dir='/tmp')
        self.procs = {}

    def spawn(self, items):
        tmp = tempfile.mkdtemp(dir=self.scratch)
        r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r); signal.signal(signal.SIGINT, signal.SIG_DFL); os.setpgid(0, 0)
                _run_child(self.mod, items, w, tmp, True)
            except BaseException: traceback.print_exc()
            os._exit(77)
        os.close(w); os.set_blocking(r, False)
        self.procs[r] = dict(pid=pid, items=items, buf=b'', cur=None, t=time.time(), done=0, tmp=tmp)

    def kill(self, p):
        try: os.killpg(p['pid'], signal.SIGKILL)
        except OSError: pass
        try: os.kill(p['pid'], signal.SIGKILL)
        except OSError: pass

    def run(self, cases, on_result, deadline=None, timeout=None):
        """cases: [(index, case)]; calls on_result(index, kind, payload); kind in done|machinery|crash|timeout. returns #skipped"""
        timeout = timeout or self.timeout
        n = max(1, min(self.chunk, -(-len(cases) // (self.jobs * 3))))
        queue = [cases[i:i + n] for i in range(0, len(cases), n)][::-1]
        skipped = 0
        while queue or self.procs:
            if deadline and time.time() > deadline:
                skipped += sum(len(q) for q in queue); queue = []
            while queue and len(self.procs) < self.jobs: self.spawn(queue.pop())
            if not self.procs: break
            rl, _, _ = select.select(list(self.procs), [], [], 0.5)
            for fd in list(self.procs):
                p = self.procs[fd]
                if fd in rl:
                    try: b = os.read(fd, 1 << 20)
                    except BlockingIOError: b = None
                    if b: p['buf'] += b; self._parse(p, on_result)
                    elif b == b'':
                        os.close(fd); del self.procs[fd]; _, st = os.waitpid(p['pid'], 0)
                        self._ended(p, st, queue, on_result)
                        continue
                if time.time() - p['t'] > timeout:
                    self.kill(p); os.close(fd); del self.procs[fd]; os.waitpid(p['pid'], 0)
                    on_result(p['cur'] if p['cur'] is not None else p['items'][p['done']][0], 'timeout', f'no result after {timeout} s')
                    rest = p['items'][p['done'] + 1:]
                    if rest: queue.append(rest)
                    shutil.rmtree(p['tmp'], ignore_errors=True)
        return skipped

    def _parse(self, p, on_result):
        while len(p['buf']) >= 8:
            n = int.from_bytes(p['buf'][:8], 'little')
            if len(p['buf']) < 8 + n: break
            kind, i, o = pickle.loads(p['buf'][8:8 + n]); p['buf'] = p['buf'][8 + n:]
            if kind == 'start': p['cur'] = i; p['t'] = time.time()
            else: p['cur'] = None; p['done'] += 1; on_result(i, kind, o)

    def _ended(self, p, st, queue, on_result):
        if p['done'] < len(p['items']):
            i = p['items'][p['done']][0]
            tail = ''
            try:
                with open(os.path.join(p['tmp'], 'log'), 'rb') as f: tail = f.read()[-2500:].decode(errors='replace')
            except OSError: pass
            how = f'signal {os.WTERMSIG(st)}' if os.WIFSIGNALED(st) else f'exit code {os.WEXITSTATUS(st)}'
            on_result(i, 'crash', f'process ended by {how}; output: {tail}')
            rest = p['items'][p['done'] + 1:]
            if rest: queue.append(rest)
        shutil.rmtree(p['tmp'], ignore_errors=True)

    def close(self):
        for p in self.procs.values(): self.kill(p)
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    """lines: 'known: property=<id> key=<key> <what fails>' (suppresses exactly that key) / 'fixed: property=<id> <commit> <what>'"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            w = l.split(None, 3)
            if len(w) >= 3 and w[0] == 'known:' and w[1] == f'property={pid}' and w[2].startswith('key='):
                out[w[2][4:]] = w[3].strip() if len(w) > 3 else ''
    return out


def main(mod, level='model_checking', timeout=240, chunk=50, jobs=8, assumptions=(), rule='', quick_s=700, thorough_s=780):
    ap = argparse.ArgumentParser(); ap.add_argument('--replay'); ap.add_argument('--tier'); ap.add_argument('--only'); ap.add_argument('--jobs', type=int, default=jobs)
    ap.add_argument('--list', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = mod.PID; t0 = time.time()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        d = json.load(open(a.replay)); cases = [d['case']]
    else:
        cases = list(mod.cases(tier))
    if a.only: cases = [c for c in cases if a.only in json.dumps(c)]
    if a.list:
        for c in cases: print(json.dumps(c))
        print(len(cases), 'cases'); return 0
    if hasattr(mod, 'setup'):
        try: mod.setup(tier)
        except Exception as e:
            traceback.print_exc(); print('MACHINERY ERROR in setup', e); return 2
    eng = Engine(mod, a.jobs, timeout, chunk)
    agg = dict(states=set(), transitions=0, traces=0, outcomes={}, samples=[])
    bad, mach, notrep, first = {}, [], [], {}

    def collect(i, kind, o):
        if kind == 'done':
            agg['states'] |= o['states']; agg['transitions'] += o['transitions']; agg['traces'] += o['traces']
            for k, v in o['outcomes'].items(): agg['outcomes'][k] = agg['outcomes'].get(k, 0) + v
            if len(agg['samples']) < 6 and o['samples']: agg['samples'] += o['samples']
            if o['viols']: first[i] = ('done', o['viols'])
        elif kind == 'machinery': mach.append((i, o))
        else: first[i] = (kind, [(kind, o)])
        if a.v: print(i, kind, json.dumps(cases[i])[:300], o if kind != 'done' else (o['viols'] or 'ok'), flush=True)

    try:
        deadline = t0 + (quick_s if tier == 'quick' else thorough_s)
        skipped = eng.run(list(enumerate(cases)), collect, deadline)
        # replay every failing case alone, in a fresh process, before believing it (representatives of each key first)
        keyed = {}
        for i, (kind, vs) in sorted(first.items()):
            for k, m in vs: keyed.setdefault(k, []).append(i)
        todo = sorted({i for k, l in keyed.items() for i in l[:4]})
        second = {}
        def again(i, kind, o):
            if kind == 'done': second[i] = o['viols']
            elif kind == 'machinery': mach.append((i, o))
            else: second[i] = [(kind, o)]
        if todo:
            sv, eng.chunk = eng.chunk, 1
            eng.run([(i, cases[i]) for i in todo], again, None, timeout=2 * timeout)
            eng.chunk = sv
        for i in todo:
            k2 = {k: m for k, m in second.get(i, [])}
            for k, m in first[i][1]:
                if k in k2: bad.setdefault(k, (i, k2[k]))
                elif k2: [bad.setdefault(kk, (i, mm)) for kk, mm in k2.items()]
                else: notrep.append((i, k, m))
    finally:
        eng.close()
    known = load_known(pid); nviol = 0
    for k, (i, m) in sorted(bad.items(), key=lambda t: t[1][0]):
        if k in known:
            print(f'KNOWN-FINDING: property={pid} {known[k]}'); continue
        nviol += 1
        os.makedirs(REPLAY, exist_ok=True)
        rp = os.path.join(REPLAY, f'{pid}-{digest((k, cases[i]))}.json')
        json.dump(dict(property=pid, key=k, case=cases[i], message=m, command=f'bin/py mc/checks/{pid}.py --replay {rp}'), open(rp, 'w'), indent=1)
        if nviol <= (60 if a.v else 12):
            print(f'VIOLATION property={pid} replay={rp}\n  [{k}] in {len(keyed.get(k, [i]))} case(s), first {json.dumps(cases[i])[:700]}\n  {m[:1500]}')
            if a.v: [print('     also', json.dumps(cases[j])[:300]) for j in keyed.get(k, [])[:40]]
    for i, k, m in notrep[:5]: print(f'note: not reproduced when replayed alone: [{k}] {m[:300]} case {json.dumps(cases[i])[:300]}')
    for i, m in mach[:5]: print(f'MACHINERY ERROR: {m} in case {json.dumps(cases[i])[:300]}')
    cov = dict(cases=len(cases) - skipped, outcomes=dict(sorted(agg['outcomes'].items())[:60]), rule=rule or (mod.__doc__ or '').strip(),
               samples=agg['samples'][:6] or [json.dumps(c)[:600] for c in cases[:2]], exhaustive=(skipped == 0 and not mach),
               skipped_by_time_cap=skipped, not_reproduced=len(notrep))
    if level == 'model_checking':
        cov.update(states=len(agg['states']), transitions=agg['transitions'], traces_validated_against_impl=agg['traces'])
    else:
        cov.update(evaluations=agg['transitions'], distinct_nontrivial=len(agg['states']))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions) or list(getattr(mod, 'ASSUME', [])),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    if not a.replay and not a.only:
        os.makedirs(EVID, exist_ok=True)
        tmpf = os.path.join(EVID, f'.{pid}.tmp'); json.dump(ev, open(tmpf, 'w'), indent=1); os.replace(tmpf, os.path.join(EVID, f'{pid}.json'))
    print(f'{pid} {tier}: {len(cases) - skipped} cases, {len(agg["states"])} states, {agg["transitions"]} transitions, {agg["traces"]} traces, '
          f'{nviol} violation(s), {skipped} skipped, {time.time() - t0:.1f} s')
    return 1 if nviol else (2 if mach else 0)
