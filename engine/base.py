"""Framework shared by the checks: budget, workers, replay, evidence, known findings."""
import os, sys, time, json, signal, subprocess, random, traceback
import sx, pool, build

VERIF = build.VERIF
NPROC = max(2, min(8, os.cpu_count() or 2))


class Native:
    """pipe to the replay program"""
    def __init__(self, path, san=False):
        env = dict(os.environ, ASAN_OPTIONS='detect_odr_violation=0:abort_on_error=0:detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0',
                   LC_ALL='C')
        self.path = path
        self.env = env
        self.p = None

    def ask(self, line, timeout=20):
        """answer line, or ('crash', text)"""
        try:
            r = subprocess.run([self.path], input=(line + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=self.env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return ('crash', 'no answer within %d s' % timeout)
        out = r.stdout.decode('latin-1').strip()
        if r.returncode != 0 or not out:
            return ('crash', 'exit status %d: %s' % (r.returncode, r.stderr.decode('latin-1', 'replace')[:600]))
        return out

    def many(self, lines, timeout=120):
        r = subprocess.run([self.path], input=('\n'.join(lines) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=self.env, timeout=timeout)
        out = r.stdout.decode('latin-1').split('\n')[:-1]
        if r.returncode or len(out) != len(lines):
            return None
        return out


class Check:
    """One property.  Subclasses define
        tus            translation units of /verif/harness to encode
        tasks(tier, rng) -> list of picklable task descriptions
        run_task(E, t)  explores symbolically; obligations via E.prove
        replay_cmds(v, task) -> list of driver command lines for a violation record
        judge(cmds, answers, task) -> None when fine, else text describing what is broken (native run)
    """
    id = None
    level = 'model_checking'
    tus = ()
    optional = ()           # units whose tasks are left out when they do not compile against the tree
    deadline = {'quick': 420, 'thorough': 3600}
    task_limit = {'quick': 100, 'thorough': 600}
    query_timeout = {'quick': 15000, 'thorough': 60000}
    bounds = ''
    window_note = ''
    outside = ''
    assumptions = []

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(seed * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(self.id)))
        self.engines = {}

    # -- in workers
    def engine(self, tu):
        E = self.engines.get(tu)
        if E is None:
            E = self.engines[tu] = sx.Engine(self.mods[tu], self.query_timeout[self.tier])
            self.setup_engine(E)
        E.reset()
        E.stats = dict((k, 0) for k in E.stats)
        E.encoded = set()
        return E

    def setup_engine(self, E):
        pass

    def worker(self, task):
        t = time.time()
        self.cover = {}
        self.samples = []
        E = self.engine(self.tu_of(task))
        err = None
        # what is known near the limit of the task is still reported
        signal.signal(signal.SIGALRM, self.alarm)
        signal.setitimer(signal.ITIMER_REAL, self.task_limit[self.tier] * 0.85, 3)
        try:
            self.run_task(E, task)
        except (sx.Unsupported, sx.Inconclusive, sx.Enough) as e:
            err = '%s: %s' % (type(e).__name__, e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return {'violations': E.violations, 'inconclusive': E.inconclusive, 'stats': dict(E.stats), 'cover': self.cover,
                'encoded': sorted(E.encoded), 'error': err, 'wall': time.time() - t, 'samples': self.samples[:1]}

    def alarm(self, *a):
        raise sx.Enough('time limit of the task')

    def tu_of(self, task):
        return self.tus[0]

    def hit(self, what, n=1):
        self.cover[what] = self.cover.get(what, 0) + n

    def extra_confirm(self, task, rec):
        return None

    # -- validation of the translator: concrete runs of the encoding against the native program
    def validation(self, rng):
        """list of (command line, function giving the encoding's answer)"""
        return []

    # -- in the parent
    def main(self):
        t0 = time.time()
        B = build.Builder()
        self.B = B
        try:
            self.mods = dict((tu, B.module(tu)) for tu in self.tus)
            missing = set()
            for tu in self.optional:
                try:
                    self.mods[tu] = B.module(tu)
                except build.BuildError:
                    missing.add(tu)
            drv = Native(B.driver())
        except build.BuildError as e:
            # the harness does not compile against this tree: nothing was explored
            self.evidence(t0, {}, note='harness does not build: ' + str(e)[:1500])
            print('check %s: INCONCLUSIVE (harness does not build against this tree)' % self.id)
            print(str(e)[:1500])
            return 0
        san = None
        known = self.known_findings()
        self.tot = {'tasks': 0, 'task_errors': [], 'inconclusive': [], 'stats': {}, 'cover': {}, 'encoded': set(), 'samples': [],
                    'unreproduced': [], 'validated': 0, 'mismatch': [], 'cpu': 0.0, 'slow': []}
        tot = self.tot
        found = []
        knownhit = {}

        def confirm(task, rec):
            nonlocal san
            """native replay; returns description or None"""
            try:
                cmds = self.replay_cmds(rec, task)
            except Exception:
                tot['unreproduced'].append({'task': repr(task)[:200], 'msg': 'replay commands: ' + traceback.format_exc()[-400:]})
                return None
            if not cmds:
                return None
            ans = [drv.ask(c) for c in cmds]
            bad = None if '?' in ans else self.judge(cmds, ans, task)
            if bad is None:
                if san is None:
                    san = Native(B.driver(True))
                ans = [san.ask(c) for c in cmds]
                bad = None if '?' in ans else self.judge(cmds, ans, task)
            if bad is None:
                return self.extra_confirm(task, rec)
            return {'cmds': cmds, 'answers': ans, 'what': bad}

        def on_result(task, r, err):
            tot['tasks'] += 1
            if r is None:
                tot['task_errors'].append({'task': repr(task)[:200], 'error': err[-500:]})
                return False
            if r['error']:
                tot['task_errors'].append({'task': repr(task)[:200], 'error': r['error']})
            for k, v in r['stats'].items():
                tot['stats'][k] = tot['stats'].get(k, 0) + v
            for k, v in r['cover'].items():
                tot['cover'][k] = tot['cover'].get(k, 0) + v
            tot['encoded'].update(r['encoded'])
            tot['cpu'] += r['wall']
            tot['slow'].append((round(r['wall'], 2), repr(task)[:200]))
            if len(tot['samples']) < 6:
                tot['samples'].extend(r['samples'])
            tried = 0
            for rec in r['violations']:
                if tried >= 12:
                    break
                tried += 1
                c = confirm(task, rec)
                if c is None:
                    tot['unreproduced'].append({'task': repr(task)[:200], 'kind': rec['kind'], 'msg': rec['msg'], 'inputs': rec['inputs']})
                    continue
                if self.take(c, rec, task, known, knownhit, found):
                    return True
            for rec in r['inconclusive']:
                if rec.get('candidate') and all(v is not None for v in rec['candidate'].values()) and tried < 24:
                    tried += 1
                    c = confirm(task, {'kind': rec['kind'], 'msg': rec['msg'], 'inputs': rec['candidate'], 'info': rec['info']})
                    if c is not None and self.take(c, rec, task, known, knownhit, found):
                        return True
                tot['inconclusive'].append({'task': repr(task)[:200], 'kind': rec['kind'], 'msg': rec['msg'], 'why': rec['why']})
            return False

        tasks = self.tasks(self.tier, self.rng)
        if missing:
            tasks = [t for t in tasks if self.tu_of(t) not in missing]
        self.ntasks = len(tasks)
        undone = pool.run(tasks, self.worker, NPROC, t0 + self.deadline[self.tier], on_result, self.task_limit[self.tier])
        self.undone = undone
        # translator validation
        if not found:
            try:
                self.validate(drv)
            except Exception as e:
                tot['mismatch'].append('validation failed: %s: %s' % (type(e).__name__, str(e)[:300]))
        self.evidence(t0, tot, found=found, undone=undone, ntasks=len(tasks))
        for k in sorted(knownhit):
            print('KNOWN-FINDING: property=%s %s' % (self.id, knownhit[k]))
        s = tot['stats']
        print('check %s %s: %d/%d tasks, %d paths, %d queries (%.1f s in the solver), %d obligations, %d undecided, %d not reproduced, %.1f s' % (
            self.id, self.tier, tot['tasks'] - len(tot['task_errors']), len(tasks), s.get('paths', 0), s.get('queries', 0), s.get('solver_s', 0),
            s.get('obligations', 0), len(tot['inconclusive']) + len(tot['task_errors']) + len(undone), len(tot['unreproduced']), time.time() - t0))
        for x in (tot['task_errors'][:2] + tot['inconclusive'][:2] + tot['unreproduced'][:2] + tot['mismatch'][:2]):
            print('  note: ' + str(x)[:400])
        if found:
            path = self.write_replay(found[0])
            print('  ' + found[0]['what'])
            print('VIOLATION property=%s replay=%s' % (self.id, path))
            return 1
        return 0

    def take(self, c, rec, task, known, knownhit, found):
        for key, text in known:
            if key in c['cmds']:
                knownhit[key] = text
                return False
        c['symbolic'] = {'kind': rec['kind'], 'msg': rec['msg'], 'task': repr(task)}
        found.append(c)
        return True

    def known_findings(self):
        out = []
        try:
            with open(os.path.join(VERIF, 'known_findings.txt')) as f:
                for l in f:
                    if l.startswith('known: property=%s ' % self.id):
                        # known: property=ID input=<driver command> -- text
                        r = l.split(' input=', 1)[1]
                        cmd, text = r.split(' -- ', 1)
                        out.append((cmd.strip(), text.strip()))
        except OSError:
            pass
        return out

    def write_replay(self, c):
        d = os.path.join(VERIF, 'out')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.replay' % self.id)
        with open(path, 'w') as f:
            f.write('property: %s\nwhat: %s\nfound by: %s\n' % (self.id, c['what'], json.dumps(c['symbolic'])))
            f.write('replay: build /verif/harness/driver.cpp with the harness files (engine/build.py) and feed it these lines:\n')
            for a, b in zip(c['cmds'], c['answers']):
                f.write('  input : %s\n  answer: %s\n' % (a, b))
        return path

    def validate(self, drv):
        items = self.validation(random.Random(self.seed + 17))
        if not items:
            return
        ans = drv.many([c for c, _ in items])
        for i, (c, f) in enumerate(items):
            want = ans[i] if ans else None
            got = f()
            if want is None:
                continue
            if got == want:
                self.tot['validated'] += 1
            else:
                self.tot['mismatch'].append('%s: native %s, encoding %s' % (c, want, got))

    def evidence(self, t0, tot, found=(), undone=(), ntasks=0, note=None):
        s = tot.get('stats', {})
        cov = {
            'states': s.get('paths', 0),
            'transitions': s.get('instrs', 0),
            'traces_validated_against_impl': tot.get('validated', 0),
            'samples': tot.get('samples', [])[:6],
            'method': 'symbolic execution of the LLVM IR compiled from /repo in this run; states = symbolic paths explored to their end, '
                      'transitions = IR instructions executed symbolically',
            'bounds': self.bounds_text() + Check.window_note,
            'outside_the_claim': self.outside,
            'tasks': ntasks,
            'tasks_decided': tot.get('tasks', 0) - len(tot.get('task_errors', [])),
            'queries': s.get('queries', 0),
            'integer_queries': s.get('int_queries', 0),
            'solver_s': round(s.get('solver_s', 0), 2),
            'obligations': s.get('obligations', 0),
            'obligations_closed_by_intervals': s.get('proved_by_interval', 0),
            'infeasible_branches': s.get('infeasible', 0),
            'witnesses': tot.get('cover', {}),
            'functions_encoded': sorted(tot.get('encoded', [])),
            'undecided': (tot.get('inconclusive', []) + tot.get('task_errors', []))[:20],
            'undecided_count': len(tot.get('inconclusive', [])) + len(tot.get('task_errors', [])) + len(undone),
            'tasks_not_started_or_cut_by_deadline': len(undone),
            'counterexamples_not_reproduced': tot.get('unreproduced', [])[:10],
            'translator_mismatches': tot.get('mismatch', [])[:10],
            'slowest_tasks': sorted(tot.get('slow', []), reverse=True)[:6],
            'cpu_s': round(tot.get('cpu', 0), 1),
        }
        if note:
            cov['note'] = note
        if not cov['samples']:
            cov['samples'] = ['none']
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions + COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(found)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.id)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, '%s.json' % self.id))

    def bounds_text(self):
        return self.bounds


COMMON_ASSUMPTIONS = [
    'the IR to linear-integer-arithmetic translation of /verif/engine (validated in each run against the native program on concrete inputs) and Z3 are trusted',
    'clang 18 -O1 (passes: sroa, early-cse, simplifycfg, adce) on x86-64 compiles the same semantics as the build users run',
    'operator new does not fail; libc/libstdc++ leaf functions (memcpy, memmove, memset, wmem*, strlen, wcslen, std::tolower in the "C" locale, operator new/delete) are replaced by models in engine/stubs.py',
]
