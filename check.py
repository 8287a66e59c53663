#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its LLVM IR.

  check.py ID            VERIF_TIER=quick|thorough, VERIF_SEED
  check.py --setup       build the engine
  check.py --replay FILE run a counterexample natively against /repo
Exit 0: held on everything explored; 1: VIOLATION line(s); 2: no verdict (error of the check)."""
import concurrent.futures, hashlib, json, os, re, shlex, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
import props

CLANG, LINK, OPT, NM = 'clang++-18', 'llvm-link-18', 'opt-18', 'llvm-nm-18'
IRFLAGS = ['-std=c++17', '-include', 'array', '-I' + REPO, '-I' + os.path.join(VERIF, 'harness'), '-O1',
           '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c', '-w',
           '-gline-tables-only', '-fsanitize=shift-exponent', '-fsanitize-trap=shift-exponent']
NATFLAGS = ['-std=c++17', '-include', 'array', '-I' + REPO, '-I' + os.path.join(VERIF, 'harness'), '-O1', '-g1', '-w',
            '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr']
MEM_GB = 27.0
T0 = time.time()


class NoVerdict(Exception):
    pass


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)


def must(cmd, what, timeout=600):
    r = run(cmd, timeout)
    if r.returncode:
        raise NoVerdict('%s failed: %s\n%s' % (what, ' '.join(map(shlex.quote, cmd)), r.stderr[-3000:]))
    return r


# ------------------------------------------------------------------ engine
def engine():
    """Path of the engine binary, built from the committed sources when it is missing or stale."""
    src = os.path.join(VERIF, 'engine')
    h = hashlib.sha256()
    for f in sorted(os.listdir(src)):
        if f.endswith(('.h', '.cpp')):
            h.update(open(os.path.join(src, f), 'rb').read())
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'gsym-' + h.hexdigest()[:16])
    if not os.path.exists(exe):
        cxx = run(['llvm-config-18', '--cxxflags']).stdout.split()
        cxx = [x for x in cxx if not x.startswith('-std=') and x != '-fno-exceptions']
        ld = run(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'support']).stdout.split()
        tmp = exe + '.%d' % os.getpid()
        must(['g++', '-O2', '-std=c++17', os.path.join(src, 'gsym.cpp'), '-o', tmp] + cxx + ['-fexceptions', '-frtti', '-w'] + ld + ['-lz3'], 'building the engine')
        os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------ building
def repo_sources():
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'ADD_LIBRARY\s*\(\s*goost([^)]*)\)', cm, re.I)
    fs = [f for f in (m.group(1).split() if m else []) if f.endswith('.cpp')]
    if not fs:
        fs = []
        for d, _, names in os.walk(os.path.join(REPO, 'goost')):
            fs += [os.path.relpath(os.path.join(d, n), REPO) for n in names if n.endswith('.cpp')]
    return sorted(fs)


class Build:
    def __init__(self, work, defs):
        self.work, self.defs = work, defs
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.skipped = {}      # entry or file -> reason
        self.native_objs = None
        self.lock = threading.Lock()

    def ir(self, src, out, extra=()):
        return run([CLANG] + IRFLAGS + list(extra) + [src, '-o', out])

    def start(self):
        self.src = repo_sources()
        jobs = []
        for f in self.src:
            o = os.path.join(self.work, f.replace('/', '_') + '.bc')
            jobs.append((f, o, self.pool.submit(self.ir, os.path.join(REPO, f), o)))
        mo = os.path.join(self.work, 'model.bc')
        jobs.append(('model.cpp', mo, self.pool.submit(self.ir, os.path.join(VERIF, 'models', 'model.cpp'), mo, ['-fno-access-control'])))
        self.jobs = jobs

    def finish(self):
        self.bcs = []
        for f, o, j in self.jobs:
            r = j.result()
            if r.returncode:
                raise NoVerdict('%s does not compile to IR:\n%s' % (f, r.stderr[-3000:]))
            self.bcs.append(o)

    def harness(self, name):
        """Compile a harness; entries that no longer fit the sources' interfaces are left out and noted."""
        path = os.path.join(VERIF, 'harness', name + '.cpp')
        out = os.path.join(self.work, name + '.h.bc')
        r = self.ir(path, out, self.defs)
        if r.returncode:
            text = open(path).read().split('\n')
            spans = []
            i = 0
            while i < len(text):
                m = re.match(r'ENTRY (\w+)\(', text[i])
                if m:
                    j = i
                    while text[j] != '}' and not (j == i and text[j].rstrip().endswith('}')):
                        j += 1
                    spans.append((i + 1, j + 1, m.group(1)))
                    i = j
                i += 1
            for _ in range(12):
                lines = set(int(x) for x in re.findall(re.escape(os.path.basename(path)) + r':(\d+):\d+: (?:fatal )?error', r.stderr))
                bad = [s for s in spans if any(s[0] <= l <= s[1] for l in lines) and s[2] not in self.skipped]
                if not bad:
                    break
                for a, b, n in bad:
                    self.skipped[n] = 'does not compile against the current sources'
                    for k in range(a - 1, b):
                        text[k] = ''
                gen = os.path.join(self.work, os.path.basename(path))
                open(gen, 'w').write('\n'.join(text))
                path = gen
                r = self.ir(path, out, self.defs)
                if not r.returncode:
                    break
        if r.returncode:
            self.skipped[name + '.cpp'] = 'harness does not compile against the current sources: ' + r.stderr[:600]
            return None
        return path, out

    def module(self, name, hbc):
        """Link harness + library + models and normalise."""
        ov = props.OVERRIDES.get(name, [])
        ovbc = []
        for o in ov:
            ob = os.path.join(self.work, '%s.%s.ov.bc' % (name, o))
            r = self.ir(os.path.join(VERIF, 'harness', o + '.cpp'), ob, list(self.defs) + ['-fno-access-control'])
            if r.returncode:
                self.skipped[name + '.cpp'] = 'abstraction does not compile against the current sources: ' + r.stderr[:600]
                return None
            ovbc.append(ob)
        lk = os.path.join(self.work, name + '.l.bc')
        om = os.path.join(self.work, name + '.m.bc')
        must([LINK] + self.bcs + [hbc] + ['--override=' + o for o in ovbc] + ['-o', lk], 'linking IR')
        must([OPT, '-passes=function(sroa,early-cse,simplifycfg)', lk, '-o', om], 'normalising IR')
        os.unlink(lk)
        return om

    def native(self, name, path):
        """The harness as a native program over the real sources (sanitised), for replay and validation."""
        with self.lock:
            if self.native_objs is None:
                def cc(f):
                    o = os.path.join(self.work, f.replace('/', '_') + '.o')
                    return o, run(['g++'] + NATFLAGS + ['-c', f if f.startswith('/') else os.path.join(REPO, f), '-o', o])
                objs = []
                for o, r in self.pool.map(cc, self.src + [os.path.join(VERIF, 'harness', 'gs_native.cpp')]):
                    if r.returncode:
                        raise NoVerdict('native build failed:\n' + r.stderr[-3000:])
                    objs.append(o)
                self.native_objs = objs
        exe = os.path.join(self.work, name + '.exe')
        if not os.path.exists(exe):
            must(['g++'] + NATFLAGS + list(self.defs) + ['-DGS_NATIVE', '-rdynamic', path] + self.native_objs + ['-o', exe, '-ldl'], 'native harness build')
        return exe


def write_replay(path, entry, harness, case, defs, comment=()):
    with open(path, 'w') as f:
        pass
    with open(path, 'w') as f:
        for k, v in sorted(case['choices'].items()):
            f.write('choice %s %d\n' % (k, v))
        for k, v in sorted(case['inputs'].items()):
            f.write('input %s %s\n' % (k, v or '-'))
    with open(path + '.json', 'w') as f:
        json.dump({'entry': entry, 'harness': harness, 'defs': list(defs), 'case': case, 'notes': list(comment)}, f, indent=1)


def native_run(exe, entry, rep, timeout=120):
    """(verdict, output): ok, fail, crash, ubsan, invalid"""
    outs = []
    for fill in (None, 0x00, 0xff, 0x01):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=6000' + (':max_malloc_fill_size=1048576:malloc_fill_byte=%d' % fill if fill is not None else ''),
                   UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = run([exe, entry, rep], timeout, env=env)
        except subprocess.TimeoutExpired:
            return 'crash', 'does not terminate'
        out = r.stdout + r.stderr
        outs.append(out)
        if r.returncode == 0:
            if 'runtime error:' in r.stderr:
                return 'ubsan', out
            continue
        if r.returncode in (43, 44):
            return 'invalid', out
        return ('fail' if r.returncode == 42 else 'crash'), out
    return 'ok', outs[0]


# ------------------------------------------------------------------ main
def load_known():
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.jsonl')):
        l = l.strip()
        if l.startswith('{'):
            out.append(json.loads(l))
    return out


def matches(k, prop, entry, v):
    return (k['property'] == prop and k['entry'] == entry and k['kind'] == v['kind']
            and (not k.get('msg') or k['msg'] == v['msg']) and (not k.get('loc') or k['loc'] in v['loc']))


def check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    exe = engine()
    work = os.path.join(BUILD, 'work-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replays = os.path.join(BUILD, 'replay', prop)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays)
    try:
        return decide(prop, P, tier, seed, exe, work, replays)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, P, tier, seed, exe, work, replays):
    thorough = tier == 'thorough'
    defs = props.DEFS[tier]
    limit = 24 * 3600 if thorough else 800
    b = Build(work, defs)
    b.start()
    hs = {h: b.pool.submit(b.harness, h) for h in P['harness']}
    b.finish()
    mods, paths = {}, {}
    for h, j in hs.items():
        r = j.result()
        if r:
            paths[h] = r[0]
            mods[h] = (r[1], b.pool.submit(b.module, h, r[1]))
    entries = []
    pre = prop.lower() + '_'
    for h, (hbc, j) in mods.items():
        m = j.result()
        if not m:
            continue
        for l in must([NM, '--defined-only', hbc], 'nm').stdout.split('\n'):
            f = l.split()
            if len(f) == 3 and f[1] == 'T' and f[2].startswith(pre):
                entries.append((h, m, f[2]))
    if not entries:
        raise NoVerdict('no entry of %s fits the current sources: %s' % (prop, b.skipped))
    t_build = time.time() - T0
    # the native harnesses are built while the engine runs
    nat = {h: b.pool.submit(b.native, h, paths[h]) for h in set(e[0] for e in entries)}

    known = load_known()
    stop = threading.Event()    # a confirmed violation settles the property: what still runs is ended

    def stopped_result(h):
        return {'status': 'stopped', 'message': 'ended after a violation elsewhere', 'harness': h, 'violations': [], 'samples': [], 'paths': 0}

    def confirm(e, j):
        """Run the counterexamples of an entry against the real code, up to the first confirmed one."""
        h = j['harness']
        for i, v in enumerate(j['violations']):
            v['known'] = next((k for k in known if matches(k, prop, e, v)), None)
            if v['known']:
                continue
            rep = v['rep'] = os.path.join(replays, '%s-%d.txt' % (e, i))
            write_replay(rep, e, h, v, defs, ['%s: %s' % (v['kind'], v['msg']), v['loc']])
            st, out = native_run(nat[h].result(), e, rep)
            good = st in ('fail', 'crash') or (st == 'ubsan' and v['kind'] in ('ub-shift', 'null-deref', 'out-of-bounds', 'unreachable', 'div-by-zero'))
            if not good and st in ('ok', 'ubsan'):
                for cmd in (['valgrind', '-q', '--error-exitcode=77'], []):    # [] runs with the allocator of the system, which gives addresses out again
                    try:
                        r = run(cmd + [nat_plain(b, h, paths[h], work), e, rep], 120)
                    except subprocess.TimeoutExpired:
                        continue
                    good = r.returncode in ((77, 42) if cmd else (42,)) or r.returncode < 0
                    out += r.stdout + r.stderr
                    if good:
                        break
            v['native'], v['confirmed'], v['output'] = st, good, out
            if good:
                stop.set()
                return

    sem = threading.Condition()
    free = [MEM_GB, 8]

    def one(h, mod, e):
        need, tl = props.MEM.get(e, 0.6), props.TIME.get(e, 700)
        if thorough:
            need, tl = max(need, props.MEM_T.get(e, need * 1.5)), max(tl, 3600)
        need = min(need, MEM_GB)
        with sem:
            while free[0] < need or free[1] < 1:
                sem.wait()
            if stop.is_set():
                return e, stopped_result(h)
            free[0] -= need
            free[1] -= 1
        try:
            out = os.path.join(work, e + '.json')
            left = max(20, limit - (time.time() - T0))
            tl = min(tl, left)
            cmd = [exe, mod, e, '-o', out, '--time', str(int(tl)), '--query-time', str(120 if thorough else 60),
                   '--seed', str(seed), '--samples', '2', '--max-viol', '4'] + (['--audit', '400', '--path-steps', '20000000000'] if thorough else ['--audit', '40'])
            with open(out + '.err', 'w') as ef:
                pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef)
                rc, t1, stopped = None, time.time(), None
                while rc is None:
                    try:
                        rc = pr.wait(1)
                    except subprocess.TimeoutExpired:
                        if stop.is_set() and stopped is None:
                            stopped = time.time()
                        late = stopped is not None and time.time() - stopped > 15
                        if late or time.time() - t1 > tl + 40:
                            pr.kill()
                            pr.wait()
                            if late:
                                return e, stopped_result(h)
                            rc = 'time limit'
            err = open(out + '.err', errors='replace').read()
            if os.path.exists(out):
                try:
                    j = json.load(open(out))
                    j['harness'] = h
                    confirm(e, j)
                    return e, j
                except ValueError:
                    pass
            return e, {'status': 'incomplete', 'message': 'engine ended with %s: %s' % (rc, err[-500:]), 'harness': h, 'violations': [], 'samples': [], 'paths': 0}
        finally:
            with sem:
                free[0] += need
                free[1] += 1
                sem.notify_all()

    order = sorted(entries, key=lambda x: -props.COST.get(x[2], 1))
    results = {}
    with concurrent.futures.ThreadPoolExecutor(max(8, len(order))) as ex:
        for e, j in ex.map(lambda a: one(*a), order):
            results[e] = j
    violations, problems, known_lines, undecided = [], [], [], []
    validated, mismatches, sample_out = 0, 0, []
    for e in sorted(results):
        j = results[e]
        h = j['harness']
        if j['status'] == 'stopped':
            continue
        handled_known = False
        # these entries repeat what others decide, for longer data or larger requests: without a
        # confirmed counterexample they add nothing and take nothing away
        problems_ = problems
        problems = undecided if h in props.EXTRA or e in props.EXTRA else problems_
        for i, v in enumerate(j['violations']):
            if v.get('known'):
                handled_known = True
                l = 'KNOWN-FINDING: property=%s %s' % (prop, v['known']['what'])
                if l not in known_lines:
                    known_lines.append(l)
                continue
            rep, out = v['rep'], v['output']
            if v['confirmed']:
                violations.append((e, v, rep, out))
                print('VIOLATION property=%s replay=%s' % (prop, rep))
                print('  %s: %s: %s at %s' % (e, v['kind'], v['msg'], v['loc'][:300]))
                print('  inputs %s choices %s' % (json.dumps(v['inputs'])[:600], json.dumps(v['choices'])))
                print('  natively: ' + ' | '.join(x for x in out.strip().split('\n') if 'EMIT' not in x)[:500])
                break
            else:
                problems.append('%s: counterexample is not confirmed natively (%s): %s %s' % (e, v['native'], v['kind'], v['msg']))
        if j['status'] == 'incomplete':
            problems.append('%s: %s' % (e, j['message']))
        elif j['status'] == 'violation' and j['message']:
            problems.append('%s: besides a violation: %s' % (e, j['message']))
        if j['status'] == 'ok':
            want = props.REACH.get(e, ['end'])
            miss = [w for w in want if not j['reached'].get(w)]
            if miss:
                problems.append('%s: vacuous, never reaches %s' % (e, miss))
        if j.get('audit_failed'):
            problems.append('%s: the rewriting audit failed' % e)
        # translator validation: concrete witnesses of explored paths, run natively
        for i, s in enumerate(j['samples']):
            rep = os.path.join(work, '%s-s%d.txt' % (e, i))
            write_replay(rep, e, h, s, defs)
            st, out = native_run(nat[h].result(), e, rep)
            if st in ('ok', 'ubsan'):
                got = [l.split()[1:] for l in out.split('\n') if l.startswith('EMIT ')]
                if got != [list(x) for x in s['emits']]:
                    mismatches += 1
                    problems.append('%s: the encoding predicts other values than the native run (choices %s)' % (e, s['choices']))
                else:
                    validated += 1
                    if len(sample_out) < 6:
                        sample_out.append({'entry': e, 'choices': s['choices'], 'inputs': {k: v[:64] for k, v in s['inputs'].items()}, 'observed': got[:6]})
            elif st == 'crash' and not violations and not handled_known:
                keep = os.path.join(replays, '%s-s%d.txt' % (e, i))
                write_replay(keep, e, h, s, defs, ['native run of a path the encoding considers fine'])
                problems.append('%s: the native run of an explored path crashes: %s' % (e, out[-800:]))
            elif not violations:
                problems.append('%s: the native run of an explored path disagrees (%s): %s' % (e, st, out[-300:]))
        problems = problems_
    for l in known_lines:
        print(l)

    tot = lambda k: sum(j.get(k, 0) for j in results.values())
    fns = sorted(set(f for j in results.values() for f in j.get('functions', [])))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('instructions'), 'traces_validated_against_impl': validated, 'samples': sample_out,
            'explanation': 'bounded symbolic execution of the LLVM IR of /repo; states = symbolic paths explored to their end, transitions = IR instructions executed symbolically, traces_validated = path witnesses run natively with the predicted observables',
            'entries': {e: {k: j.get(k) for k in ('status', 'paths', 'forks', 'merges', 'assertions', 'queries', 'q_rewrite', 'q_witness', 'q_modelcache', 'q_z3_sat', 'q_z3_unsat', 'q_unknown', 'audited', 'z3_s', 'wall_s', 'nodes', 'inputs', 'reached')} for e, j in sorted(results.items())},
            'assertions_discharged': tot('assertions'), 'queries': tot('queries'), 'queries_by_canonical_rewriting': tot('q_rewrite'),
            'queries_sat_by_witness': tot('q_witness') + tot('q_modelcache'), 'queries_by_z3': tot('q_z3_sat') + tot('q_z3_unsat'),
            'rewrites_audited_by_z3': tot('audited'), 'solver_s': round(tot('z3_s'), 3), 'engine_s': round(tot('wall_s'), 1), 'build_s': round(t_build, 1),
            'functions_encoded': fns, 'bounds': P['bounds'][tier] if isinstance(P['bounds'], dict) else P['bounds'], 'outside_bounds': P['outside'],
            'skipped': b.skipped, 'known_findings': known_lines, 'problems': problems, 'undecided': undecided,
        },
        'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - T0, 1), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for n, why in b.skipped.items():
        print('note: %s skipped: %s' % (n, why))
    for p in undecided:
        print('note: not decided: ' + p)
    if violations:
        return 1
    if problems:
        for p in problems:
            print('NO VERDICT: ' + p)
        return 2
    print('%s holds: %d entries, %d paths, %d assertions, %d queries (%d by z3, %.1f s), %d traces replayed natively, %.0f s' % (
        prop, len(results), tot('paths'), tot('assertions'), tot('queries'), tot('q_z3_sat') + tot('q_z3_unsat'), tot('z3_s'), validated, time.time() - T0))
    return 0


def nat_plain(b, h, path, work):
    exe = os.path.join(work, h + '.plain')
    with b.lock:
        if not os.path.exists(exe):
            must(['g++', '-std=c++17', '-include', 'array', '-I' + REPO, '-I' + os.path.join(VERIF, 'harness'), '-O0', '-g', '-w', '-rdynamic', '-DGS_NATIVE'] + list(b.defs)
                 + [path, os.path.join(VERIF, 'harness', 'gs_native.cpp')] + [os.path.join(REPO, f) for f in b.src] + ['-o', exe, '-ldl'], 'native build')
    return exe


def replay(path):
    j = json.load(open(path + '.json'))
    work = os.path.join(BUILD, 'replay-%d' % os.getpid())
    os.makedirs(work)
    try:
        b = Build(work, j['defs'])
        b.src = repo_sources()
        exe = b.native(j['harness'], os.path.join(VERIF, 'harness', j['harness'] + '.cpp'))
        st, out = native_run(exe, j['entry'], path)
        print(out)
        print('replay: ' + st)
        return 0 if st == 'ok' else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--setup':
            print(engine())
            sys.exit(0)
        if sys.argv[1] == '--replay':
            sys.exit(replay(os.path.abspath(sys.argv[2])))
        sys.exit(check(sys.argv[1]))
    except NoVerdict as x:
        print('NO VERDICT: %s' % x)
        sys.exit(2)
