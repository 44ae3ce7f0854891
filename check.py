#!/usr/bin/env python3
"""Driver of the monitors: builds the harness from the current /repo, runs the
workloads of one property in several builds, judges what was observed and
writes evidence/<id>.json.

usage: check.py C01          (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --setup      builds everything once

Exit status: 0 the property held on everything explored; 1 violated (with a
line `VIOLATION property=<id> replay=<path>`); 2 no answer (build or harness
error, a crash which cannot be reproduced, too little observed).
"""
import array
import collections
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DMON_REPO', '/repo')
TARGET = os.path.join(VERIF, 'target')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'tools'))

CPUS = max(1, min(8, os.cpu_count() or 1))
T0 = time.time()
# Everything ends before the outer limit of 900 s (quick tier).
# Seconds for the main workload of the thorough tier (the others follow).
THOROUGH_SECS = int(os.environ.get('VERIF_THOROUGH_SECS', '1500'))
DEADLINE = {'quick': 780.0, 'thorough': 6 * 3600.0}


class NoAnswer(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def digest_of(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def crate_digest():
    files = [os.path.join(REPO, 'Cargo.toml')]
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        files += [os.path.join(d, f) for f in fs]
    return digest_of(files)


# name: (profile, std, toolchain, target triple, RUSTFLAGS)
TRIPLE = 'x86_64-unknown-linux-gnu'
BUILDS = {
    'dev-std': ('debug', True, None, None, ''),
    'rel-nostd': ('release', False, None, None, ''),
    'dev-nostd': ('debug', False, None, None, ''),
    'rel-std': ('release', True, None, None, ''),
    'asan': ('debug', True, '+nightly', TRIPLE, '-Zsanitizer=address'),
}


def cargo_env(target, flags=''):
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    env['CARGO_TARGET_DIR'] = target
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    if flags:
        env['RUSTFLAGS'] = flags
    return env


class Lock:
    def __init__(self, target):
        os.makedirs(target, exist_ok=True)
        self.f = open(os.path.join(target, '.dmon-lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def forget_crate(target):
    """Makes cargo rebuild the crate whatever the modification times say."""
    stamp = os.path.join(target, '.dmon-crate')
    want = crate_digest()
    try:
        with open(stamp) as f:
            if f.read() == want:
                return
    except OSError:
        pass
    for pat in ('*/.fingerprint/dendron-*', '*/*/.fingerprint/dendron-*'):
        for d in glob.glob(os.path.join(target, pat)):
            shutil.rmtree(d, ignore_errors=True)
    with open(stamp, 'w') as f:
        f.write(want)


def build(name):
    profile, std, tool, triple, flags = BUILDS[name]
    target = os.path.join(TARGET, name)
    with Lock(target):
        forget_crate(target)
        cmd = ['cargo'] + ([tool] if tool else []) + ['build', '--offline', '--quiet']
        if profile == 'release':
            cmd.append('--release')
        if not std:
            cmd.append('--no-default-features')
        if triple:
            cmd += ['--target', triple]
        r = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(target, flags),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise NoAnswer(f'build {name} failed:\n' + r.stdout[-4000:])
        return os.path.join(target, triple or '', profile, 'dmon')


# ----------------------------------------------------------------- running

def limits(mem, cpu):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    return f


def cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            v = f.read().rsplit(')', 1)[1].split()
        return (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


class Worker:
    """One process which runs the cases start, start + stride, ..."""

    def __init__(self, ph, k, start, again=None):
        # again: the case which ended a process with the same cases before.
        self.ph, self.k, self.start, self.again = ph, k, start, again
        base = os.path.join(ph.dir, f'{ph.label}.{k}')
        self.out, self.err, self.prog = base + '.out', base + '.err', base + '.prog'
        self.table, self.digest = base + f'.{start}.tab', base + f'.{start}.dig'
        for p in (self.prog,):
            if os.path.exists(p):
                os.remove(p)
        secs = ph.secs - (time.time() - ph.t0) if again is None else 2 * ph.secs + 10
        cmd = ph.cmd + ['--start', str(start), '--stride', str(ph.stride), '--cases', str(ph.cases),
                        '--secs', str(max(1.0, secs)), '--progress', self.prog, '--table', self.table]
        if ph.digests:
            cmd += ['--digest', self.digest]
        self.p = subprocess.Popen(cmd, stdout=open(self.out, 'w'), stderr=open(self.err, 'w'),
                                  stdin=subprocess.DEVNULL, preexec_fn=limits(ph.mem, 0), env=ph.env, cwd=ph.dir)
        self.idx, self.cpu0, self.state = None, 0.0, 'run'

    def current(self):
        try:
            with open(self.prog) as f:
                return int(f.read(20).strip() or -1)
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def poll(self, hang):
        """None while it runs, or ('done'|'crash'|'hang'|'error', ...)."""
        rc = self.p.poll()
        if rc is None:
            c, i = cpu_of(self.p.pid), self.current()
            if i != self.idx:
                self.idx, self.cpu0 = i, c
            elif i is not None and c - self.cpu0 > hang:
                self.kill()
                return ('hang', i)
            return None
        i = self.current()
        if rc in (0, 1):
            try:
                with open(self.out) as f:
                    return ('done', json.loads(f.read().strip().splitlines()[-1]))
            except (ValueError, IndexError):
                return ('error', f'unreadable output of worker {self.k}')
        if rc < 0 and i is not None:
            return ('crash', i, -rc)
        with open(self.err) as f:
            return ('error', f'worker {self.k} ended with {rc}: ' + f.read()[-600:])


class Phase:
    """All workers of one build."""

    def __init__(self, run, label, binary, seed, cases, secs, extra=(), mem=3 << 30, hang=30, digests=False,
                 env=None, stride=None, prefix=()):
        self.run, self.label, self.binary, self.seed = run, label, binary, seed
        self.cases, self.secs, self.mem, self.hang, self.digests = cases, secs, mem, hang, digests
        self.dir = run.dir
        self.env = env or dict(os.environ)
        self.env['RUST_BACKTRACE'] = '0'
        self.stride = stride or CPUS
        self.cmd = list(prefix) + [binary, 'run', '--prop', run.prop, '--seed', str(seed)] + list(extra)
        self.solo_limit = 2 * hang
        self.t0 = time.time()
        self.results, self.tables, self.digest_files = [], [], []

    def solo(self, idx):
        """The case alone: what it did, and the printed trace."""
        cmd = self.cmd + ['--only', str(idx)]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                               preexec_fn=limits(self.mem, self.solo_limit), timeout=6 * self.solo_limit,
                               env=self.env, cwd=self.dir)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, ''

    def go(self):
        run = self.run
        live = [Worker(self, k, k) for k in range(self.stride)]
        restarts = collections.Counter()
        wall = self.secs + 6 * self.solo_limit
        try:
            while live:
                time.sleep(0.05)
                if time.time() - self.t0 > wall or run.left() < 0:
                    raise NoAnswer(f'{self.label}: the workers did not end within the time limit')
                for w in list(live):
                    if run.violations and time.time() - run.first > 20:
                        break
                    r = w.poll(self.hang)
                    if r is None:
                        continue
                    live.remove(w)
                    if r[0] == 'done':
                        j = r[1]
                        self.results.append(j)
                        self.tables.append(w.table)
                        self.digest_files.append(w.digest)
                        for v in j['violations']:
                            run.violation(self, v['case'], v['kind'], v['msg'], v['trace'])
                    elif r[0] == 'error':
                        raise NoAnswer(f'{self.label}: {r[1]}')
                    else:
                        idx = r[1]
                        what = 'no end after %d s of CPU time' % self.hang if r[0] == 'hang' else \
                            'the process died from ' + signal.Signals(r[2]).name
                        rc, text = self.solo(idx)
                        with open(w.err, errors='replace') as f:
                            tail = f.read()[-800:]
                        if rc is not None and rc < 0 and -rc != signal.SIGKILL or \
                                (rc is not None and rc < 0 and r[0] == 'hang'):
                            run.violation(self, idx, 'crash', what + ', reproduced with this case alone (%s). %s'
                                          % (signal.Signals(-rc).name, (tail or text)[-800:]),
                                          text.splitlines()[-200:])
                        elif rc == 1:
                            run.violation(self, idx, 'found alone', what, text.splitlines()[-200:])
                        elif w.again == idx and not (r[0] == 'crash' and r[2] == signal.SIGKILL):
                            # It needs what the cases before it left behind in the process.
                            run.violation(self, idx, 'crash', what + ', twice in a process which ran the cases %d, %d, ... before. %s'
                                          % (w.start, w.start + self.stride, tail), [])
                        else:
                            restarts[w.k] += 1
                            run.notes.append(f'{self.label}: case {idx}: {what}, not reproduced alone ({rc})')
                            if restarts[w.k] > 2:
                                raise NoAnswer(f'{self.label}: case {idx}: {what}, not reproduced')
                            live.append(Worker(self, w.k, w.start, idx))
                if run.violations and time.time() - run.first > 20:
                    break
        finally:
            for w in live:
                w.kill()
        return self


# ------------------------------------------------------------ one property

NAMES = {0: 'operations', 1: 'edits_done', 2: 'edits_refused', 3: 'edits_excluded_by_locks', 4: 'handle_operations',
         5: 'whole_state_audits', 6: 'navigation_answers_compared', 7: 'lock_probes', 8: 'weak_upgrades_compared',
         9: 'handles_dropped', 10: 'foreign_grants_used', 11: 'moves_between_trees', 12: 'clones',
         13: 'trees_died', 15: 'items', 20: 'moves_with_bundled_locks'}
U = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'):
    U[_p] = {16: 'distinct_edit_situations', 17: 'two_edit_sequences', 18: 'memory_balance_checks'}
for _p in ('C07', 'C08'):
    U[_p] = {16: 'distinct_lock_situations', 17: 'two_step_sequences'}
U.update({
    'C09': {15: 'traversal_events_compared'}, 'C10': {15: 'traversal_items_compared'},
    'C11': {15: 'iterator_steps_compared', 16: 'distinct_usage_patterns', 17: 'clones_compared'},
    'C12': {15: 'events_compared', 16: 'built_nodes_compared', 17: 'borrowed_items'},
    'C13': {15: 'events_offered', 16: 'distinct_streams', 17: 'builder_state_probes'},
    'C14': {16: 'distinct_clone_situations', 17: 'independence_probes', 18: 'clones_refused'},
    'C15': {17: 'comparisons', 18: 'tree_pairs', 19: 'comparisons_with_borrowed_data'},
    'C16': {16: 'borrow_probes', 17: 'traversals_under_borrow', 18: 'writes_seen'},
    'C17': {15: 'lines_compared', 16: 'pretty_prints_compared', 17: 'borrowed_nodes', 18: 'debug_forms', 19: 'dangling_handles'},
    'C18': {15: 'values_dropped', 16: 'deep_or_wide_operations', 17: 'max_stack_bytes_seen_by_callbacks'},
    'C19': {15: 'callbacks_run', 16: 'actions_inside_callbacks', 17: 'weak_upgrades_to_a_node',
            18: 'weak_upgrades_to_nothing', 19: 'panics_injected', 5: 'whole_state_audits'},
    'C20': {15: 'items_returned_while_editing', 17: 'edits_in_the_passed_part', 18: 'stable_positions'},
    'C21': {15: 'observations_digested', 17: 'documented_panics', 18: 'prints_digested'},
})

HIST = ('first every single edit (operation, operands, destination, handle flavour) on every tree shape up to 6 nodes, '
        'every two-edit sequence up to 4 nodes and every move or clone-insert between two trees up to 4 nodes each, then random histories over '
        'several trees with handles of all kinds being taken, converted and dropped; counted are distinct '
        '(tree shapes, edit, operands, flavour, handles alive) situations')
RULES = {
    'C01': HIST, 'C02': HIST, 'C03': HIST + ' with the refused ones included', 'C04': HIST, 'C05': HIST, 'C06': HIST,
    'C07': 'every edit on small shapes under every combination of locks, then random histories which mostly acquire, clone, '
           'extract, bundle, convert and release locks; counted are distinct (lock state, edit or lock operation) situations',
    'C08': HIST + ' with locks of all kinds being alive and foreign grants being used',
    'C09': 'all shapes up to 7 nodes, then random trees with history; every start node, event, limit and step of every depth-first '
           'traversal; counted are distinct (tree shape, start node) pairs',
    'C10': 'all shapes up to 7 nodes, then random trees with history; every start node, direction and depth of every sibling, '
           'ancestor and breadth-first traversal; counted are distinct (tree shape, start node) pairs',
    'C11': 'all shapes up to 5 nodes for each iterator, then random trees; random scripts of next, next_back, peek, size_hint, clone, '
           'skip and calls after the end; counted are distinct (iterator, tree, script) patterns with at least one item',
    'C12': 'all shapes up to 7 nodes, then random trees and start nodes; each serialised in all ways and rebuilt for all targets with '
           'random splittings of the closings; counted are distinct (subtree shape, size of its tree) pairs',
    'C13': 'all streams up to 6 events over {open, close 0..3}, in both batchings, then long random streams on fresh and existing '
           'nodes; counted are distinct streams',
    'C14': 'all (shape up to 6 nodes, source, destination) combinations, then random trees with history, locks and borrowed data; '
           'counted are distinct clone situations',
    'C15': 'all pairs of shapes up to 5 nodes, then random near-equal pairs (one datum, one node, one level changed) inside larger '
           'trees; all handle kind pairs; counted are distinct tree pairs',
    'C16': 'random programs of borrows, writes, edits, traversals and conversions over payloads with dynamic borrow state known to the '
           'model; counted are distinct (borrow state, operation) situations',
    'C17': 'all shapes up to 7 nodes, then random trees with single-line, multi-line and empty data, borrowed nodes and styles; counted '
           'are distinct (shape, data, borrowed set) triples',
    'C18': '37 operations on 10 shapes (chains, combs, stars, bushes, mixtures) at the given number of nodes on a small stack; counted are '
           'distinct (shape, operation, size) triples',
    'C19': 'random scenes and one crate operation whose callbacks (Drop, Clone, PartialEq, Debug, Display, event source) run a random '
           'plan of navigation, edits, lock changes, weak upgrades, handle drops and panics; counted are distinct (operation, plan, '
           'callback kind, actions run) combinations',
    'C20': 'random trees, every traversal kind, edits of every kind between the steps; counted are distinct (traversal, tree, edits) '
           'combinations',
    'C21': 'random programs of public operations, each run in four builds (assertions and overflow checks on/off, std on/off) with all '
           'observations digested; counted are distinct prefixes of observations, sampled at every fourth operation',
    'C22': 'generated programs made of random literals (shape, data type, expression form, commas, delimiters, import style); '
           'counted are distinct literal texts with at least two nodes',
    'C23': 'every operation on 7 shapes of small (12-80 nodes) and large (1500-6250 nodes) trees at random nodes, with and without handles '
           'of all other nodes; counted are distinct (operation, shape, size class, root or inner node, handles) settings',
}

# cases for the checked build and for the assertion-free build (quick tier)
CASES = {
    'C01': (560000, 320000), 'C02': (560000, 320000), 'C03': (560000, 320000), 'C04': (900000, 480000),
    'C05': (640000, 320000), 'C06': (1400000, 640000), 'C07': (1600000, 800000), 'C08': (960000, 480000),
    'C09': (640000, 320000), 'C10': (800000, 400000), 'C11': (1200000, 560000), 'C12': (240000, 120000),
    'C13': (960000, 480000), 'C14': (560000, 280000), 'C15': (480000, 240000), 'C16': (1200000, 560000),
    'C17': (96000, 64000), 'C18': (5180, 2960), 'C19': (640000, 320000), 'C20': (1200000, 560000),
    'C21': (400000, 400000),
}


# C23: a large tree may take this many times the instructions which a small one
# takes for each unit of work, and this many more (for the allocator).
COST_FACTOR, COST_SLACK = 4, 8000

# programs of large sizes (quick tier), in each of the two builds
LARGE = {f'C{i:02}': n for i, n in {
    1: 800, 2: 800, 3: 800, 4: 800, 5: 800, 6: 800, 7: 2400, 8: 2400, 9: 1200, 10: 2400, 11: 1600, 12: 2400,
    13: 1600, 14: 800, 15: 320, 16: 800, 17: 8000, 20: 2400}.items()}
LARGE_NAMES = {1: 'edits_done', 2: 'edits_refused', 5: 'whole_state_audits', 6: 'nodes_audited', 7: 'lock_probes', 12: 'nodes_cloned',
               15: 'items_compared', 17: 'further_probes'}


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(TARGET, 'run', f'{prop}-{os.getpid()}')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations, self.notes, self.phases = [], [], []
        self.first = None
        self.known = known(prop)
        self.known_seen = []
        self.extra = {}
        self.assumptions = [
            'held on the executions which were observed, nothing more',
            'the reference model and the oracles of /verif/harness are right',
            'the tool chain, the allocator and the sandbox are right',
        ]

    def left(self):
        return DEADLINE[self.tier] - (time.time() - T0)

    def violation(self, phase, case, kind, msg, trace):
        sig = f'{kind}: {msg}'
        for k in self.known:
            if k in sig:
                self.known_seen.append(k)
                return
        if self.first is None:
            self.first = time.time()
        self.violations.append(dict(build=phase.label, case=case, kind=kind, msg=msg, trace=trace,
                                    cmd=' '.join(phase.cmd + ['--only', str(case)])))

    def add(self, ph):
        self.phases.append(ph)
        return ph.go()

    # -- the ordinary properties ------------------------------------------
    def ordinary(self):
        thorough = self.tier == 'thorough'
        dev, rel = CASES[self.prop]
        mult = 30 if thorough else 1
        secs = THOROUGH_SECS if thorough else 130
        extra = ['--thorough'] if thorough else []
        # Quick and thorough runs never share cases with another seed.
        b = build('dev-std')
        if self.prop == 'C18':
            sizes = [(dev, 20000, 128), (370, 200000, 128)]
            if thorough:
                sizes = [(dev * 10, 20000, 128), (7400, 200000, 128), (740, 1500000, 128), (3700, 60000, 64)]
            for i, (n, nodes, stack) in enumerate(sizes):
                self.add(Phase(self, f'dev-std-{nodes}', b, self.seed + i, n, secs,
                               extra + ['--nodes', str(nodes), '--stack', str(stack)], hang=120))
            if not self.violations:
                b = build('rel-nostd')
                for i, (n, nodes, stack) in enumerate(sizes):
                    self.add(Phase(self, f'rel-nostd-{nodes}', b, self.seed + 50 + i, n // 2, secs,
                                   extra + ['--nodes', str(nodes), '--stack', str(stack)], hang=120))
            return
        self.add(Phase(self, 'dev-std', b, self.seed, dev * mult, secs, extra))
        # Sizes beyond the random programs: hundreds to tens of thousands.
        large = LARGE.get(self.prop, 0) * (20 if thorough else 1)
        if large and not self.violations:
            self.add(Phase(self, 'large-dev-std', b, self.seed + 500009, large, secs * .4, extra + ['--big']))
        if not self.violations:
            b = build('rel-nostd')
            if large:
                self.add(Phase(self, 'large-rel-nostd', b, self.seed + 1500013, large, secs * .3, extra + ['--big']))
        if not self.violations:
            self.add(Phase(self, 'rel-nostd', b, self.seed + 1000003, rel * mult, secs * .7, extra))
        if thorough and not self.violations:
            self.sanitizers()

    def sanitizers(self):
        """The same workloads under AddressSanitizer with leak detection, and in Miri."""
        try:
            b = build('asan')
        except NoAnswer as e:
            self.notes.append('AddressSanitizer not run: ' + str(e)[:300])
        else:
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=1:halt_on_error=1:allocator_may_return_null=0')
            extra = ['--nodes', '3000', '--stack', '4096'] if self.prop == 'C18' else []
            self.add(Phase(self, 'asan', b, self.seed + 7, CASES[self.prop][0] // 6, THOROUGH_SECS // 5, extra, mem=0, hang=200, env=env))
        if self.prop == 'C18' or self.violations:
            return
        target = os.path.join(TARGET, 'miri')
        os.makedirs(target, exist_ok=True)
        with Lock(target):
            forget_crate(target)
            env = cargo_env(target)
            env['MIRIFLAGS'] = '-Zmiri-disable-isolation'
            cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '--quiet', '--', 'run', '--prop', self.prop, '--random']
            try:
                r = subprocess.run(cmd + ['--only', '2000000'], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                self.notes.append('Miri not run: the first case took too long')
                return
            if r.returncode != 0:
                self.notes.append('Miri not run: ' + r.stdout[-300:])
                return
            # Random cases only: the systematic ones are small and many.
            ps = []
            for k in range(CPUS):
                ps.append((k, subprocess.Popen(
                    cmd + ['--seed', str(self.seed + 99), '--start', str(2000000 + k), '--stride', str(CPUS),
                           '--cases', '3000000', '--secs', str(THOROUGH_SECS // 4), '--bits', '12'],
                    cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                    preexec_fn=limits(0, 0))))
            n = 0
            for k, p in ps:
                try:
                    out, err = p.communicate(timeout=1500)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.communicate()
                    self.notes.append(f'Miri worker {k} did not end in time')
                    continue
                if 'Undefined Behavior' in err or 'memory leaked' in err:
                    ph = Phase(self, 'miri', ' '.join(cmd), self.seed + 99, 0, 0)
                    self.violation(ph, 2000000 + k, 'miri', err[-1500:], err.splitlines()[-60:])
                elif p.returncode in (0, 1):
                    j = json.loads(out.strip().splitlines()[-1])
                    n += j['cases']
                    for v in j['violations']:
                        ph = Phase(self, 'miri', ' '.join(cmd), self.seed + 99, 0, 0)
                        self.violation(ph, v['case'], v['kind'], v['msg'], v['trace'])
                else:
                    self.notes.append(f'Miri worker {k} ended with {p.returncode}: {err[-200:]}')
            self.extra['miri_cases'] = n

    # -- configuration parity ---------------------------------------------
    def parity(self):
        thorough = self.tier == 'thorough'
        cases = CASES['C21'][0] * (20 if thorough else 1)
        ref, refname = None, None
        compared = 0
        for name in ('dev-std', 'rel-nostd', 'dev-nostd', 'rel-std'):
            b = build(name)
            ph = self.add(Phase(self, name, b, self.seed, cases, THOROUGH_SECS if thorough else 120, digests=True))
            if self.violations:
                return
            d = {}
            for f in ph.digest_files:
                a = array.array('Q')
                with open(f, 'rb') as g:
                    a.frombytes(g.read())
                os.remove(f)
                d.update(zip(a[0::2], a[1::2]))
            if ref is None:
                ref, refname, refph = d, name, ph
                continue
            common = [i for i in d if i in ref]
            compared += len(common)
            if len(common) * 2 < cases and len(common) * 2 < len(ref):
                raise NoAnswer(f'{name}: only {len(common)} of {cases} programs were compared')
            for i in common:
                if d[i] != ref[i]:
                    rc1, t1 = refph.solo(i)
                    rc2, t2 = ph.solo(i)
                    l1, l2 = t1.splitlines(), t2.splitlines()
                    k = next((k for k, (x, y) in enumerate(zip(l1, l2)) if x != y), min(len(l1), len(l2)))
                    self.violation(ph, i, 'difference', f'the program behaves differently in {refname} and {name}: '
                                   f'{l1[k:k + 2]} against {l2[k:k + 2]}', l1[max(0, k - 30):k + 2] + ['---'] + l2[k:k + 3])
                    if len(self.violations) >= 3:
                        return
        self.extra['program_pairs_compared'] = compared

    # -- tree literals -----------------------------------------------------
    def literals(self):
        import gen_macros
        thorough = self.tier == 'thorough'
        rounds = 40 if thorough else 4
        target = os.path.join(TARGET, 'lit-build')
        src = os.path.join(TARGET, 'lit-src')
        texts, n_lits, nodes, aborted, forms, marks, types = set(), 0, 0, 0, {}, {}, {}
        samples, deepest, widest = [], 0, 0
        with Lock(target):
            forget_crate(target)
            for rnd in range(rounds):
                if self.left() < 120 or self.violations:
                    break
                shutil.rmtree(src, ignore_errors=True)
                lits, fo, ma = gen_macros.generate(src, self.seed * 1000 + rnd, per_bin=60, bins=4, dep=REPO)
                by_id = {x.id: x for x in lits}
                r = subprocess.run(['cargo', 'build', '--offline', '--keep-going', '--message-format', 'short'], cwd=src,
                                   env=cargo_env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                bad = set()
                if r.returncode != 0:
                    for pkg in 'ab':
                        for b in range(5):
                            if f'(bin "{pkg}{b}")' in r.stdout:
                                bad.add((pkg, b))
                    if not bad or ('a', 0) in bad or ('b', 0) in bad:
                        raise NoAnswer('the literal programs do not build:\n' + r.stdout[-3000:])
                    for pkg, b in sorted(bad):
                        self.rejected(src, target, pkg, b, by_id, r.stdout)
                for pkg in 'ab':
                    for b in range(5):
                        if (pkg, b) in bad:
                            continue
                        exe = os.path.join(target, 'debug', f'{pkg}{b}')
                        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                           timeout=300, preexec_fn=limits(3 << 30, 120))
                        cur = None
                        for line in p.stdout.splitlines():
                            w = line.split(' ', 2)
                            if w[0] == 'START':
                                cur = by_id[int(w[1])]
                            elif w[0] == 'OK':
                                n_lits += 1
                                nodes += cur.n
                                aborted += cur.abort is not None
                                types[cur.type] = types.get(cur.type, 0) + 1
                                deepest = max(deepest, cur.depth)
                                if cur.n > 1:
                                    texts.add(hashlib.md5(cur.text.encode()).digest())
                                if len(samples) < 4 and 2 < cur.n < 9:
                                    samples.append({'literal': cur.text, 'tree': cur.exp})
                            elif w[0] == 'FAIL':
                                self.lit_violation(cur, rnd, w[2])
                        if p.returncode != 0 or 'END' not in p.stdout:
                            if cur is not None and p.returncode < 0:
                                self.lit_violation(cur, rnd, f'the program died from signal {-p.returncode}: ' + p.stderr[-400:])
                            else:
                                raise NoAnswer(f'{pkg}{b} ended with {p.returncode}: {p.stderr[-400:]}')
                for k, v in fo.items():
                    forms[k] = forms.get(k, 0) + v
                for k, v in ma.items():
                    marks[k] = marks.get(k, 0) + v
        self.literal_cov = dict(
            evaluations=n_lits, distinct_nontrivial=len(texts), rule=RULES['C22'], samples=samples, nodes_written=nodes,
            evaluations_left_early=aborted, deepest_nesting=deepest, expression_forms=forms, syntax_marks=marks, data_types=types)

    def lit_violation(self, lit, rnd, msg):
        ph = Phase(self, 'literals', 'tools/gen_macros.py', self.seed * 1000 + rnd, 0, 0)
        ph.cmd = ['python3', 'tools/gen_macros.py', '<dir>', str(self.seed * 1000 + rnd), '60', f'# literal {lit.id} in {lit.bin}']
        self.violation(ph, lit.id, 'literal', msg, [lit.text, 'written: ' + json.dumps(lit.exp), lit.code])

    def rejected(self, src, target, pkg, b, by_id, text):
        """A program with literals does not compile while its support does."""
        ids = [x for x in by_id.values() if x.bin == (pkg, b)]
        path = os.path.join(src, pkg, 'src', 'bin', f'{pkg}{b}.rs')
        m = re.search(re.escape(f'{pkg}/src/bin/{pkg}{b}.rs') + r':(\d+):', text)
        lit = ids[0]
        if m:
            with open(path) as f:
                lines = f.read().splitlines()[:int(m.group(1))]
            for line in lines:
                k = re.match(r'mod c(\d+) \{', line)
                if k:
                    lit = by_id[int(k.group(1))]
        errs = [x for x in text.splitlines() if f'{pkg}{b}.rs' in x and 'error' in x][:3]
        self.lit_violation(lit, 0, 'a literal of the documented grammar does not compile: ' + ' | '.join(errs))

    # -- costs ---------------------------------------------------------------
    def cost(self):
        """Instruction counts under callgrind: the cost for each unit of work on
        large trees against the same operation on small ones."""
        if not shutil.which('valgrind'):
            raise NoAnswer('valgrind is not installed')
        b = build('rel-nostd')
        cases = 8176 * (12 if self.tier == 'thorough' else 1)
        env = dict(os.environ, RUST_BACKTRACE='0')
        ps, ops = [], None
        vg = ['valgrind', '-q', '--tool=callgrind', '--collect-atstart=no']
        args = ['cost', '--seed', str(self.seed), '--cases', str(cases)]
        for k in range(CPUS):
            d = os.path.join(self.dir, f'cg{k}')
            os.makedirs(d)
            ps.append((k, d, subprocess.Popen(
                vg + [f'--callgrind-out-file={d}/cg', b] + args + ['--start', str(k), '--stride', str(CPUS)],
                stdout=open(os.path.join(d, 'out'), 'w'), stderr=open(os.path.join(d, 'err'), 'w'),
                stdin=subprocess.DEVNULL, env=env, cwd=d, preexec_fn=limits(0, 0))))
        meas, shapes = {}, set()
        try:
            for k, d, p in ps:
                while True:
                    # Dumps are read as they come, there are many.
                    done = p.poll() is not None
                    for f in sorted(glob.glob(d + '/cg.*')):
                        if not done and time.time() - os.path.getmtime(f) < 2:
                            continue
                        label = total = None
                        with open(f, errors='replace') as g:
                            for line in g:
                                if line.startswith('desc: Trigger: Client Request:'):
                                    label = line
                                elif line.startswith('summary:'):
                                    total = int(line.split()[1])
                                    break
                        os.remove(f)
                        if label is None or total is None:
                            continue
                        m = dict(x.split('=', 1) for x in label.split() if '=' in x)
                        meas.setdefault(int(m['op']), ([], []))[int(m['large'])].append(
                            (int(m['case']), int(m['q']), total, m))
                        shapes.add((m['op'], m['shape'], m['large'], m['at'], m['kept']))
                    if done:
                        break
                    if self.left() < 30:
                        raise NoAnswer('the measurements did not end within the time limit')
                    time.sleep(0.3)
                with open(os.path.join(d, 'out')) as f:
                    last = f.read().strip().splitlines()[-1:]
                if p.returncode != 0 or not last or not last[0].startswith('ops='):
                    with open(os.path.join(d, 'err')) as f:
                        raise NoAnswer(f'measuring process {k} ended with {p.returncode}: ' + f.read()[-600:])
                ops = last[0][4:].split('|')
        finally:
            for _, _, p in ps:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
        n, worst, samples = 0, {}, []
        for o, name in enumerate(ops):
            small, large = meas.get(o, ([], []))
            if len(small) < 10 or len(large) < 10:
                raise NoAnswer(f'{name}: only {len(small)} and {len(large)} measurements')
            n += len(small) + len(large)
            unit = sorted(t / q for _, q, t, _ in small)
            a = unit[len(unit) * 3 // 4]
            over = sorted(((t / (COST_FACTOR * a * q + COST_SLACK), c, q, t, m) for c, q, t, m in large),
                          key=lambda x: -x[0])
            worst[name] = [round(a, 1), round(over[0][0], 3)]
            if len(samples) < 4 and o % 20 == 7:
                c, q, t, m = large[len(large) // 2]
                samples.append(dict(operation=name, setting=m, units=q, instructions=t, small_tree_instructions_per_unit=round(a, 1)))
            if over[0][0] > 1:
                _, c, q, t, m = over[0]
                ph = Phase(self, 'cost', b, self.seed, 0, 0)
                ph.cmd = vg + [b] + args[:3] + ['--cases', str(c + 1), '--only', str(c)]
                self.violation(ph, c, 'cost', f'{name}: {t} instructions for {q} unit(s) of work in a tree of {m["n"]} nodes, '
                               f'against {a:.1f} for each unit in small trees ({sum(x[0] > 1 for x in over)} of {len(over)} settings)',
                               [json.dumps(x[4]) + f' instructions={x[3]}' for x in over[:20]])
        self.cost_cov = dict(
            evaluations=n, distinct_nontrivial=len(shapes), rule=RULES['C23'], samples=samples,
            instructions_counted=sum(t for v in meas.values() for w in v for _, _, t, _ in w),
            operations_measured=len(ops), largest_use_of_the_bound=max(w[1] for w in worst.values()),
            instructions_per_unit_and_use_of_the_bound=worst)

    # -- end -----------------------------------------------------------------
    def coverage(self):
        if self.prop == 'C22':
            return self.literal_cov
        if self.prop == 'C23':
            return self.cost_cov
        cov = dict(evaluations=0, distinct_nontrivial=0, rule=RULES[self.prop], samples=[])
        c = [0] * 24
        builds, sysn, systot, aband, cases = {}, 0, 0, 0, 0
        offs, unwound = [], 0
        big = dict(programs=0, kinds_and_sizes=0)
        for ph in self.phases:
            n = sum(j['cases'] for j in ph.results)
            unwound += sum(j.get('unwound', 0) for j in ph.results)
            if ph.label.startswith('large-'):
                big['programs'] += n
                for j in ph.results:
                    for i, x in enumerate(j['counters']):
                        if x:
                            k = LARGE_NAMES.get(i) or ('locks_or_borrows_or_nodes_made' if i == 16 else f'counter_{i}')
                            big[k] = big.get(k, 0) + x
                continue
            builds[ph.label] = n
            cases += n
            cov['evaluations'] += sum(j['tried'] for j in ph.results)
            if ph.label.startswith('dev-std'):
                sysn += sum(j['systematic'] for j in ph.results)
                systot = max([systot] + [j['systematic_total'] for j in ph.results])
            for j in ph.results:
                aband += j['abandoned']
                offs += j['off']
                for i, x in enumerate(j['counters']):
                    if self.prop == 'C18' and i == 17:
                        c[i] = max(c[i], x)
                    else:
                        c[i] += x
                if len(cov['samples']) < 4:
                    cov['samples'] += [s[:1500] for s in j['samples'][:1]]
        for large in (False, True):
            tabs = [t for ph in self.phases if ph.label.startswith('large-') == large for t in ph.tables if os.path.exists(t)]
            if tabs:
                r = subprocess.run([os.path.join(TARGET, 'dev-std', 'debug', 'dmon'), 'union'] + tabs,
                                   stdout=subprocess.PIPE, text=True)
                k = int(r.stdout.strip() or 0)
                if large:
                    big['kinds_and_sizes'] = k
                else:
                    cov['distinct_nontrivial'] = k
        names = dict(NAMES)
        names.update(U.get(self.prop, {}))
        for i, x in enumerate(c):
            if x and i in names:
                cov[names[i]] = x
        cov['programs_run'] = cases
        cov['programs_per_build'] = builds
        if systot:
            cov['systematic_programs_run'] = sysn
            cov['systematic_programs_total'] = systot
        cov['programs_abandoned'] = aband
        if unwound:
            cov['programs_or_operations_run_while_unwinding'] = unwound
        if offs:
            self.notes.append('abandoned: ' + offs[0][:600])
        if big['programs']:
            cov['large'] = big
        cov.update(self.extra)
        self.abandoned, self.cases = aband, cases
        return cov

    def finish(self):
        cov = self.coverage()
        if self.notes:
            cov['notes'] = self.notes
        if not cov['samples']:
            cov['samples'] = ['(no case was completed)']
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in sorted(set(self.known_seen)):
            say(f'KNOWN-FINDING: property={self.prop} {k}')
        if self.violations:
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            for n, v in enumerate(self.violations[:3]):
                path = os.path.join('replay', f'{self.prop}-{v["build"]}-{v["case"]}.txt')
                with open(os.path.join(VERIF, path), 'w') as f:
                    f.write(f'property {self.prop}, build {v["build"]}, case {v["case"]}\n{v["kind"]}: {v["msg"]}\n'
                            f'again with: {v["cmd"]}\n\n' + '\n'.join(v['trace']) + '\n')
                say(f'{v["kind"]}: {v["msg"]}'[:600])
                say(f'VIOLATION property={self.prop} replay={path}')
            return 1
        say(f'{self.prop} held on {cov["evaluations"]} situations, {cov["distinct_nontrivial"]} distinct ({ev["wall_s"]} s)')
        if cov['evaluations'] < 100 or cov['distinct_nontrivial'] < 50:
            raise NoAnswer('too little was observed')
        if self.prop not in ('C22', 'C23') and self.abandoned * 2 > self.cases:
            raise NoAnswer('more than half of the cases were abandoned: ' + '; '.join(self.notes)[:1500])
        return 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known(prop):
    """Signatures of findings which are recorded, not repaired."""
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(C\d+) (.*)', line.strip())
                if m and m.group(1) == prop:
                    out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    if len(sys.argv) < 2:
        say(__doc__)
        return 2
    if sys.argv[1] == '--setup':
        for name in ('dev-std', 'rel-nostd', 'dev-nostd', 'rel-std'):
            build(name)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in DEADLINE:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    run = Run(prop, tier, seed)
    try:
        if prop == 'C22':
            run.literals()
        elif prop == 'C21':
            run.parity()
        elif prop == 'C23':
            run.cost()
        elif prop in CASES:
            run.ordinary()
        else:
            raise NoAnswer('unknown property')
        return run.finish()
    except NoAnswer as e:
        if run.violations:
            return run.finish()
        say(f'NO ANSWER property={prop}: {e}')
        return 2
    finally:
        run.close()


if __name__ == '__main__':
    sys.exit(main())
