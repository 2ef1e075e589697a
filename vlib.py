"""Runner shared by all checks: builds harnesses from /repo's working tree, runs
their work units in parallel, aggregates, writes evidence, reports violations."""
import os, sys, json, time, subprocess, tempfile, shutil, re, resource, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HASH2_REPO', '/repo')
JOBS = min(16, os.cpu_count() or 4)
H = os.path.join(VERIF, 'harness')

class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.thorough = tier == 'thorough'
        self.t0 = time.time()
        base = os.path.join(VERIF, '.build'); os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '-', dir=base)
        self.states = self.trans = self.traces = 0
        self.viol = []      # (key, text)
        self.samples = []; self.truncated = []
        self.errors = []; self.extra = {}; self.assumptions = []
        self.units = 0

    # ---- building -------------------------------------------------------------
    def sanity(self, cxx):
        """True if the toolchain works at all (so that a failed harness build is the library's doing)."""
        src = os.path.join(self.dir, 'sanity.cpp')
        open(src, 'w').write('#include <vector>\n#include <boost/config.hpp>\n#include <boost/describe.hpp>\nint main(){std::vector<int> v(3); return (int)v.size()-3;}\n')
        r = subprocess.run([cxx, '-std=c++17', src, '-o', src + '.' + os.path.basename(cxx)], capture_output=True, text=True)
        return r.returncode == 0

    def compile(self, src, flags=(), cxx='g++', std='c++17', opt='-O2', name=None, incs=None, compile_only=False, timeout=800):
        name = name or re.sub(r'\W+', '_', '%s_%s_%s_%s_%s' % (os.path.basename(src), cxx, std, opt, '_'.join(flags)))[:150]
        out = os.path.join(self.dir, name)
        path = src if os.path.isabs(src) else os.path.join(H, src)
        cmd = [cxx, '-std=' + std, opt, '-w'] + list(flags) + ['-I' + H] + ['-I' + os.path.join(REPO, 'include')]
        cmd += [path, '-o', out]
        if compile_only: cmd.insert(1, '-c')
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.errors.append('compile timeout: ' + ' '.join(cmd)); return None
        if r.returncode != 0:
            if r.returncode < 0 or 'Killed' in r.stderr or 'out of memory' in r.stderr or 'No space left' in r.stderr:
                self.errors.append('compiler died: ' + ' '.join(cmd) + '\n' + r.stderr[-2000:]); return None
            if not self.sanity(cxx):
                self.errors.append('toolchain not working: ' + r.stderr[-2000:]); return None
            errs = [l for l in r.stderr.splitlines() if 'error' in l or 'static assertion' in l][:6]
            self.viol.append(('compile', 'documented use does not compile (%s): %s' % (' '.join(cmd[:4] + list(flags)), ' | '.join(errs) or r.stderr[:600])))
            return None
        return out

    def compile_many(self, jobs):
        """jobs: list of dicts of compile() arguments; returns outputs in order."""
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda kw: self.compile(**kw), jobs))

    # ---- running --------------------------------------------------------------
    def run_unit(self, exe, unit, args=(), cpu=600, env=None, wrapper=()):
        def lim():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        e = dict(os.environ); e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'}); e.update(env or {})
        cmd = list(wrapper) + [exe] + (['--unit', unit] if unit is not None else []) + (['--thorough'] if self.thorough else []) + list(args)
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', preexec_fn=lim, env=e)
        return p

    def absorb(self, p, label):
        self.units += 1
        done = False
        for l in p.stdout.splitlines():
            if l.startswith('VIOL key='):
                k, _, t = l[9:].partition(' '); self.viol.append((k, '[%s] %s' % (label, t)))
            elif l.startswith('SAMPLE '):
                if len(self.samples) < 40: self.samples.append('[%s] %s' % (label, l[7:]))
            elif l.startswith('STAT '):
                d = dict(x.split('=') for x in l[5:].split())
                self.states += int(d['states']); self.trans += int(d['trans']); self.traces += int(d['traces'])
                if d.get('truncated') == '1': self.truncated.append(label)
            elif l.startswith('INFO '):
                k, _, v = l[5:].partition('='); self.extra.setdefault(k, []).append('[%s] %s' % (label, v))
            elif l == 'DONE': done = True
        if not done or p.returncode != 0:
            if p.returncode == 9 and not p.stdout: self.errors.append('no such unit ' + label)
            elif p.returncode == -signal.SIGKILL: self.errors.append('killed: ' + label)
            elif 'std::bad_alloc' in p.stderr: self.errors.append('out of memory: ' + label)
            else:
                case = re.findall(r'CRASHCASE (.*)', p.stderr)
                why = [l for l in p.stderr.splitlines() if re.search(r'runtime error|ERROR: |Assertion|WARNING: Memory|SUMMARY', l)][:3]
                what = 'CPU time limit exceeded' if p.returncode in (-signal.SIGXCPU,) else 'abnormal end (status %d)' % p.returncode
                self.viol.append(('crash', '[%s] %s at case "%s": %s' % (label, what, case[-1] if case else '?', ' | '.join(why) or p.stderr[-300:])))

    def run_all(self, exes, args=(), cpu=600, env=None, only=None):
        """exes: list of (label, exe). Runs every unit of every executable in a pool."""
        work = []
        for label, exe in exes:
            if exe is None: continue
            r = subprocess.run([exe, '--list'], capture_output=True, text=True)
            if r.returncode != 0: self.errors.append('cannot list units of %s: %s' % (label, r.stderr[-500:])); continue
            us = r.stdout.split()
            if only: us = [u for u in us if re.search(only, u)]
            if not us: self.errors.append('no units in ' + label)
            work += [(label, exe, u) for u in us]
        with ThreadPoolExecutor(JOBS) as ex:
            fs = {ex.submit(self.run_unit, exe, u, args, cpu, env): (label, u) for label, exe, u in work}
            for f in as_completed(fs):
                label, u = fs[f]
                self.absorb(f.result(), (label + ':' if label else '') + u)

    # ---- finishing --------------------------------------------------------------
    def finish(self, rule, level='model_checking', exhaustive=True, **cov):
        known = load_known(self.pid)
        new, seen = [], set()
        for k, t in self.viol:
            if k in known and k not in ('crash', 'compile'): seen.add(k)
            else: new.append((k, t))
        coverage = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
                    'samples': self.samples[:12] or ['none'], 'rule': rule, 'work_units': self.units,
                    'exhaustive': bool(exhaustive and not self.truncated and not self.errors), 'truncated_units': self.truncated[:20]}
        coverage.update(cov); coverage.update({k: v[:10] for k, v in self.extra.items()})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': coverage,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        edir = os.path.join(VERIF, 'evidence'); os.makedirs(edir, exist_ok=True)
        json.dump(ev, open(os.path.join(edir, self.pid + '.json'), 'w'), indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in sorted(seen): print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, known[k]))
        print('%s tier=%s units=%d states=%d transitions=%d traces=%d wall=%.1fs' % (self.pid, self.tier, self.units, self.states, self.trans, self.traces, ev['wall_s']))
        if new:
            rp = os.path.join(edir, self.pid + '.replay.json')
            json.dump({'property': self.pid, 'tier': self.tier, 'rerun': 'cd /verif && python3 check.py %s --tier %s' % (self.pid, self.tier),
                       'violations': [{'key': k, 'case': t} for k, t in new[:50]]}, open(rp, 'w'), indent=1)
            for k, t in new[:5]: print('  %s: %s' % (k, t[:900]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.errors:
            for e in self.errors[:5]: print('ERROR: ' + e[:1500], file=sys.stderr)
            return 3
        return 0

def load_known(pid):
    r = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3).strip()
    return r
