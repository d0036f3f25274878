#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C01 [--tier quick|thorough]

 1. TLC model-checks the laws of the property on the specification itself.
 2. The recorder (harness/, a crate that depends on /repo by path) is built from
    /repo's working tree in one or more configurations (target features,
    optimization) and run; it logs public calls with operands and outcomes.
    For the stateful properties the calls are behaviours TLC generated from the
    specification.
 3. TLC validates every log against the specification (spec/SimdTrace.tla).
 4. A few log lines are corrupted on purpose and must be rejected.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: it did not.
Exit 2: the check itself failed.
"""
import sys, os, json, subprocess, time, shutil, re, random, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(ROOT, 'spec')
MATHREF = os.path.join(SPEC, 'mathref.ndjson')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TOOLCHAIN = 'nightly-2023-07-30'
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, CONFIGS

class Tool(Exception):
    pass

def log(*a):
    print(*a, flush=True)

def cpu_flags():
    try:
        for line in open('/proc/cpuinfo'):
            if line.startswith('flags'):
                return set(line.split(':')[1].split())
    except OSError:
        pass
    return set()

CPU_NAMES = {'sse3': 'pni', 'sse4.1': 'sse4_1', 'sse4.2': 'sse4_2', 'lzcnt': 'abm'}
def supported(cfg):
    fl = cpu_flags()
    for f in CONFIGS[cfg]['features']:
        if CPU_NAMES.get(f, f) not in fl:
            return False
    return True

class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.P = PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.work = os.path.join(ROOT, 'work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.budget = 840 if tier == 'quick' else 6 * 3600
        self.states = self.trans = self.traces = self.events = 0
        self.lock = threading.Lock()
        self.samples, self.notes, self.known_hit = [], {}, []
        self.violations = []
        self.jit = ['-XX:TieredStopAtLevel=1'] if tier == 'quick' else []
        self.known = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']

    def left(self):
        return max(5, self.budget - (time.time() - self.t0))

    # ---------------------------------------------------------------- TLC ---
    def tlc(self, module, cfg, env=None, workers=1, args=(), tag='', heap='2500m', jit=None):
        md = os.path.join(self.work, 'md-%s-%s' % (module, tag))
        e = dict(os.environ); e.update(env or {})
        if module == 'SimdTrace':
            e['MATHREF'] = MATHREF
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss32m',
               '-Djava.io.tmpdir=' + self.work] + (self.jit if jit is None else jit) + ['-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', md,
               '-config', cfg, '-noGenerateSpecTE'] + list(args) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=self.left())
        except subprocess.TimeoutExpired:
            raise Tool('TLC timed out on %s %s' % (module, tag))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        if m:
            with self.lock:
                self.trans += int(m[-1][0]); self.states += int(m[-1][1])
        return out

    def model_check(self, item):
        module, cfg = item
        out = self.tlc(module, cfg, workers=3, tag=cfg.replace('.cfg', ''), env={'VERIF_TIER': self.tier}, jit=[])
        if 'Model checking completed. No error has been found' not in out:
            raise Tool('the specification violates its own law (%s):\n%s' % (cfg, out[-3000:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        self.notes.setdefault('model_checked', {})[cfg] = int(m[-1][1])

    # --------------------------------------------------------------- build ---
    def build(self, cfg, bins=None):
        bins = bins or [self.P['bin']]
        c = CONFIGS[cfg]
        env = dict(os.environ)
        for k in ('RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
            env.pop(k, None)
        env['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
        env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
        env['RUSTFLAGS'] = '--cap-lints allow' + (
            ' -C target-feature=' + ','.join('+' + f for f in c['features']) if c['features'] else '')
        td = os.path.join(ROOT, 'target', cfg)
        cmd = ['cargo', 'build', '--offline'] + sum((['--bin', b] for b in bins), []) + ['--target-dir', td] + (
            ['--release'] if c['release'] else [])
        try:
            p = subprocess.run(cmd, cwd=os.path.join(ROOT, 'harness'), env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=self.left())
        except subprocess.TimeoutExpired:
            raise Tool('build timed out (%s)' % cfg)
        if p.returncode != 0:
            # does the library itself still build?  Then what is missing is part of its interface.
            q = subprocess.run(['cargo', 'build', '--offline', '--lib', '--features', 'into_bits', '--manifest-path',
                                REPO + '/Cargo.toml', '--target-dir', os.path.join(ROOT, 'target', 'lib-' + cfg)] +
                               (['--release'] if c['release'] else []),
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=self.left())
            if q.returncode != 0:
                raise Tool('/repo does not build (%s):\n%s' % (cfg, q.stdout[-3000:]))
            self.violation('a program using the documented interface does not compile',
                           {'config': cfg, 'compiler': p.stdout[-4000:]})
            return None
        return os.path.join(td, 'release' if c['release'] else 'debug', bins[0])

    # -------------------------------------------------------------- record ---
    def record(self, cfg, exe, shards, scale, extra, tag=''):
        pre = os.path.join(self.work, 'tr-' + tag + cfg)
        cmd = [exe, pre, str(shards), str(self.seed), str(scale)] + extra
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=min(self.left(), 300 if self.tier == 'quick' else 3600))
        except subprocess.TimeoutExpired:
            self.violation('the program did not terminate', {'config': cfg, 'cmd': cmd})
            return None
        if p.returncode != 0:
            self.violation('the program crashed (exit status %s)' % p.returncode,
                           {'config': cfg, 'cmd': [exe, pre, str(shards), str(self.seed), str(scale)] + extra,
                            'stderr': p.stderr[-2000:], 'stdout': p.stdout[-500:]})
            return None
        return [pre + '.%d.ndjson' % i for i in range(shards)]

    def validate(self, path, cfg, depth=0):
        """True / False; rejected events that are not listed findings are reported."""
        n = sum(1 for _ in open(path))
        if n == 0:
            return True
        out = self.tlc('SimdTrace', 'SimdTrace.cfg', env={'TRACE': path}, tag=os.path.basename(path))
        m = re.search(r'<<"(ACCEPTED|REJECTED)", (\d+)>>', out)
        if not m or ('No error has been found' not in out):
            raise Tool('TLC failed on %s:\n%s' % (path, out[-3000:]))
        if m.group(1) == 'ACCEPTED':
            if int(m.group(2)) != n:
                raise Tool('trace length mismatch')
            with self.lock:
                self.traces += 1
                self.events += n
            return True
        k = int(m.group(2))
        lines = open(path).read().splitlines()
        ev = json.loads(lines[k - 1])
        f = self.is_known(ev)
        if f is not None and depth < 200:
            with self.lock:
                if f not in self.known_hit:
                    self.known_hit.append(f)
            # pure events only: the rest of the trace does not depend on this one
            with open(path, 'w') as o:
                o.write('\n'.join(lines[:k - 1] + lines[k:]) + '\n')
            return self.validate(path, cfg, depth + 1)
        ctx = [json.loads(x) for x in lines[max(0, k - 6):k - 1]] if ev['op'] in STATEFUL else []
        self.violation('the specification does not allow the outcome of this call',
                       {'config': cfg, 'event': ev, 'preceding': ctx, 'trace': path, 'line': k})
        return False

    def is_known(self, ev):
        for i, f in enumerate(self.known):
            if f['property'] == self.prop and all(ev.get(a) == b for a, b in f['event'].items()):
                return i
        return None

    # -------------------------------------------------- negative self-test ---
    def corrupt(self, path, j):
        rnd = random.Random(self.seed * 1000 + j)
        lines = open(path).read().splitlines()
        cand = [i for i, x in enumerate(lines) if '"op":"begin"' not in x]
        accepted = 0
        for _ in range(50):
            i = rnd.choice(cand)
            ev = json.loads(lines[i])
            r = ev.get('r')
            if r is None or ev.get('p') == 1 or r == []:
                continue
            if ev['op'] in SLACK:
                continue
            if isinstance(r, str):
                ev['r'] = r[:-1] + '#'
            else:
                q = rnd.randrange(len(r))
                if ev['op'] == 'math':
                    q = len(r) - 1          # sign and exponent: far outside any tolerance
                    if (r[q] & 127) > 126:
                        continue
                ev['r'][q] = (r[q] + 1) % 256
            lo = 0
            if ev['op'] in STATEFUL:
                lo = max(q for q in range(i) if '"op":"begin"' in lines[q])
            p = os.path.join(self.work, 'neg-%d.ndjson' % j)
            with open(p, 'w') as o:
                o.write('\n'.join(lines[lo:i] if ev['op'] in STATEFUL else []) + ('\n' if ev['op'] in STATEFUL else ''))
                o.write(json.dumps(ev) + '\n')
            want = (i - lo + 1) if ev['op'] in STATEFUL else 1
            out = self.tlc('SimdTrace', 'SimdTrace.cfg', env={'TRACE': p}, tag='neg%d' % j)
            m = re.search(r'<<"(ACCEPTED|REJECTED)", (\d+)>>', out)
            if not m:
                raise Tool('negative self-test failed to run:\n' + out[-2000:])
            if m.group(1) == 'ACCEPTED' and accepted < 5:
                accepted += 1           # e.g. the payload of a NaN, which is free: try another event
                continue
            if m.group(1) != 'REJECTED' or int(m.group(2)) != want:
                raise Tool('binding lost: a corrupted outcome was accepted: %s' % json.dumps(ev)[:500])
            return True
        raise Tool('no event to corrupt')

    # ------------------------------------------------------------- results ---
    def violation(self, what, data):
        with self.lock:
            k = len(self.violations)
            d = os.path.join(ROOT, 'work', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%d.json' % (self.prop, k))
            data.update(property=self.prop, what=what, seed=self.seed, tier=self.tier,
                        rerun='VERIF_SEED=%d python3 tools/check.py %s --tier %s' % (self.seed, self.prop, self.tier))
            json.dump(data, open(p, 'w'), indent=1)
            self.violations.append((what, p))

    def generate(self, g=None, name='programs'):
        g = g or self.P.get('gen')
        if not g:
            return []
        progs = []
        for (module, cfg, sim) in g:
            args = ['-seed', str(self.seed), '-simulate', 'num=%d' % (sim[0] * (1 if self.tier == 'quick' else 6)),
                    '-depth', str(sim[1])] if sim else []
            out = self.tlc(module, cfg, args=args, tag='gen-' + cfg, env={'VERIF_TIER': self.tier})
            got = re.findall(r'^"?PROG (.*?)"?$', out, re.M)
            got = [x.replace('\\"', '"') for x in got]
            if not got:
                raise Tool('no behaviours generated by %s:\n%s' % (cfg, out[-2000:]))
            progs += got
        seen, uniq = set(), []
        for p in progs:
            if p not in seen:
                seen.add(p); uniq.append(p)
        path = os.path.join(self.work, name + '.ndjson')
        with open(path, 'w') as o:
            for p in uniq:
                json.loads(p)
                o.write(p + '\n')
        with self.lock:
            self.notes['behaviours_generated'] = self.notes.get('behaviours_generated', 0) + len(uniq)
        return [path]

    # ------------------------------------- other recorders, across configurations ---
    def cross(self, ex, exes, progs):
        """The recorders of the other properties, run identically in every configuration: where
        two configurations disagree on a call, the specification must allow both outcomes."""
        scale = self.P['cross_scale'][self.tier]
        futs = {}
        for b in self.P['cross']:
            for c in exes:
                exe = os.path.join(os.path.dirname(exes[c]), b)
                extra = progs.get(b, [])
                futs[b, c] = ex.submit(self.record, c, exe, 4, scale, extra, b + '-')
        files = {k: f.result() for k, f in futs.items()}
        cfgs = list(exes)
        total = differ = 0
        jobs = []
        for b in self.P['cross']:
            ref = files[b, cfgs[0]]
            if not ref:
                continue
            out = os.path.join(self.work, 'differ-%s.ndjson' % b)
            o = open(out, 'w')
            if b in self.P['cross_stateful']:
                # a behaviour is judged as a whole
                seen = set()
                for i, p in enumerate(ref):
                    raw = open(p, 'rb').read()
                    total += raw.count(b'\n')
                    for c in cfgs[1:]:
                        if files[b, c] and open(files[b, c][i], 'rb').read() != raw:
                            for q in (p, files[b, c][i]):
                                if q not in seen:
                                    seen.add(q); jobs.append((q, b + '/' + c))
            else:
                # single calls: those that not all configurations logged alike
                def lines(c):
                    return set(l for p in files[b, c] for l in open(p, 'rb').read().splitlines())
                first = lines(cfgs[0])
                total += len(first)
                odd = set()
                for c in cfgs[1:]:
                    if files[b, c]:
                        odd |= first ^ lines(c)
                differ += len(odd)
                for z in sorted(odd):
                    o.write(z.decode() + '\n')
            o.close()
            if os.path.getsize(out):
                jobs.append((out, b))
        self.notes['cross_calls_per_configuration'] = total
        self.notes['cross_calls_with_differing_outcomes_judged'] = differ
        return jobs

    def run(self):
        P, tier = self.P, self.tier
        cfgs = [c for c in P['configs'][tier] if supported(c)]
        self.notes['configurations'] = cfgs
        self.notes['configurations_skipped'] = [c for c in P['configs'][tier] if c not in cfgs]
        shards = P.get('shards', 8)
        with ThreadPoolExecutor(16) as ex:
            bins = [P['bin']] + P.get('cross', [])
            fb = {c: ex.submit(self.build, c, bins) for c in cfgs}
            fp = {b: ex.submit(self.generate, PROPS[b.upper()]['gen'], 'programs-' + b) for b in P.get('cross', []) if PROPS[b.upper()].get('gen')}
            fm = [ex.submit(self.model_check, it) for it in P['mc']]
            fg = ex.submit(self.generate)
            extra = fg.result() + ([MATHREF] if P.get('mathref') else [])
            for f in fm:
                f.result()
            exes = {c: fb[c].result() for c in cfgs}
            progs = {b: f.result() for b, f in fp.items()}
        base, base_lines = None, 0
        with ThreadPoolExecutor(8) as ex:
            files = {}
            for c, fu in {c: ex.submit(self.record, c, exes[c], shards, P['scale'][tier], extra) for c in cfgs if exes[c]}.items():
                files[c] = fu.result()
            jobs, same = [], 0
            ref = None
            for c in cfgs:
                if not files.get(c):
                    continue
                if ref is None:
                    ref = files[c]
                    jobs += [(p, c) for p in files[c]]
                else:
                    for p, q in zip(files[c], ref):
                        if open(p, 'rb').read() == open(q, 'rb').read():
                            same += 1
                        else:
                            jobs.append((p, c))
            self.notes['traces_identical_to_a_validated_one'] = same
            if ref:
                self.describe(ref)
                neg = [ex.submit(self.corrupt, ref[j % len(ref)], j) for j in range(P.get('neg', 2))]
            if P.get('cross'):
                jobs += self.cross(ex, {c: exes[c] for c in cfgs if exes[c]}, progs)
            list(ex.map(lambda a: self.validate(*a), jobs))
            if ref and not self.violations:
                for f in neg:
                    f.result()
                self.notes['corrupted_traces_rejected'] = len(neg)
            self.traces += same
        if ref:
            need = P.get('need', 100)
            if self.notes['events_recorded'] < need and not self.violations:
                raise Tool('only %d events recorded' % self.notes['events_recorded'])

    def describe(self, files):
        ops, types, n, obs = {}, set(), 0, 0
        rnd = random.Random(self.seed)
        for p in files:
            for line in open(p):
                n += 1
                m = re.match(r'\{"op":"([^"]*)","t":"([^"]*)"', line)
                ops[m.group(1)] = ops.get(m.group(1), 0) + 1
                types.add(m.group(2))
                o = re.search(r'"obs":(\d+)', line)
                obs += int(o.group(1)) if o else 0
                if rnd.random() < 0.0005 and len(self.samples) < 5 and len(line) < 1500:
                    self.samples.append(json.loads(line))
        if not self.samples:
            self.samples = [json.loads(open(files[0]).readline())]
        self.notes.update(events_recorded=n, lane_observations_behind_them=obs, events_per_operation=ops, vector_types=len(types))

    def finish(self):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples)
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=['x86-64, little-endian; rustc ' + TOOLCHAIN,
                               'TLC evaluates the specification correctly; the recorder reads vectors back as raw memory',
                               'operands outside the exhaustive ranges are sampled (edge values and VERIF_SEED-driven)'],
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)

STATEFUL = {'x', 'r_new', 'r_array', 'r_bits', 'r_splat', 'r_default', 'r_null', 'r_toarray', 'r_extract', 'r_extract_u',
            'r_replace', 'r_replace_u', 'm_load_a', 'm_load_u', 'm_load_au', 'm_load_uu', 'm_store_a', 'm_store_u',
            'm_store_au', 'm_store_uu', 'g_read', 'g_write'}
# operations whose specification deliberately admits several outcomes: not used for the negative self-test
SLACK = {'sqrte', 'rsqrte', 'recpre', 'layout', 'shash'}

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    c = Check(prop, tier)
    try:
        c.run()
    except Tool as e:
        if not c.violations:
            log('ERROR', e)
            c.finish()
            return 2
    c.finish()
    for i in c.known_hit:
        log('KNOWN-FINDING: property=%s %s' % (prop, c.known[i]['what']))
    if c.violations:
        for what, p in c.violations[:5]:
            log('# ' + what)
            log('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    log('OK %s: %d events in %d traces accepted, %d states, %.0f s' % (prop, c.events, c.traces, c.states, time.time() - c.t0))
    # traces are large: keep nothing of a clean run
    shutil.rmtree(c.work, ignore_errors=True)
    return 0

if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:      # anything unforeseen is an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
