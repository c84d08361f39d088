#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses against /repo/include, runs the
seeded cases over all cores, routes every report through known_findings.txt, writes
evidence/<ID>.json.  Exit 0: held on everything observed; 1: VIOLATION; 2: no answer."""
import glob, hashlib, json, os, random, re, resource, shlex, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS, BUILDS   # noqa: E402

NCPU = min(os.cpu_count() or 8, 8)


def build_seed(seed, build):
    # every build sees its own cases
    return seed * 1000003 + sum(ord(c) * (i + 1) for i, c in enumerate(build))


def uname(unit):
    return os.path.splitext(unit['src'])[0] + ('_%d' % unit['part'] if 'part' in unit else '')


class NoAnswer(Exception):
    pass


def cpu_flags():
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'):
                return set(l.split(':', 1)[1].split())
    except OSError:
        pass
    return set()


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> [harness=<src>] [build=<build>] :: <what fails>` (fixed: lines suppress nothing)."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+::\s*(.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def limits(as_gb):
    def f():
        if as_gb:
            resource.setrlimit(resource.RLIMIT_AS, (as_gb << 30, as_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, 64 << 20))
    return f


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = CHECKS[prop]
        self.bdir = os.path.join(HERE, 'build', prop)
        shutil.rmtree(self.bdir, ignore_errors=True)
        os.makedirs(self.bdir)
        self.rdir = os.path.join(HERE, 'replays', prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self.lock = threading.Lock()
        self.violations = []      # dicts
        self.evals = {}
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.runs = []
        self.errors = []
        self.records = {}         # (unit, scenario, index, label) -> {build: value}
        self.t0 = time.time()

    def useed(self, unit):
        return self.seed * 1000003 if self.spec.get('cross') else build_seed(self.seed, unit['build'])

    # ---- build
    # the translation units of the monitored programs: headers alone, together in seeded orders, through the umbrella
    def plan(self, unit):
        rnd = random.Random('%d %s' % (self.seed, unit['build']))
        hs = [h for h in unit['headers']]
        us = [('only ' + h, [h]) for h in hs] if unit['singles'] or self.tier != 'quick' else []
        us += [('umbrella', ['']), ('umbrella, then all', [''] + hs)]
        for k in range(unit['orders'] if self.tier == 'quick' else 30):
            o = hs + ['']
            rnd.shuffle(o)
            us.append(('all in order %d, first %s' % (k, o[0] or 'umbrella'), o))
        for k in range(4 if self.tier == 'quick' else 40):
            us.append(('some %d' % k, rnd.sample(hs, 2 + rnd.randrange(4))))
        return us, rnd

    def build_units(self, unit, exe, b):
        d = exe + '.units'
        os.makedirs(d, exist_ok=True)
        us, rnd = self.plan(unit)
        inc = ['-std=c++17', '-w', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(HERE, 'harness', 'tu')]
        jobs = []
        for n, (what, hs) in enumerate(us):
            name = 'tu_%d' % n
            src = ''
            for h in hs:
                src += '#include "%s"\n' % ('sim_ds/' + h + '.hpp' if h else 'sim_ds.hpp')
            offered = {x.split('/')[-1] for h in hs for x in ([h] if h else unit['umbrella'])}
            src += ''.join('#define TU_%s\n' % x for x in sorted(offered))
            src += '#define TU_NAME %s\n#define TU_WHAT "%s"\n#include "body.hpp"\n' % (name, what)
            f = os.path.join(d, name + '.cpp')
            open(f, 'w').write(src)
            fl = rnd.choice(unit['unit_flags'])
            jobs.append((name, what, f, fl[:1] + inc + fl[1:] + ['-fPIC', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-c', f, '-o', f[:-4] + '.o']))
        good = []

        def one(j):
            name, what, f, cmd = j
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode < 0 or 'Killed' in p.stdout or 'cannot allocate' in p.stdout or 'No space left' in p.stdout:
                raise NoAnswer('compiler ended with %d: %s' % (p.returncode, p.stdout[-2000:]))
            if p.returncode:
                return name, what, f, cmd, p.stdout
            q = subprocess.run(cmd[:1] + b['flags'] + ['-shared', '-Wl,-Bsymbolic', f[:-4] + '.o', '-o', os.path.join(d, name + '.so')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            return name, what, f, cmd, q.stdout if q.returncode else None
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, jobs))
        for name, what, f, cmd, err in res:
            if err is None:
                good.append(name)
            else:
                self.add(dict(key='unit:%s' % re.sub(r' \d+.*', '', what).replace(' ', '-'), scenario='loaded_exchange', index=0, src=open(f).read(), cmd=cmd,
                              msg='no program can have the unit [%s]: %s' % (what, '; '.join(l for l in err.splitlines() if 'error' in l or 'undefined' in l or 'multiple' in l)[:900])), unit, None, None)
        self.counters['tu.units_built_' + unit['build']] = len(good)
        open(os.path.join(d, 'list'), 'w').write('\n'.join(good))
        g = os.path.join(d, 'linked.cpp')
        open(g, 'w').write('#include "tu.hpp"\n' + ''.join('extern "C" TuUnit %s();\n' % n for n in good) + 'extern "C" int tu_linked(TuUnit** o) { static TuUnit v[] = {%s}; *o = v; return %d; }\n' % (', '.join(n + '()' for n in good), len(good)))
        main = b['cxx'] + b['flags'] + ['-std=c++17', '-w', '-I', os.path.join(HERE, 'harness'), '-I', os.path.join(HERE, 'harness', 'tu'), os.path.join(HERE, 'harness', unit['src'])]
        objs = [os.path.join(d, n + '.o') for n in good]
        p = subprocess.run(main + [g] + objs + ['-o', exe, '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 0:
            return exe
        self.add(dict(key='link', scenario='linked_exchange', index=0, cmd=main + [g] + objs,
                      msg='no program can have these units together: ' + '; '.join(l for l in p.stdout.splitlines() if 'multiple' in l or 'undefined' in l or 'error' in l)[:900]), unit, None, None)
        p = subprocess.run(main + ['-o', exe, '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode:
            raise NoAnswer('build failed: %s\n%s' % (' '.join(main), p.stdout[-4000:]))
        return exe

    def build(self, unit):
        src, bname = unit['src'], unit['build']
        b = BUILDS[bname]
        exe = os.path.join(self.bdir, uname(unit) + '.' + bname)
        if unit.get('headers'):
            return self.build_units(unit, exe, b)
        cmds = []
        objs = []
        for extra in unit.get('extra', []):   # (file, flags): compiled apart
            o = os.path.join(self.bdir, uname(unit) + '.' + extra[0].replace('.', '_') + '.' + bname + '.o')
            cmds.append(b['cxx'] + extra[1] + ['-c', os.path.join(HERE, 'harness', extra[0]), '-o', o])
            objs.append(o)
        cmds.append(b['cxx'] + b['flags'] + unit.get('flags', []) + (['-DPART=%d' % unit['part']] if 'part' in unit else []) + ['-std=c++17', '-w', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(HERE, 'harness'),
                                             os.path.join(HERE, 'harness', src)] + objs + ['-o', exe] + b.get('ld', []))
        for c in cmds:
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if p.returncode != 0:
                raise NoAnswer('build failed: %s\n%s' % (' '.join(c), p.stdout[-4000:]))
        return exe

    # ---- run one shard
    def shard(self, unit, exe, k, n):
        b = BUILDS[unit['build']]
        scale = unit.get('scale', 1.0) * (self.spec.get('thorough', 20) if self.tier == 'thorough' else 1)
        tag = '%s.%d' % (os.path.basename(exe), k)
        out = os.path.join(self.bdir, tag + '.json')
        prog = os.path.join(self.bdir, tag + '.prog')
        skipf = os.path.join(self.bdir, tag + '.skip')
        open(skipf, 'w').close()
        env = dict(os.environ)
        env.update(b.get('env', {}))
        if 'MALLOC_PERTURB_' in env:
            env['MALLOC_PERTURB_'] = str([85, 170, 255, 1, 165, 90, 128, 127][k % 8])
        base = b.get('wrap', []) + [exe, '--seed', str(self.useed(unit)), '--scale', repr(scale), '--cpu', str(b.get('cpu', 20))]
        if self.tier == 'thorough':
            base.append('--thorough')
        if b.get('sanitized'):
            base.append('--sanitized')
        timeout = 800 if self.tier == 'quick' else 6 * 3600
        for attempt in range(6):
            for f in (out, prog, out + '.rec'):
                if os.path.exists(f):
                    os.remove(f)
            args = base + ['--shard', str(k), '--shards', str(n), '--out', out, '--progress', prog, '--skip', skipf]
            rc, err = self.spawn(args, env, b, timeout)
            if rc in (0, 1) and os.path.exists(out):
                d = json.load(open(out))
                if d['complete']:
                    self.merge(unit, d, out, args, env)
                    return
            if rc == 'timeout':
                raise NoAnswer('wall clock limit of %s reached' % tag)
            # crashed: attribute to the running case
            where = self.read_progress(prog)
            if where is None:
                raise NoAnswer('%s ended with %s outside any case:\n%s' % (tag, rc, err[-3000:]))
            scen, idx = where
            only = base + ['--only', '%s:%d' % (scen, idx)]
            if rc == 97 or 'MON-HANG' in err:
                key = 'hang:%s' % scen
                rc2, err2 = self.spawn(only, env, b, timeout)     # alone, with the whole budget again
                if not (rc2 == 97 or 'MON-HANG' in err2):
                    if rc2 not in (0, 1):
                        key, err = self.crash_key(scen, rc2, err2), err2
                    else:
                        raise NoAnswer('%s: case %s:%d ran out of CPU time once and not again' % (tag, scen, idx))
            else:
                key = self.crash_key(scen, rc, err)
            if os.path.exists(out):        # violations flushed before the crash
                self.merge(unit, json.load(open(out)), out, args, env)
            self.add(dict(key=key, scenario=scen, index=idx, msg=self.digest(err)), unit, only, env)
            only = self.spec.get('only')
            if not self.is_known(key) and not (only and not key.startswith(only)):
                return
            with open(skipf, 'a') as f:
                f.write('%s %d\n' % (scen, idx))
        raise NoAnswer('%s kept crashing on known findings' % tag)

    def spawn(self, args, env, b, timeout):
        p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, preexec_fn=limits(b.get('as_gb', 0)),
                             start_new_session=True, cwd=self.bdir)
        try:
            o, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return 'timeout', ''
        return p.returncode, o.decode('utf8', 'replace')

    @staticmethod
    def read_progress(prog):
        try:
            d = open(prog, 'rb').read()
        except OSError:
            return None
        if len(d) < 13:
            return None
        idx = int.from_bytes(d[:8], 'little')
        active = int.from_bytes(d[8:12], 'little')
        if not active:
            return None
        return d[12:].split(b'\0')[0].decode(), idx

    @staticmethod
    def crash_key(scen, rc, err):
        m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', err)
        if m:
            return 'crash:%s:%s' % (scen, m.group(2))
        m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', err)
        if m:
            return 'race:%s:%s' % (scen, m.group(1).replace(' ', '-'))
        m = re.search(r'runtime error: ([^\n]*)', err)
        if m:
            return 'ub:%s:%s' % (scen, re.sub(r'[^a-z]+', '-', re.sub(r'0x[0-9a-f]+|\d+', '', m.group(1).lower()))[:60].strip('-'))
        m = re.search(r'Assertion [`\'](.*?)\' failed', err)
        if m or '__glibcxx_assert_fail' in err:
            return 'assert:%s' % scen
        m = re.search(r'==\d+== (Invalid (?:read|write)|Conditional jump|Use of uninitialised|Syscall param)', err)
        if m:
            return 'memcheck:%s:%s' % (scen, m.group(1).replace(' ', '-'))
        return 'crash:%s:exit%s' % (scen, rc)

    @staticmethod
    def digest(err):
        lines = [l for l in err.splitlines() if re.search(r'ERROR:|runtime error|Assertion|assertion|SUMMARY|/repo/include|MON-HANG|WARNING|Invalid|Conditional|terminate|what\(\)', l)]
        return ' / '.join(lines[:12])[:1800] or err[-600:]

    def is_known(self, key):
        return any(k == key for k, _ in known_findings(self.prop))

    def add(self, v, unit, args, env):
        with self.lock:
            v['harness'] = uname(unit)
            v['build'] = unit['build']
            self.violations.append(v)

    def merge(self, unit, d, out, args, env):
        pre = uname(unit) + '/' + unit['build'] + '/'
        with self.lock:
            for k, v in d['evals'].items():
                self.evals[pre + k] = self.evals.get(pre + k, 0) + v
            for k, v in d['counters'].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for s in d['samples']:
                self.samples.append(pre + s)
            try:
                h = open(out + '.hash', 'rb').read()
                self.distinct.update(unit['src'].encode() + h[i:i + 8] for i in range(0, len(h), 8))
            except OSError:
                pass
            if os.path.exists(out + '.rec'):
                for l in open(out + '.rec'):
                    s, i, label, x = l.rstrip('\n').split('\t')
                    self.records.setdefault((uname(unit), s, int(i), label), {})[unit['build']] = x
        for v in d['violations']:
            self.add(v, unit, None, None)

    # the same case must give the same result in every build
    def cross(self):
        ref = self.spec['cross']
        n = 0
        for (un, s, i, label), by in sorted(self.records.items()):
            if len(by) > 1:
                n += 1
                base = by.get(ref, min(by.values()))
                for b in sorted(by):
                    if by[b] != base:
                        self.violations.append(dict(key='differs:%s:%s' % (label, b), scenario=s, index=i, harness=un, build='%s,%s' % (ref, b),
                                                    msg='%s of case %s:%d: build %s and build %s (%s) disagree' % (label, s, i, ref, b, BUILDS[b]['what'])))
        self.counters['cross.results_compared'] = n
        self.counters['cross.builds'] = len({b for by in self.records.values() for b in by})

    def replay(self, v):
        os.makedirs(self.rdir, exist_ok=True)
        name = hashlib.sha1((v['key'] + v['build']).encode()).hexdigest()[:10]
        p = os.path.join(self.rdir, name + '.sh')
        src, cmd = v.pop('src', None), v.pop('cmd', None)
        json.dump(v, open(os.path.join(self.rdir, name + '.json'), 'w'), indent=1)
        if cmd:                     # a program that cannot be built
            if src:
                open(p[:-3] + '.cpp', 'w').write(src)
                cmd = [p[:-3] + '.cpp' if x.endswith('.cpp') else x for x in cmd[:cmd.index('-o')]] + ['-o', '/dev/null']
            with open(p, 'w') as f:
                f.write('#!/bin/sh\n# %s\n# %s\nexec %s\n' % (v['key'], v['msg'].replace('\n', ' ')[:500], ' '.join(shlex.quote(x) for x in cmd) if src else
                                                              'python3 %s %s --seed %d' % (os.path.join(HERE, 'run_check.py'), self.prop, self.seed)))
            os.chmod(p, 0o755)
            return p
        with open(p, 'w') as f:
            f.write('#!/bin/sh\n# %s\n# %s\nexec python3 %s %s --replay %s %s %s:%d --seed %d%s\n' % (
                v['key'], v['msg'].replace('\n', ' ')[:500], os.path.join(HERE, 'run_check.py'), self.prop, v['harness'], v['build'], v['scenario'], v['index'], self.seed, ' --thorough' if self.tier == 'thorough' else ''))
        os.chmod(p, 0o755)
        return p

    def units(self):
        fl = cpu_flags()
        us, skipped = [], []
        for u in self.spec['units']:
            need = set(BUILDS[u['build']].get('cpu_flags', [])) | set(u.get('cpu_flags', []))
            if u.get('tier') and u['tier'] != self.tier:
                continue
            if need - fl:
                skipped.append('%s/%s (CPU lacks %s)' % (u['src'], u['build'], ','.join(sorted(need - fl))))
            else:
                us.append(u)
        return us, skipped

    def run(self):
        us, skipped = self.units()
        self.skipped = skipped
        with ThreadPoolExecutor(NCPU) as ex:
            exes = list(ex.map(self.build, us))
        tb = time.time() - self.t0
        jobs = []
        for u, e in zip(us, exes):
            n = u.get('shards', NCPU)
            for k in range(n):
                jobs.append((u, e, k, n))
        def one(j):
            try:
                self.shard(*j)
            except NoAnswer as e:
                with self.lock:
                    self.errors.append(str(e))
        par = self.spec.get('parallel', NCPU)
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(one, jobs))
        if self.spec.get('cross'):
            self.cross()
        return tb

    def finish(self, tb):
        known = known_findings(self.prop)
        fresh, seen = {}, {}
        only = self.spec.get('only')
        for v in self.violations:
            if only and not v['key'].startswith(only):
                continue        # a wrong answer is another property's business
            hit = [w for k, w in known if k == v['key']]
            if hit:
                seen[v['key']] = hit[0]
            else:
                fresh.setdefault(v['key'], v)
        for k, w in sorted(seen.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        total = sum(self.evals.values())
        per = {}
        for k, v in self.evals.items():
            per[k] = v
        # at most two samples per scenario name, spread over harnesses
        samp, cnt = [], {}
        for s in sorted(self.samples):
            k = s.split(':')[0]
            if cnt.get(k, 0) < 1 and len(s) < 1500:
                cnt[k] = cnt.get(k, 0) + 1
                samp.append(s)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': total,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.spec['rule'],
                'samples': samp[:24],
                'cases_by_harness_build_scenario': per,
                'observed_events': self.counters,
                'builds': [dict(name=b, what=BUILDS[b]['what']) for b in sorted({u['build'] for u in self.units()[0]})],
                'skipped_builds': self.skipped,
                'build_wall_s': round(tb, 2),
            },
            'assumptions': self.spec.get('assumptions', []),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(fresh),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', self.prop + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)
        if fresh:
            for k, v in sorted(fresh.items())[:10]:
                print('%s [%s/%s %s:%d] %s' % (k, v['harness'], v['build'], v['scenario'], v['index'], v['msg'][:700]))
            for k, v in sorted(fresh.items())[:10]:
                print('VIOLATION property=%s replay=%s' % (self.prop, self.replay(v)))
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print('ERROR: ' + e[:3000])
            return 2
        missing = [c for c in self.spec.get('must_observe', []) if not self.counters.get(c)]
        if missing or total == 0 or not self.distinct:
            print('ERROR: inconclusive, never observed: %s (cases %d, distinct %d)' % (missing, total, len(self.distinct)))
            return 2
        print('%s held: %d cases, %d distinct non-trivial, %d events, %.1f s (build %.1f s)' % (
            self.prop, total, len(self.distinct), sum(self.counters.values()), time.time() - self.t0, tb))
        return 0


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in a:
        tier = 'thorough'
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    if '--replay' in a:
        i = a.index('--replay')
        src, bname, case = a[i + 1:i + 4]
        r = Runner(prop, tier, seed)
        seen = {}
        for bn in bname.split(','):
            u = next(u for u in CHECKS[prop]['units'] if uname(u) == src and u['build'] == bn)
            exe = r.build(u)
            b = BUILDS[bn]
            env = dict(os.environ)
            env.update(b.get('env', {}))
            p = subprocess.run(b.get('wrap', []) + [exe, '--seed', str(r.useed(u)), '--only', case] + (['--sanitized'] if b.get('sanitized') else []) + (['--thorough'] if tier == 'thorough' else []),
                               env=env, preexec_fn=limits(b.get('as_gb', 0)), stdout=subprocess.PIPE, text=True, errors='replace')
            print('build', bn)
            print(p.stdout[-20000:])
            seen[bn] = p.stdout
        if len(seen) > 1:
            same = len(set(seen.values())) == 1
            print('builds', 'agree' if same else 'disagree')
            return 0 if same else 1
        print('exit', p.returncode)
        return 1 if p.returncode else 0
    if prop not in CHECKS:
        print('unknown property', prop)
        return 2
    r = Runner(prop, tier, seed)
    try:
        tb = r.run()
        rc = r.finish(tb)
    except NoAnswer as e:
        print('ERROR: ' + str(e))
        return 2
    finally:
        for f in glob.glob(os.path.join(r.bdir, '*')):
            try:
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
            except OSError:
                pass
    return rc


if __name__ == '__main__':
    sys.exit(main())
