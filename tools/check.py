#!/usr/bin/env python3
"""Runs the check of one property.

    python3 tools/check.py C01            (tier and seed from VERIF_TIER, VERIF_SEED)

A check has up to four parts, see tools/registry.py:
  models    TLC explores a specification exhaustively within small constants
  scripts   TLC prints call sequences that cover a model's state graph
  harness   C++ programs built from /repo's working tree replay those sequences, and
            sequences of their own, into the real code and record traces
  trace     TLC validates every recorded trace against the specification
  corrupt   (thorough tier) TLC has to reject traces in which one value was changed

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from registry import CHECKS, VARIANTS  # noqa: E402

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The machinery failed; says nothing about the property."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, **kw):
    kw.setdefault('stdout', subprocess.PIPE)
    kw.setdefault('stderr', subprocess.STDOUT)
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, b''
    return p.returncode, out or b''


def classes(scratch):
    """The directory of TLC's Java overrides, compiled when missing or outdated."""
    src = sorted(glob.glob(VERIF + '/java/dspbig/*.java'))
    out = VERIF + '/build/classes'
    done = out + '/dspbig/Overrides.class'
    if os.path.exists(done) and os.path.getmtime(done) >= max(map(os.path.getmtime, src)):
        return out
    out = scratch + '/classes'
    os.makedirs(out)
    rc, msg = run(['javac', '-nowarn', '-cp', JARS, '-d', out] + src, 300)
    if rc != 0:
        raise CheckError('javac failed: ' + msg.decode(errors='replace'))
    return out


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        self.classes = classes(self.scratch)
        self.spec = CHECKS[prop]
        self.states = self.transitions = 0
        self.model_info = []
        self.n = 0

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, workers=1, env=None, timeout=800, mem='2500m', extra=()):
        self.n += 1
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + mem,
               '-Djava.io.tmpdir=' + meta,
               '-DTLA-Library=%s/spec/lib:%s/spec' % (VERIF, VERIF),
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:dspbig.Overrides',
               '-cp', self.classes + ':' + JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-fp', '1', '-seed', str(self.seed),
               '-config', cfg] + list(extra) + [module]
        rc, out = run(cmd, timeout, env=e, cwd=VERIF + '/spec')
        shutil.rmtree(meta, ignore_errors=True)
        text = out.decode(errors='replace')
        if rc is None:
            raise CheckError('TLC timed out on %s' % module)
        return rc, text

    def count(self, text):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if m:
            return int(m[-1][1]), int(m[-1][0])
        return 0, 0

    def model(self, m):
        cfg = m['cfg']
        if self.tier == 'thorough' and m.get('thorough_cfg'):
            cfg = m['thorough_cfg']
        rc, text = self.tlc(m['module'] + '.tla', cfg + '.cfg', workers=m.get('workers', 2),
                            timeout=m.get('timeout', 800) if self.tier == 'quick' else 7200, extra=m.get('extra', ()),
                            mem=m.get('mem', '2500m'))
        if 'No error has been found' not in text or rc != 0:
            raise CheckError('model %s/%s: TLC says\n%s' % (m['module'], cfg, text[-4000:]))
        d, g = self.count(text)
        if d < m.get('min_states', 2):
            raise CheckError('model %s/%s explored only %d states' % (m['module'], cfg, d))
        return dict(module=m['module'], config=cfg, distinct=d, generated=g), text

    # ---- harness ---------------------------------------------------------
    def build(self, h, variant):
        exe = '%s/%s.%s' % (self.scratch, h['name'], variant)
        cc, flags = VARIANTS[variant]
        cmd = [cc, '-std=c++17', '-I' + REPO, '-I' + VERIF + '/harness', '-w'] + flags + h.get('flags', []) + [
            '-DVARIANT_' + variant, VERIF + '/harness/' + h['src'], '-o', exe]
        rc, out = run(cmd, 600)
        if rc != 0:
            raise CheckError('harness %s does not compile (%s):\n%s' % (h['src'], variant, out.decode(errors='replace')[-3000:]))
        return exe

    def record(self, h, variant, exe, tag=''):
        """Run a harness; returns (directory of traces, crash message or None)."""
        out = '%s/traces-%s-%s%s' % (self.scratch, h['name'], variant, tag)
        os.makedirs(out)
        e = dict(os.environ)
        e.update(VERIF_TIER=self.tier, VERIF_SEED=str(self.seed), OUT=out, TMPDIR=self.scratch,
                 SCRIPTS=self.scratch + '/scripts', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
        rc, text = run([exe], h.get('timeout', 120) if self.tier == 'quick' else 1800, env=e, cwd=out)
        if rc == 0:
            return out, None
        if b'FATAL: ThreadSanitizer' in text:
            raise CheckError('the race detector cannot run here:\n' + text.decode(errors='replace')[-2000:])
        why = 'the harness did not finish (hang)' if rc is None else 'the harness ended with status %d' % rc
        return out, why + '\n' + text.decode(errors='replace')[-3000:]

    # ---- traces ----------------------------------------------------------
    def validate(self, module, path):
        cfg = module + '.cfg'
        t0 = time.time()
        rc, text = self.tlc(module + '.tla', cfg, env={'TRACE': path}, timeout=800 if self.tier == 'quick' else 7200)
        if os.environ.get('VERIF_TIME'):
            log('%6.1f s  %s  %d bytes' % (time.time() - t0, path, os.path.getsize(path)))
        m = re.search(r'<<"MATCHED", (\d+), "OF", (\d+)>>', text)
        if not m:
            raise CheckError('trace specification %s failed on %s:\n%s' % (module, path, text[-4000:]))
        got, total = int(m.group(1)), int(m.group(2))
        if got != total and not re.search(r'[Pp]ostcondition|PostCondition|POSTCONDITION', text):
            raise CheckError('trace specification %s stopped on %s:\n%s' % (module, path, text[-4000:]))
        for err in re.findall(r'^Error: (.*)$', text, re.M):
            if not re.search(r'ostcondition|POSTCONDITION|Accepted', err):
                raise CheckError('trace specification %s failed on %s:\n%s' % (module, path, text[-4000:]))
        d, g = self.count(text)
        return got, total, d, g


def replay_file(ctx, name, text, trace=None, upto=None):
    d = '%s/replay/%s' % (VERIF, ctx.prop)
    os.makedirs(d, exist_ok=True)
    if trace:
        dst = '%s/%s' % (d, os.path.basename(trace))
        with open(trace) as f, open(dst, 'w') as g:
            for i, line in enumerate(f):
                if upto is not None and i > upto:
                    break
                g.write(line)
        text += '\ntrace prefix: %s\n' % dst
    p = '%s/%s.txt' % (d, name)
    with open(p, 'w') as f:
        f.write(text)
    return p


def changed(rnd, v):
    """Another value of the same kind, not close to the given one; None if there is none."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rnd.choice((1, -1, 3)) if abs(v) < 2 ** 30 else v // 2
    if isinstance(v, str):
        try:
            x = float.fromhex(v)
        except (ValueError, OverflowError):
            return v + 'x' if v not in ('', '-') else None
        return (-1.5 * x + rnd.choice((0.5, -0.75, 3))).hex()
    if isinstance(v, list) and v:
        i = rnd.randrange(len(v))
        w = changed(rnd, v[i])
        return None if w is None else v[:i] + [w] + v[i + 1:]
    return None


def corrupted(ctx, jobs, tries=6):
    """For every kind of event some recordings with one changed value: are they rejected?"""
    rnd = random.Random(ctx.seed)
    where = {}
    for k, module, path in jobs:
        with open(path) as f:
            lines = f.readlines()
        for i, line in enumerate(lines):
            if len(line) < 100000:
                where.setdefault(json.loads(line)['e'] if line.startswith('{') else '?', []).append((module, path, i))
    res = {}

    def one(w):
        name, key, module, dst = w
        try:
            got, total, _, _ = ctx.validate(module, dst)
            return name, key, got != total
        except CheckError:      # a value which the specification cannot even evaluate
            return name, key, None

    def attempt(names, tries):
        work = []
        for name in names:
            n, used = 0, {}
            for module, path, i in rnd.sample(where[name], min(3 * tries, len(where[name]))):
                with open(path) as f:
                    lines = f.readlines()
                ev = json.loads(lines[i])
                keys = [k for k in ev if k not in ('e', 'o')]
                rnd.shuffle(keys)
                for key in sorted(keys, key=lambda k: used.get(k, 0)):      # every field has its turn
                    w = changed(rnd, ev[key])
                    if w is not None:
                        break
                else:
                    continue
                used[key] = used.get(key, 0) + 1
                ev[key] = w
                dst = '%s/corrupted-%s-%d.ndjson' % (ctx.scratch, name, n)
                with open(dst, 'w') as g:
                    g.writelines(lines[:i] + [json.dumps(ev, separators=(',', ':')) + '\n'] + lines[i + 1:i + 300])
                work.append((name, key, module, dst))
                n += 1
                if n == tries:
                    break
        with cf.ThreadPoolExecutor(CPUS) as pool:
            for name, key, rejected in pool.map(one, work):
                r = res.setdefault(name, dict(tried=0, rejected=0, accepted_fields=[]))
                r['tried'] += 1
                r['rejected'] += rejected is not False
                if rejected is False and key not in r['accepted_fields']:
                    r['accepted_fields'].append(key)

    def blind():
        return [n for n, r in sorted(res.items()) if r['rejected'] == 0 and n not in ctx.spec.get('insensitive', ())]
    attempt(sorted(where), tries)
    if blind():     # by chance only changes which do not matter: more of them
        attempt(blind(), 5 * tries)
    for name in blind():
        raise CheckError('no change of a recorded "%s" event was rejected: %s' % (name, res[name]))
    return res


def check(ctx):
    spec = ctx.spec
    pool = cf.ThreadPoolExecutor(CPUS)
    os.makedirs(ctx.scratch + '/scripts')
    # models and builds start at once
    scripts = [m for m in spec.get('models', []) if m.get('script')]
    plain = [m for m in spec.get('models', []) if not m.get('script') and not (m.get('thorough_only') and ctx.tier == 'quick')]
    fut_scripts = {m['script']: pool.submit(ctx.model, m) for m in scripts}
    hs = spec.get('harness', [])
    fut_build = {}
    for h in hs:
        for v in h.get('variants', ['fast', 'asan']):
            fut_build[h['name'], v] = pool.submit(ctx.build, h, v)
    fut_models = [pool.submit(ctx.model, m) for m in plain]
    nscripts = 0
    for name, f in fut_scripts.items():
        info, text = f.result()
        ctx.model_info.append(info)
        n = 0
        with open('%s/scripts/%s.txt' % (ctx.scratch, name), 'w') as g:
            for line in text.splitlines():
                if line.startswith('"SCRIPT '):
                    s = json.loads(line)[7:]
                    ops = json.loads(s)
                    g.write(';'.join(' '.join(str(x) for x in op) for op in ops) + '\n')
                    n += 1
        if n == 0:
            raise CheckError('no script from %s' % name)
        nscripts += n
    exes = {k: f.result() for k, f in fut_build.items()}
    byname = {h['name']: h for h in hs}
    futs = {k: pool.submit(ctx.record, byname[k[0]], k[1], exe) for k, exe in exes.items()}
    jobs = []
    for k, f in futs.items():
        out, crash = f.result()
        if crash:
            out2, crash2 = ctx.record(byname[k[0]], k[1], exes[k], '-again')
            if not crash2:
                raise CheckError('harness %s failed once only: %s' % (k, crash))
            tail = ''
            for t in sorted(glob.glob(out2 + '/*.ndjson'), key=os.path.getmtime)[-1:]:
                with open(t) as fh:
                    tail = ''.join(fh.readlines()[-5:])[-3000:]
            p = replay_file(ctx, 'crash-%s-%s' % k, 'property %s\nharness %s variant %s seed %d tier %s\n%s\nlast recorded events:\n%s\n' % (
                ctx.prop, k[0], k[1], ctx.seed, ctx.tier, crash2, tail))
            raise Violation('the code under test crashed or hung: ' + crash2.splitlines()[0], p)
        files = sorted(glob.glob(out + '/*.ndjson'))
        if not files:
            raise CheckError('harness %s recorded nothing' % (k,))
        module = byname[k[0]].get('trace', spec.get('trace'))
        jobs += [(k, module, p) for p in files if os.path.getsize(p)]
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    res = list(pool.map(lambda j: (j, ctx.validate(j[1], j[2])), jobs))
    for f in fut_models:
        info, _ = f.result()
        ctx.model_info.append(info)
    events = cases = 0
    samples = []
    names = {}
    for (k, module, path), (got, total, d, g) in res:
        if got != total:
            # confirm with a fresh recording
            out2, crash2 = ctx.record(byname[k[0]], k[1], exes[k], '-confirm')
            p2 = out2 + '/' + os.path.basename(path)
            got2, total2, _, _ = ctx.validate(module, p2)
            if got2 == total2 and not crash2:
                raise CheckError('%s was rejected once only' % path)
            with open(p2) as fh:
                lines = fh.readlines()
            bad = lines[got2].strip() if got2 < len(lines) else ''
            p = replay_file(ctx, 'rejected-%s-%s-%s' % (k[0], k[1], os.path.basename(path)[:-7]),
                            'property %s\nharness %s variant %s seed %d tier %s\ntrace specification spec/%s.tla\n'
                            'The first %d of %d recorded events are allowed by the specification, the next one is not:\n%s\n' % (
                                ctx.prop, k[0], k[1], ctx.seed, ctx.tier, module, got2, total2, bad[:4000]), p2, got2)
            raise Violation('%s event %d: %s' % (os.path.basename(path), got2 + 1, bad[:300]), p)
        events += total
        ctx.states += d
        ctx.transitions += g
        with open(path) as fh:
            for i, line in enumerate(fh):
                m = re.match(r'\{"e":"([^"]*)"', line)
                nm = m.group(1) if m else '?'
                names[nm] = names.get(nm, 0) + 1
                if nm in spec.get('case_events', ('new',)):
                    cases += 1
                if len(samples) < 6 and i in (1, 7) and len(line) < 600:
                    samples.append(json.loads(line))
    if cases == 0:
        raise CheckError('no case recorded')
    sensitivity = corrupted(ctx, jobs) if ctx.tier == 'thorough' else None
    for i in ctx.model_info:
        ctx.states += i['distinct']
        ctx.transitions += i['generated']
    extra = dict(corrupted_traces=sensitivity) if sensitivity is not None else {}
    return dict(extra, states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=cases,
                trace_files=len(res), events_validated=events, events_by_name=names, models=ctx.model_info,
                scripts_generated_from_models=nscripts, samples=samples or [names])


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(prop)
    rc, cov, viol = 2, None, 0
    try:
        cov = check(ctx)
        rc = 0
        log('%s: held (%d states, %d traces, %d events)' % (prop, cov['states'], cov['traces_validated_against_impl'], cov['events_validated']))
    except Violation as v:
        rc, viol = 1, 1
        log('%s: %s' % (prop, v))
        print('VIOLATION property=%s replay=%s' % (prop, v.replay), flush=True)
        cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=0, samples=[str(v)[:500]])
    except CheckError as e:
        log('%s: ERROR %s' % (prop, e))
    finally:
        if os.environ.get('VERIF_KEEP'):
            log('kept', ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    if cov is not None:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, level='model_checking', coverage=cov,
                  assumptions=ctx.spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=viol)
        with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    return rc


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
