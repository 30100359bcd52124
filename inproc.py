"""Properties of the library, decided inside the rzmon harness."""
import json
import os
import signal
import struct
import subprocess
import time

from common import *

SHARDS = 8
CPU = 120
# which shards run the build with overflow checks and debug assertions
CHECKED = (0, 3, 5, 6)
CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP,
         signal.SIGVTALRM, signal.SIGSYS}


def command(b, prop, seed, tier, deadline, scale=100, shard=None, only=None, cpu=CPU, mem=2 << 30):
    c = [b, 'run', '--prop', prop, '--seed', str(seed), '--tier', tier, '--deadline', str(deadline), '--cpu', str(cpu),
         '--scale', str(scale), '--mem', str(mem)]
    if shard is not None:
        c += ['--shard', str(shard[0]), '--shards', str(shard[1])]
    if only is not None:
        c += ['--family', only[0], '--index', str(only[1])]
    return c


def sanitizer_env(name):
    if name == 'asan':
        return {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0'}
    if name == 'tsan':
        return {'TSAN_OPTIONS': 'exitcode=77:halt_on_error=1:second_deadlock_stack=1'}
    return {}


def describe(rc, err):
    if rc is not None and rc < 0:
        s = signal.Signals(-rc).name
        if -rc == signal.SIGVTALRM:
            return 'more than %d s of CPU time for one case' % CPU
        last = [l for l in err.decode(errors='replace').strip().split('\n') if l]
        return 'process died of %s%s' % (s, ': ' + ' / '.join(last[-3:])[:400] if last else '')
    if rc == 77:
        t = err.decode(errors='replace')
        i = t.find('ERROR:')
        if i < 0:
            i = max(t.find('WARNING:'), 0)
        return 'sanitizer report: ' + ' / '.join(x.strip() for x in t[i:].split('\n')[:8])[:700]
    return 'exit %s: %s' % (rc, err.decode(errors='replace')[-500:])


def is_crash(rc):
    return rc == 77 or (rc is not None and rc < 0 and -rc in CRASH)


def progress(path):
    try:
        f = open(path).read().split()
        return f[0], int(f[1])
    except (OSError, IndexError, ValueError):
        return None


def load(path):
    try:
        return json.load(open(path))
    except (OSError, ValueError):
        return None


def shards_for(prop, bins, conf):
    """(name, build, shard, scale) of every worker to run."""
    v = []
    for i in range(SHARDS):
        v.append(('%d' % i, 'checked' if i in CHECKED else 'plain', (i, SHARDS), conf.get('scale', 100)))
    for name, n, scale in conf.get('sanitized', []):
        for i in range(n):
            v.append(('%s%d' % (name, i), name, (i, n), scale))
    return v


def run_workers(prop, bins, tier, seed, conf, deadline):
    d = fresh_dir(prop)
    todo = shards_for(prop, bins, conf)
    # the long ones first
    todo.sort(key=lambda t: t[1] not in ('asan', 'tsan'))
    running = {}
    done = []
    while todo or running:
        while todo and len(running) < 8:
            name, bld, shard, scale = todo.pop(0)
            cmd = command(bins[bld], prop, seed, tier, deadline, scale, shard, mem=conf.get('mem', 2 << 30) * (4 if bld in ('asan', 'tsan') else 1))
            cmd += ['--out', '%s/%s.json' % (d, name), '--progress', '%s/%s.prog' % (d, name)]
            err = open('%s/%s.err' % (d, name), 'wb')
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                                 env=env(**sanitizer_env(bld)), start_new_session=True)
            err.close()
            running[p] = (name, bld, shard, scale, cmd, time.time())
        for p in list(running):
            name, bld, shard, scale, cmd, t0 = running[p]
            rc = p.poll()
            if rc is None and time.time() - t0 > deadline + 3 * CPU:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'watchdog'
            if rc is not None:
                del running[p]
                done.append((name, bld, shard, scale, rc))
        time.sleep(0.02)
    return d, done


def confirm(prop, bins, tier, seed, deadline, d, worker, conf):
    """A worker did not finish cleanly.  Returns a Violation, or raises Inconclusive."""
    name, bld, shard, scale, rc = worker
    err = open('%s/%s.err' % (d, name), 'rb').read()
    res = load('%s/%s.json' % (d, name))
    at = progress('%s/%s.prog' % (d, name))
    base = {'property': prop, 'build': bld, 'seed': seed, 'tier': tier, 'shard': list(shard), 'scale': scale}
    if rc == 1 and res and res.get('failure'):
        f = res['failure']
        only = (f['family'], f['index'])
        # the same case alone, in a new process
        out = '%s/again.json' % d
        rc2, _, err2 = run(command(bins[bld], prop, seed, tier, deadline, only=only) + ['--out', out], deadline + 600,
                           env=env(**sanitizer_env(bld)))
        again = load(out)
        alone = is_crash(rc2) or (rc2 == 1 and bool(again) and bool(again.get('failure')))
        base.update(family=f['family'], index=f['index'], message=f['message'], notes=f['notes'],
                    attachments=f['attach'], fails_alone=alone)
        return Violation('%s/%d: %s' % (f['family'], f['index'], f['message']), base)
    if is_crash(rc) and at:
        msg = describe(rc, err)
        for _ in range(2):
            rc2, _, err2 = run(command(bins[bld], prop, seed, tier, deadline, only=at,
                                       mem=conf.get('mem', 2 << 30) * (4 if bld in ('asan', 'tsan') else 1)), deadline + 600,
                               env=env(**sanitizer_env(bld)))
            if is_crash(rc2):
                base.update(family=at[0], index=at[1], message=describe(rc2, err2), fails_alone=True)
                return Violation('%s/%d: %s' % (at[0], at[1], base['message']), base)
        # needs what happened before it in the same process, or the other threads
        rc2, _, err2 = run(command(bins[bld], prop, seed, tier, deadline, scale, shard)
                           + ['--out', '%s/again.json' % d], deadline + 600, env=env(**sanitizer_env(bld)))
        if is_crash(rc2) or rc == 77:
            base.update(family=at[0], index=at[1], message=msg, fails_alone=False)
            return Violation('%s/%d (with earlier work): %s' % (at[0], at[1], msg), base)
        raise Inconclusive('worker %s died once and not again: %s' % (name, msg))
    raise Inconclusive('worker %s (%s): %s at %s' % (name, bld, describe(rc if isinstance(rc, int) else None, err), at))


def merge(d, done):
    m = {'evals': 0, 'skipped': 0, 'done': {}, 'counts': {}, 'sets': {}, 'samples': [], 'rule': '', 'required': {},
         'digests': set(), 'builds': {}}
    for name, bld, shard, scale, rc in sorted(done):
        r = load('%s/%s.json' % (d, name))
        if r is None:
            continue
        m['rule'], m['required'] = r['rule'], r['required']
        m['evals'] += r['evals']
        m['builds'][bld] = m['builds'].get(bld, 0) + r['evals']
        m['skipped'] += r['skipped']
        for k in ('done', 'counts'):
            for a, b in r[k].items():
                m[k][a] = m[k].get(a, 0) + b
        for a, b in r['sets'].items():
            m['sets'].setdefault(a, set()).update(b)
        m['samples'] += r['samples'][:1]
        try:
            raw = open('%s/%s.json.dig' % (d, name), 'rb').read()
            m['digests'].update(struct.unpack('<%dQ' % (len(raw) // 8), raw))
        except OSError:
            pass
    return m


def coverage(m, tier):
    c = {
        'evaluations': m['evals'],
        'distinct_nontrivial': len(m['digests']),
        'rule': m['rule'],
        'samples': m['samples'][:4],
        'evaluations_by_build': m['builds'],
        'cases_by_family': m['done'],
        'observed': m['counts'],
        'distinct_values_seen': {k: len(v) for k, v in m['sets'].items()},
    }
    if m['skipped']:
        c['cases_skipped_for_time'] = m['skipped']
    return c


def missing(m):
    out = []
    for k, v in m['required'].items():
        got = max(m['counts'].get(k, 0), len(m['sets'].get(k, ())))
        if got < v:
            out.append('%s: %d of %d' % (k, got, v))
    return out


def check(prop, tier, seed, conf):
    """Returns (coverage, extra notes); raises Violation or Inconclusive."""
    names = ['checked', 'plain'] + [s[0] for s in conf.get('sanitized', [])] + conf.get('builds', [])
    bins = build(sorted(set(names)))
    deadline = conf.get('deadline', 420 if tier == 'quick' else 3600)
    d, done = run_workers(prop, bins, tier, seed, conf, deadline)
    m = merge(d, done)
    cov = coverage(m, tier)
    bad = [w for w in done if w[4] != 0]
    # an oracle's verdict says more than a crash
    bad.sort(key=lambda w: (w[4] != 1, w[0]))
    if bad:
        err = None
        for w in bad:
            try:
                v = confirm(prop, bins, tier, seed, deadline, d, w, conf)
                v.coverage = cov
                raise v
            except Inconclusive as e:
                err = err or e
        raise err
    for f in conf.get('extra', []):
        f(prop, tier, seed, bins, cov, d)
    lack = missing(m)
    if lack:
        raise Inconclusive('too little was observed: ' + '; '.join(lack))
    return cov


def replay(r):
    bins = build([r['build']])
    cmd = command(bins[r['build']], r['property'], r['seed'], r['tier'], 3600, only=(r['family'], r['index']))
    if not r.get('fails_alone', True):
        cmd = command(bins[r['build']], r['property'], r['seed'], r['tier'], 3600, r['scale'], tuple(r['shard']))
    say(' '.join(cmd))
    rc, out, err = run(cmd, 4000, env=env(**sanitizer_env(r['build'])))
    if rc == 1:
        f = json.loads(out)['failure']
        say('%s/%d: %s' % (f['family'], f['index'], f['message']))
    elif rc:
        say(describe(rc, err))
    return 1 if rc else 0
