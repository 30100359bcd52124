"""Shared by the checks: building, results, evidence, reporting."""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = VERIF + '/harness'
WORK = VERIF + '/work'
FLAG = '--cfg rezip_verif'
KNOWN = VERIF + '/known-findings.txt'


class Inconclusive(Exception):
    """The check itself could not do its job: exit 2."""


class Violation(Exception):
    def __init__(self, message, replay):
        Exception.__init__(self, message)
        self.message = message
        self.replay = replay


def say(*a):
    print(*a, flush=True)


def env(**more):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_PROFILE') or k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR',
                                                  'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_INCREMENTAL',
                                                  'CARGO_BUILD_TARGET', 'LD_PRELOAD'):
            del e[k]
    e['HOME'] = e.get('HOME') or '/root'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUST_BACKTRACE'] = '0'
    e.update(more)
    return e


# name -> (cargo arguments, environment, where the binary lands)
BUILDS = {
    # debug assertions and overflow checks on
    'checked': (['cargo', '+stable', 'build'], {'RUSTFLAGS': FLAG}, 'debug/rzmon'),
    'plain': (['cargo', '+stable', 'build', '--release'], {'RUSTFLAGS': FLAG}, 'release/rzmon'),
    'asan': (['cargo', '+nightly', 'build', '--target', 'x86_64-unknown-linux-gnu'],
             {'RUSTFLAGS': FLAG + ' -Zsanitizer=address'}, 'x86_64-unknown-linux-gnu/debug/rzmon'),
    'tsan': (['cargo', '+nightly', 'build', '-Zbuild-std', '--target', 'x86_64-unknown-linux-gnu'],
             {'RUSTFLAGS': FLAG + ' -Zsanitizer=thread'}, 'x86_64-unknown-linux-gnu/debug/rzmon'),
    'cli-checked': (['cargo', '+stable', 'build', '--manifest-path', REPO + '/Cargo.toml', '-p', 'rezippers'],
                    {'CARGO_PROFILE_DEV_OPT_LEVEL': '1', 'CARGO_PROFILE_DEV_DEBUG': '0', 'CARGO_INCREMENTAL': '0'},
                    'debug/rezippers'),
    'cli-plain': (['cargo', '+stable', 'build', '--release', '--manifest-path', REPO + '/Cargo.toml', '-p',
                   'rezippers'],
                  {'CARGO_PROFILE_RELEASE_LTO': 'off', 'CARGO_PROFILE_RELEASE_OPT_LEVEL': '2'}, 'release/rezippers'),
}


def target_dir(name):
    return '%s/target-%s' % (HARNESS, name)


def build(names):
    """Build these from the current /repo, side by side; returns name -> binary."""
    procs = {}
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    for n in names:
        args, e, _ = BUILDS[n]
        log = open('%s/build-%s.log' % (WORK, n), 'w')
        procs[n] = subprocess.Popen(args + ['--offline', '--target-dir', target_dir(n)], cwd=HARNESS, env=env(**e),
                                    stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)
        log.close()
    bins = {}
    bad = None
    for n, p in procs.items():
        if p.wait() != 0:
            bad = n
        bins[n] = '%s/%s' % (target_dir(n), BUILDS[n][2])
    if bad:
        tail = open('%s/build-%s.log' % (WORK, bad), errors='replace').read()[-3000:]
        raise Inconclusive('building %s failed:\n%s' % (bad, tail))
    say('built %s in %.1f s' % (', '.join(names), time.time() - t0))
    return bins


def fresh_dir(*parts):
    d = '/'.join((WORK,) + parts)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def run(cmd, timeout, **kw):
    """(exit code or -signal or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdin=kw.pop('stdin', subprocess.DEVNULL), stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=kw.pop('env', None) or env(), start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


def save_replay(prop, data, files=None):
    d = WORK + '/replay'
    os.makedirs(d, exist_ok=True)
    base = '%s/%s' % (d, prop)
    for n, b in (files or {}).items():
        with open('%s-%s' % (base, n), 'wb') as f:
            f.write(b)
        data.setdefault('files', {})[n] = '%s-%s' % (base, n)
    with open(base + '.json', 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')
    return base + '.json'


def evidence(prop, tier, seed, level, coverage, assumptions, wall, violations):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    d = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': coverage,
        'assumptions': assumptions,
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    tmp = '%s/evidence/%s.json.tmp' % (VERIF, prop)
    with open(tmp, 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    os.rename(tmp, '%s/evidence/%s.json' % (VERIF, prop))


def known_findings(prop):
    """The open findings listed for this property."""
    out = []
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    except FileNotFoundError:
        pass
    return out
