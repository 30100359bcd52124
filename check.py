#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]   decide one property
   check.py --replay FILE                              run a reported case again
   check.py --setup                                    build everything once

Exit 0: held on everything explored.  1: violated (VIOLATION line).  2: no verdict.
"""
import argparse
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from common import *
import cli
import extra
import inproc

LEVEL = {'C09': 'fault_enumeration', 'C15': 'fault_enumeration', 'C20': 'fault_enumeration'}

ASSUME = [
    'says nothing about inputs, schedules and faults that were not generated',
    'the reference models in /verif/harness (written from RFC 1951/1952 and the statements) and Python\'s zlib are right where they agree with each other',
]


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    a.add_argument('--replay')
    a.add_argument('--setup', action='store_true')
    o = a.parse_args()
    if o.setup:
        try:
            build(['checked', 'plain', 'cli-checked', 'cli-plain'])
        except Inconclusive as e:
            say(e)
            return 2
        return 0
    if o.replay:
        r = json.load(open(o.replay))
        if 'family' in r:
            return inproc.replay(r)
        say(json.dumps(r, indent=1))
        say('the files named above hold the input; run the command on it')
        return 0
    t0 = time.time()
    level = LEVEL.get(o.prop, 'exploration')
    try:
        if o.prop in cli.CHECKS:
            cov = cli.check(o.prop, o.tier, o.seed)
        else:
            cov = inproc.check(o.prop, o.tier, o.seed, extra.conf(o.prop, o.tier))
    except Violation as v:
        r = v.replay
        r.setdefault('property', o.prop)
        path = save_replay(o.prop, r, getattr(v, 'files', None))
        cov = getattr(v, 'coverage', None) or {'explanation': 'stopped by a violation'}
        evidence(o.prop, o.tier, o.seed, level, cov, ASSUME, time.time() - t0, 1)
        say(v.message[:1500])
        say('VIOLATION property=%s replay=%s' % (o.prop, path))
        return 1
    except Inconclusive as e:
        say('NO VERDICT for %s: %s' % (o.prop, e))
        return 2
    evidence(o.prop, o.tier, o.seed, level, cov, ASSUME, time.time() - t0, 0)
    for line in known_findings(o.prop):
        say('KNOWN-FINDING: property=%s %s' % (o.prop, line))
    say('%s held: %d evaluations, %d distinct, %.1f s' % (o.prop, cov['evaluations'], cov['distinct_nontrivial'],
                                                         time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
