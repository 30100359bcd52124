"""What each property needs beyond the eight plain workers."""
import os
import random
import resource
import struct
import threading
import zlib
import concurrent.futures as cf

from common import *
import inproc


def fresh_processes(prop, tier, seed, bins, cov, d):
    """First use from many threads at once happens once per process, so: many processes."""
    plan = [('checked', 150), ('plain', 150), ('tsan', 60)]
    if tier == 'thorough':
        plan = [('checked', 4000), ('plain', 4000), ('tsan', 1500)]
    jobs = []
    for b, n in plan:
        for i in range(n):
            jobs.append((b, seed * 100003 + i, (2, 3, 8, 16)[i % 4]))
    seen = {}

    def one(j):
        b, s, n = j
        cmd = [bins[b], 'threads', '--seed', str(s), '--n', str(n), '--light', str((s // 4 + 1) % 2)]
        rc, out, err = run(cmd, 300, env=env(**inproc.sanitizer_env(b)))
        return j, cmd, rc, out, err
    with cf.ThreadPoolExecutor(4) as ex:
        for j, cmd, rc, out, err in ex.map(one, jobs):
            if rc == 0:
                seen[j[0]] = seen.get(j[0], 0) + 1
                continue
            if rc == 1 or inproc.is_crash(rc) or rc == 101:
                msg = out.decode(errors='replace').strip() if rc == 1 else inproc.describe(rc, err)
                v = Violation('first use by %d threads (%s): %s' % (j[2], j[0], msg[:800]),
                              {'property': prop, 'command': cmd, 'message': msg})
                v.coverage = cov
                raise v
            raise Inconclusive('threads run: exit %s: %s' % (rc, err.decode(errors='replace')[-500:]))
    cov['processes_with_concurrent_first_use'] = seen
    cov['evaluations'] += sum(seen.values())


def miri(prop, tier, seed, bins, cov, d):
    """The harness under the undefined-behaviour interpreter, on a small scale."""
    td = target_dir('miri')
    base = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--target-dir', td, '--']
    runs = []
    if prop == 'C22':
        for s in range(4):
            runs.append((base + ['threads', '--seed', str(seed * 10 + s), '--n', '2', '--light', '1'], s))
    else:
        return
    done = 0

    def one(r):
        cmd, s = r
        rc, out, err = run(cmd, 3000, cwd=HARNESS,
                           env=env(RUSTFLAGS=FLAG, MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-seed=%d' % s))
        return r, rc, out, err
    first = one(runs[0])
    rest = []
    with cf.ThreadPoolExecutor(4) as ex:
        rest = list(ex.map(one, runs[1:]))
    for r, rc, out, err in [first] + rest:
        if rc == 0:
            done += 1
            continue
        t = err.decode(errors='replace')
        if 'Undefined Behavior' in t or 'Data race' in t or 'mismatch' in out.decode(errors='replace'):
            v = Violation('Miri: ' + t[-800:], {'property': prop, 'command': r[0], 'message': t[-3000:]})
            v.coverage = cov
            raise v
        raise Inconclusive('Miri: exit %s: %s' % (rc, t[-800:]))
    cov['runs_under_miri'] = done


def long_file(path, kind, mb, r):
    """A gzip file without any big block; (most data, most codes) of a block at most."""
    out = open(path, 'wb')
    out.write(b'\x1f\x8b\x08\0\0\0\0\0\0\xff')
    crc = n = 0
    words = [bytes(r.randrange(97, 123) for _ in range(r.randrange(2, 11))) for _ in range(3000)]
    if kind == 'stored':
        z = zlib.compressobj(0, zlib.DEFLATED, -15)
    else:
        z = zlib.compressobj(6, zlib.DEFLATED, -15, 5)
    while n < mb << 20:
        if kind == 'text':
            d = b' '.join(r.choice(words) for _ in range(40000))
        elif kind == 'many blocks':
            d = b''
            for _ in range(2000):
                e = r.choice(words)[:8]
                out.write(z.compress(e) + z.flush(zlib.Z_SYNC_FLUSH))
                d += e
            crc = zlib.crc32(d, crc)
            n += len(d)
            continue
        else:
            d = r.randbytes(1 << 18)
        crc = zlib.crc32(d, crc)
        n += len(d)
        out.write(z.compress(d))
    out.write(z.flush())
    out.write(struct.pack('<II', crc, n & 0xffffffff))
    out.close()
    return n, {'text': 1 << 18, 'stored': 65535, 'many blocks': 64}[kind]


def memory(prop, tier, seed, bins, cov, d):
    """What the tools hold in memory while they work through long files."""
    r = random.Random('C24 %d' % seed)
    deep = tier == 'thorough'
    sizes = [('text', 40), ('stored', 64), ('many blocks', 1)]
    if deep:
        sizes = [('text', 300), ('stored', 1000), ('many blocks', 6)]
    jobs = []
    for kind, mb in sizes:
        path = '%s/%s.gz' % (d, kind.replace(' ', '-'))
        n, block = long_file(path, kind, mb, r)
        allowed = (12 << 20) + 8 * block + 64 * block // 4
        for tool in ('cat', 'dump', 'zero'):
            if tool == 'dump' and kind == 'text' and not deep:
                continue
            for b in ('cli-checked', 'cli-plain'):
                for way in ('file', 'stdin'):
                    jobs.append((kind, path, n, allowed, tool, b, way))
    # dump: a line for every code
    path = '%s/listing.gz' % d
    n, block = long_file(path, 'text', 30 if deep else 6, r)
    for b in ('cli-checked', 'cli-plain'):
        jobs.append(('text', path, n, (12 << 20) + 24 * block, 'dump', b, 'file'))
    worst = {}

    def one(j):
        kind, path, n, allowed, tool, b, way = j
        res = '%s/%s-%s-%s-%s.rss' % (d, os.path.basename(path)[:-3], tool, b, way)
        cmd = ['/usr/bin/time', '-o', res, '-f', '%M %e', bins[b], tool] + ([path] if way == 'file' else [])
        with open(path if way == 'stdin' else os.devnull, 'rb') as si:
            p = subprocess.Popen(cmd, stdin=si, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env())
            err = p.communicate()[1]
        return j, cmd, p.returncode, err, open(res).read().strip().split('\n')[-1]
    with cf.ThreadPoolExecutor(8) as ex:
        for j, cmd, rc, err, res in ex.map(one, jobs):
            kind, path, n, allowed, tool, b, way = j
            msg = None
            if rc != 0:
                msg = '%s (%s) exits with %s for a valid file of %d bytes of data (%s)' % (tool, b, rc, n, kind)
            else:
                rss = int(res.split()[0]) << 10
                worst[tool] = max(worst.get(tool, 0), rss)
                if rss > allowed:
                    msg = '%s (%s) needed %d bytes of memory for a file of %d bytes of data (%s); %d would be in ' \
                          'proportion to its blocks' % (tool, b, rss, n, kind, allowed)
            if msg:
                v = Violation(msg, {'property': prop, 'command': cmd, 'stdin': way == 'stdin' and path,
                                    'message': msg, 'stderr': err.decode(errors='replace')[-500:]})
                v.coverage = cov
                raise v
            cov['evaluations'] += 1
    for k, _ in sizes + [('listing', 0)]:
        os.unlink('%s/%s.gz' % (d, k.replace(' ', '-')))
    cov['long_files_through_the_tools'] = len(jobs)
    cov['most_memory_by_tool'] = worst


def one_block(path, first, unit, n):
    """A gzip file of about n bytes, of one block with fixed codes."""
    start = '1' + '10' + first
    bits = start + unit * 16 + '0' * 7
    b = bytes(int(bits[i:i + 8][::-1], 2) for i in range(0, len(bits), 8))
    h = (len(start) + 7) // 8
    with open(path, 'wb') as f:
        f.write(b'\x1f\x8b\x08\0\0\0\0\0\0\xff' + b[:h])
        # eight units are whole bytes
        many = b[h:h + len(unit)] * 300
        for _ in range(n // len(many) + 1):
            f.write(many)
        f.write(b[h:] + bytes(8))


def tiled(path, kind, n, r):
    """A gzip file of about n bytes, the same blocks again and again."""
    name = b''
    if kind == 'long name':
        name = b'n' * n + b'\0'
        unit = b'\0\1\0\xfe\xffx'
        n = 1000
    elif kind == 'tiny stored blocks':
        unit = b'\0\1\0\xfe\xffx'
    elif kind == 'stored blocks':
        unit = b'\0\xff\xff\0\0' + r.randbytes(65535)
    elif kind == 'empty blocks':
        z = zlib.compressobj(6, zlib.DEFLATED, -15)
        unit = z.flush(zlib.Z_PARTIAL_FLUSH) + z.compress(b'y') + z.flush(zlib.Z_FULL_FLUSH)
    elif kind == 'tiny blocks':
        z = zlib.compressobj(6, zlib.DEFLATED, -15)
        unit = b''
        for k in range(50):
            unit += z.compress(bytes(r.randrange(97, 123) for _ in range(k % 9))) + z.flush(zlib.Z_FULL_FLUSH)
    elif kind == 'one block of literals':
        return one_block(path, '', '10101011', n)
    elif kind == 'one block of runs':
        return one_block(path, '10101011', '1100010100000', n // 40)
    elif kind == 'one block of short runs':
        return one_block(path, '10101011', '000000100000' + '10101000', n // 4)
    elif kind == 'long runs':
        z = zlib.compressobj(6, zlib.DEFLATED, -15)
        unit = z.compress(b'abc' * 60000) + z.flush(zlib.Z_FULL_FLUSH)
        n //= 40
    else:
        words = [bytes(r.randrange(97, 123) for _ in range(r.randrange(2, 11))) for _ in range(3000)]
        z = zlib.compressobj(6, zlib.DEFLATED, -15)
        unit = z.compress(b' '.join(r.choice(words) for _ in range(20000))) + z.flush(zlib.Z_FULL_FLUSH)
    with open(path, 'wb') as f:
        f.write(b'\x1f\x8b\x08' + (b'\x08' if name else b'\0') + b'\0\0\0\0\0\xff' + name)
        done = 0
        many = unit * max(1, (1 << 12) // len(unit))
        while done < n:
            f.write(many)
            done += len(many)
        f.write(b'\1\0\0\xff\xff' + bytes(8))


def work(prop, tier, seed, bins, cov, d):
    """CPU time of the tools against the size of the file."""
    r = random.Random('C28 %d' % seed)
    deep = tier == 'thorough'
    kinds = ['text', 'tiny stored blocks', 'stored blocks', 'empty blocks', 'tiny blocks', 'long runs', 'long name',
             'one block of literals', 'one block of runs', 'one block of short runs']
    jobs = [(k, t, b, w) for k in kinds for t in ('cat', 'dump', 'zero')
            for b in (('cli-checked', 'cli-plain') if deep else ('cli-plain',))
            for w in (('file', 'stdin') if deep else ('file',))]
    base = 0.04
    most = {}
    over = threading.Event()

    def one(j):
        try:
            return measure(j)
        except BaseException:
            over.set()
            raise

    def measure(j):
        kind, tool, b, way = j
        s = r.random()
        path = '%s/%s-%s-%s-%s.gz' % (d, kind.replace(' ', '-'), tool, b, way)
        cmd = [bins[b], tool] + ([path] if way == 'file' else [])

        def run(n):
            if over.is_set():
                return base
            tiled(path, kind, n, random.Random(s))
            with open(path if way == 'stdin' else os.devnull, 'rb') as si:
                p = subprocess.Popen(cmd, stdin=si, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env(),
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (100, 100)))
                _, st, ru = os.wait4(p.pid, 0)
            p.returncode = st
            os.unlink(path)
            if ru.ru_utime + ru.ru_stime > 95:
                return 100
            if st != 0:
                raise Violation('%s (%s) exits with %s for a valid file (%s, %d)' % (tool, b, st, kind, n),
                                {'property': prop, 'command': cmd, 'message': 'kind %s, size %d' % (kind, n)})
            return ru.ru_utime + ru.ru_stime

        n = 32 << 10
        t = run(n)
        while t < base and n < 4 << 20:
            n *= 2
            t = run(n)
        if t > 10:
            # far off any proportion
            raise Violation('%s (%s) takes %.2f s for %s of %d bytes' % (tool, b, t, kind, n),
                            {'property': prop, 'command': cmd, 'message': 'kind %s, size %d' % (kind, n)})
        out = []
        for times, limit in ((4, 11), (16, 52)):
            small, large = t, run(n * times)
            again = 0
            while large > limit * max(small, base / 2) and again < (1 if large > 30 else 4):
                small = max(small, run(n))
                large = min(large, run(n * times))
                again += 1
            ratio = large / max(small, base / 2)
            out.append(ratio / times)
            if ratio > limit:
                raise Violation('%s (%s) takes %.2f s for %d times the %s it takes %.3f s for' %
                                (tool, b, large, times, kind, small),
                                {'property': prop, 'command': cmd, 'message': 'kind %s, size %d' % (kind, n)})
        return j, n, out
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            for j, n, out in ex.map(one, jobs):
                cov['evaluations'] += 2
                most[j[1]] = max([most.get(j[1], 0)] + [round(x, 2) for x in out])
    except Violation as v:
        v.coverage = cov
        raise
    cov['kinds_of_files_by_tool'] = len(jobs)
    cov['most_growth_by_tool'] = most


# quick runs use their minute; per cent of the quick case counts in the harness
SCALE = {'C01': 800, 'C02': 1200, 'C03': 800, 'C05': 2000, 'C06': 2000, 'C08': 800, 'C09': 1000, 'C10': 150,
         'C11': 300, 'C12': 400, 'C13': 600, 'C14': 2500, 'C15': 800, 'C21': 130, 'C24': 200, 'C26': 300, 'C27': 1000}


def conf(prop, tier):
    c = {}
    quick = tier == 'quick'
    if quick:
        c['scale'] = SCALE.get(prop, 100)
    if prop == 'C04':
        c['sanitized'] = [('asan', 2 if quick else 6, 25 if quick else 30)]
    if prop == 'C24':
        c['builds'] = ['cli-checked', 'cli-plain']
        c['extra'] = [memory]
    if prop == 'C28':
        c['builds'] = ['cli-checked', 'cli-plain']
        c['extra'] = [work]
    if prop == 'C22':
        c['builds'] = ['tsan']
        c['sanitized'] = [('tsan', 1 if quick else 4, 10 if quick else 20)]
        c['extra'] = [fresh_processes] + ([] if quick else [miri])
    return c
