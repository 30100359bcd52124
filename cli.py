"""Properties of the rezippers command, decided from outside the process."""
import concurrent.futures as cf
import errno
import fcntl
import gzip as pygzip
import hashlib
import itertools
import os
import random
import re
import resource
import select
import signal
import struct
import subprocess
import sys
import threading
import time
import zlib

from common import *

LIMIT = 60


# ---- inputs ----

class File:
    """A gzip file and what is known about it."""

    __slots__ = ('name', 'gz', 'payload', 'header', 'end', 'listing', 'kind', 'wide')

    def __init__(self, name, gz, payload, header, end, listing, kind, wide=False):
        self.name, self.gz, self.payload, self.header, self.end = name, gz, payload, header, end
        self.listing, self.kind, self.wide = listing, kind, wide


def generated(rzmon, d, seed, n, start=0):
    """Files from the harness's own encoder."""
    os.makedirs(d, exist_ok=True)
    rc, out, err = run([rzmon, 'gen', '--dir', d, '--seed', str(seed), '--n', str(n), '--from', str(start)], 600)
    if rc != 0:
        raise Inconclusive('generator: %s' % err.decode(errors='replace')[-500:])
    v = []
    for line in open(d + '/index.txt'):
        i, valid, hl, end, wide, kind = line.rstrip('\n').split('\t')
        b = '%s/%s' % (d, i)
        v.append(File('gen-%s' % i, rd(b + '.gz'), rd(b + '.raw'), int(hl), int(end), open(b + '.txt').read(), kind,
                      wide == 'wide'))
    return v


def broken(rzmon, d, seed, n):
    os.makedirs(d, exist_ok=True)
    rc, out, err = run([rzmon, 'broken', '--dir', d, '--seed', str(seed), '--n', str(n)], 600)
    if rc != 0:
        raise Inconclusive('generator: %s' % err.decode(errors='replace')[-500:])
    v = []
    for line in open(d + '/index.txt'):
        i, _, hl, _, _, why = line.rstrip('\n').split('\t')
        b = '%s/%s' % (d, i)
        v.append(File('broken-%s' % i, rd(b + '.gz'), rd(b + '.raw'), int(hl), 0, None, why))
    return v


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def wr(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def header(r, flags, big=False):
    """A gzip header with these flags."""
    b = bytearray(b'\x1f\x8b\x08')
    b.append(flags)
    b += r.randbytes(4)
    b.append(r.choice([0, 2, 4]))
    b.append(r.choice([0, 3, 255]))
    if flags & 4:
        n = r.choice([0, 1, 5, 300, 65535 if big else 17])
        b += struct.pack('<H', n) + r.randbytes(n)
    for bit in (8, 16):
        if flags & bit:
            n = r.choice([0, 1, 7, 70000 if big else 40])
            b += bytes(r.randrange(1, 256) for _ in range(n)) + b'\0'
    if flags & 2:
        b += struct.pack('<H', zlib.crc32(bytes(b)) & 0xffff)
    return bytes(b)


def payload(r, n, kind=None):
    kind = kind or r.choice(['random', 'text', 'few', 'zero', 'period', 'lines'])
    if kind == 'random':
        return kind, r.randbytes(n)
    if kind == 'text':
        words = [bytes(r.choice(b'abcdefghijklmnopqrstuvwxyz') for _ in range(r.randint(1, 9))) for _ in range(300)]
        b = b''
        parts = []
        k = 0
        while k < n:
            w = r.choice(words) + b' '
            parts.append(w)
            k += len(w)
        return kind, b''.join(parts)[:n]
    if kind == 'few':
        return kind, bytes(r.choices(b'ab\0', k=n))
    if kind == 'zero':
        return kind, bytes([r.choice([0, 0, 1, 255])]) * n
    if kind == 'period':
        p = r.randbytes(r.choice([1, 2, 3, 50, 4096, 8192]))
        return kind, (p * (n // len(p) + 1))[:n]
    return kind, b''.join(b'%d line %d\n' % (i, i * i % 97) for i in range(n // 12 + 1))[:n]


def mixed(r, data):
    """Stored blocks of all sizes and compressed ones that refer to before them."""
    b = b''
    at = 0
    while at < len(data):
        n = r.choice([0, 1, r.randint(1, 3000), 32768, 65534, 65535, 65535])
        if r.random() < 0.5:
            d = data[at:at + n]
            b += b'\0' + struct.pack('<HH', len(d), len(d) ^ 0xffff) + d
        else:
            d = data[at:at + max(1, n)]
            c = zlib.compressobj(r.randint(1, 9), zlib.DEFLATED, -15, 9, zdict=data[max(0, at - 32768):at])
            b += c.compress(d) + c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        at += len(d)
    return b + r.choice([b'\x01\0\0\xff\xff', b'\3\0'])


def fixed_block(toks, last):
    """A block of bytes and (length 3 to 10, distance) pairs, as a string of bits."""
    o = ['1' if last else '0', '10']

    def sym(s):
        if s < 144:
            return format(0x30 + s, '08b')
        if s < 256:
            return format(0x190 + s - 144, '09b')
        return format(s - 256, '07b')
    for t in toks:
        if isinstance(t, int):
            o.append(sym(t))
            continue
        n, dist = t
        o.append(sym(254 + n))
        base, s = 1, 0
        while dist >= base + (1 << max(0, s // 2 - 1)):
            base += 1 << max(0, s // 2 - 1)
            s += 1
        x = max(0, s // 2 - 1)
        o.append(format(s, '05b') + (format(dist - base, '0%db' % x)[::-1] if x else ''))
    return ''.join(o) + '0' * 7


def packed(bits):
    return bytes(int(bits[i:i + 8][::-1], 2) for i in range(0, len(bits), 8))


def deflated(r, data):
    """(raw stream, how it was made)"""
    if r.random() < 0.3:
        return mixed(r, data), 'mixed'
    lvl = r.randint(0, 9)
    strat = r.choice([zlib.Z_DEFAULT_STRATEGY] * 3 + [zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED])
    mem = r.choice([1, 8, 9])
    win = r.choice([9, 12, 15])
    c = zlib.compressobj(lvl, zlib.DEFLATED, -win, mem, strat)
    b = b''
    if r.random() < 0.3 and len(data) > 10:
        k = r.randrange(len(data))
        b += c.compress(data[:k]) + c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        data = data[k:]
    b += c.compress(data) + c.flush()
    return b, 'zlib level %d strategy %d memory %d window %d' % (lvl, strat, mem, win)


def trailer(data):
    return struct.pack('<II', zlib.crc32(data), len(data) & 0xffffffff)


def made(r, data, kind, flags=None, after=None):
    h = header(r, r.randrange(32) if flags is None else flags)
    b, how = deflated(r, data)
    gz = h + b + trailer(data)
    end = len(h) + len(b)
    if after == 'garbage':
        gz += r.randbytes(r.randint(1, 3000))
    elif after == 'member':
        gz += pygzip.compress(b'second member')
    elif after == 'nothing':
        gz = gz[:end]
    return File('zlib-%d' % r.randrange(1 << 40), gz, data, len(h), end, None, kind + ', ' + how)


# ---- running ----

class Runner:
    def __init__(self, prop, d, bins, shim):
        self.prop, self.d, self.bins, self.shim = prop, d, bins, shim
        self.lock = threading.Lock()
        self.evals = 0
        self.digests = set()
        self.counts = {}
        self.points = {}
        self.samples = []
        self.serial = itertools.count()
        self.by_build = {}

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def point(self, k, v):
        with self.lock:
            self.points.setdefault(k, set()).add(v)

    def judged(self, what, *ident):
        h = hashlib.blake2b(digest_size=8)
        for i in ident:
            h.update(i if isinstance(i, bytes) else repr(i).encode())
            h.update(b'|')
        with self.lock:
            self.evals += 1
            self.digests.add(h.digest())
            if len(self.samples) < 200:
                self.samples.append(what)

    def tmp(self, tag):
        return '%s/%d-%s' % (self.d, next(self.serial), tag)

    def fail(self, message, argv, rc, out, err, f=None, how='', want=None, extra=None):
        files = {}
        if f is not None:
            files['input.gz'] = f.gz
        if out is not None:
            files['got.out'] = out
        if want is not None:
            files['want.out'] = want
        data = {'property': self.prop, 'message': message, 'command': [str(a) for a in argv], 'how': how, 'exit': rc,
                'stderr': (err or b'').decode(errors='replace')[-1000:], 'input': f.kind if f else None}
        data.update(extra or {})
        v = Violation(message + (' [%s]' % how if how else ''), data)
        v.files = files
        raise v

    def exe(self, k):
        name = 'cli-checked' if k % 2 == 0 else 'cli-plain'
        with self.lock:
            self.by_build[name] = self.by_build.get(name, 0) + 1
        return self.bins[name]

    def call(self, argv, f=None, stdin=None, stdout=None, envs=None, limit=None, how='', cwd=None, tries=2):
        """rc, output, stderr.  stdin: bytes, ('slow', bytes) or an open file."""
        feed = None
        si = subprocess.DEVNULL
        if isinstance(stdin, tuple):
            si = subprocess.PIPE
            feed = stdin[1]
        elif stdin is not None:
            si = stdin
        pre = None
        if limit is not None:
            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        for attempt in range(2 - tries, 2):
            p = subprocess.Popen(argv, stdin=si, stdout=stdout if stdout is not None else subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=env(**(envs or {})), preexec_fn=pre, cwd=cwd,
                                 start_new_session=True)
            if feed is not None:
                t = threading.Thread(target=self.feed, args=(p.stdin, feed, stdin[0]))
                t.start()
            try:
                if feed is not None:
                    out, err = self.drain(p, LIMIT * (attempt + 1))
                    t.join()
                else:
                    out, err = p.communicate(timeout=LIMIT * (attempt + 1))
                return p.returncode, out, err
            except subprocess.TimeoutExpired:
                p.kill()
                if feed is not None:
                    try:
                        p.stdout.close()
                    except (OSError, AttributeError):
                        pass
                    p.wait()
                    t.join()
                else:
                    p.communicate()
                if hasattr(si, 'seek'):
                    si.seek(0)
        self.fail('does not end within %d s' % (2 * LIMIT), argv, None, None, b'', f, how)

    @staticmethod
    def feed(pipe, data, pace):
        try:
            if pace == 'pipe':
                for i in range(0, len(data), 1 << 16):
                    pipe.write(data[i:i + (1 << 16)])
            else:
                # a few bytes at a time
                i = 0
                k = 1
                while i < len(data):
                    pipe.write(data[i:i + k])
                    pipe.flush()
                    i += k
                    k = k % 37 + 1 if len(data) < 4000 else len(data) // 60 + 1
                    time.sleep(0.0003)
        except (BrokenPipeError, ConnectionResetError):
            pass
        try:
            pipe.close()
        except OSError:
            pass

    @staticmethod
    def drain(p, timeout):
        res = {}

        def one(k, s):
            res[k] = s.read() if s else b''
        ts = [threading.Thread(target=one, args=(k, s)) for k, s in (('o', p.stdout), ('e', p.stderr))]
        for t in ts:
            t.start()
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            for t in ts:
                t.join()
            raise
        for t in ts:
            t.join()
        return res['o'], res['e']

    def coverage(self, rule):
        return {
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.digests),
            'rule': rule,
            'samples': self.samples[:: max(1, len(self.samples) // 4)][:5],
            'processes_by_build': self.by_build,
            'observed': self.counts,
            'distinct_values_seen': {k: len(v) for k, v in self.points.items()},
        }


WAYS = ('file', 'stdin file', 'pipe', 'slow pipe', 'shim', 'fifo', 'odd name')
NAMES = [b'with space.gz', b'no suffix', b'-leading', b'n\xc3\xa4me.gz', b'not\xff\xfeutf8.gz', b'a\nb', b"quo'te\".gz", b'x' * 200]


def feed_fifo(path, data, ended):
    """Write data to a named pipe once somebody reads it, unless they never do."""
    while True:
        try:
            fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK)
            break
        except OSError as e:
            if e.errno != errno.ENXIO or ended.wait(0.001):
                return
    try:
        os.set_blocking(fd, True)
        i = 0
        while i < len(data):
            i += os.write(fd, data[i:i + 5000])
    except (BrokenPipeError, ConnectionResetError):
        pass
    finally:
        os.close(fd)


def invoke(R, tool, f, way, k, r_seed):
    """Run one tool on one file in one of several ways; returns rc, out, err, argv."""
    exe = R.exe(k)
    argv = [exe, tool]
    if way == 'file':
        p = R.tmp('in.gz')
        wr(p, f.gz)
        try:
            rc, out, err = R.call(argv + [p], f, how=way)
        finally:
            os.unlink(p)
    elif way == 'stdin file':
        p = R.tmp('in.gz')
        wr(p, f.gz)
        with open(p, 'rb') as s:
            rc, out, err = R.call(argv, f, stdin=s, how=way)
        os.unlink(p)
    elif way == 'pipe':
        rc, out, err = R.call(argv, f, stdin=('pipe', f.gz), how=way)
    elif way == 'slow pipe':
        rc, out, err = R.call(argv, f, stdin=('slow', f.gz), how=way)
    elif way == 'fifo' and k % 3 == 2:
        rc, out, err = R.call(argv + ['/dev/stdin'], f, stdin=('pipe', f.gz), how='/dev/stdin')
    elif way == 'fifo':
        p = R.tmp('fifo')
        os.mkfifo(p)
        ended = threading.Event()
        t = threading.Thread(target=feed_fifo, args=(p, f.gz, ended))
        t.start()
        try:
            rc, out, err = R.call(argv + [p], f, how='named pipe', tries=1)
        finally:
            ended.set()
            t.join()
            os.unlink(p)
    elif way == 'odd name':
        d = R.tmp('dir')
        os.mkdir(d)
        name = NAMES[k % len(NAMES)]
        p = os.fsencode(d) + b'/' + name
        wr(p, f.gz)
        try:
            if k % 2:
                # relative to where it runs
                rc, out, err = R.call(argv + ['--', name], f, how='file %r' % name, cwd=d)
            else:
                rc, out, err = R.call(argv + [p], f, how='file %r' % name)
        finally:
            os.unlink(p)
            os.rmdir(d)
    else:
        # short transfers and interrupted calls on both sides
        p, log = R.tmp('in.gz'), R.tmp('log')
        wr(p, f.gz)
        r = random.Random(r_seed)
        small = len(f.gz) + len(f.payload) < 20000
        e = {'LD_PRELOAD': R.shim, 'FIO_LOG': log, 'FIO_PATH': p, 'FIO_SEED': str(r.randrange(1 << 30)),
             'FIO_RSHORT': str(r.choice([1, 7, 600]) if small else 5000), 'FIO_RINTR': str(r.choice([2, 3, 10])),
             'FIO_WSHORT': str(r.choice([1, 9, 600]) if small else 5000), 'FIO_WINTR': str(r.choice([2, 3, 10]))}
        how = 'shim ' + ' '.join('%s=%s' % kv for kv in sorted(e.items()) if kv[0].startswith('FIO_') and kv[1].isdigit())
        if r.random() < 0.5:
            rc, out, err = R.call(argv + [p], f, envs=e, how=how)
        else:
            with open(p, 'rb') as s:
                rc, out, err = R.call(argv, f, stdin=s, envs=e, how=how)
        seen = shim_log(log)
        if seen:
            R.count('interrupted calls survived', seen[2] + seen[6])
            R.count('system calls watched', seen[0] + seen[4])
        os.unlink(p)
    return rc, out, err, argv


def shim_log(log):
    try:
        v = [int(x) for x in open(log).read().split()]
        os.unlink(log)
        return v if len(v) == 8 else None
    except OSError:
        return None


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def parallel(jobs, fn, workers=8):
    """Run fn on every job; the first violation (by job order) wins."""
    jobs = list(jobs)
    first = None
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(fn, j) for j in jobs]
        for f in futs:
            try:
                f.result()
            except Violation as v:
                first = first or v
                for g in futs:
                    g.cancel()
            except cf.CancelledError:
                pass
    if first:
        raise first


def cross_check(files):
    """The reference decoder has to agree with the generator, or neither can be trusted."""
    for f in files:
        if f.wide:
            continue
        d = zlib.decompressobj(-15)
        try:
            got = d.decompress(f.gz[f.header:]) + d.flush()
        except zlib.error as e:
            raise Inconclusive('zlib refuses generated file %s: %s' % (f.name, e))
        if got != f.payload or not d.eof or len(f.gz) - len(d.unused_data) != f.end:
            raise Inconclusive('zlib disagrees about generated file %s (%s)' % (f.name, f.kind))


# ---- C16 ----

def assorted(R, rzmon, r, seed, n_gen, n_made, big):
    files = generated(rzmon, R.d + '/gen', seed, n_gen)
    afters = [None, None, 'garbage', 'member', 'nothing']
    for i in range(n_made):
        n = r.choice([0, 1, 2, 100, 5000, 32768, 32769, 65535, 65536, 70000, 140000])
        if r.random() < 0.4:
            n = r.randrange(3000)
        kind, d = payload(r, n)
        files.append(made(r, d, kind, flags=i % 32, after=r.choice(afters)))
    for n in big:
        kind, d = payload(r, n, r.choice(['text', 'random', 'few']))
        files.append(made(r, d, kind))
    # a stored block of each remarkable size, then references to before and into it
    for n in (0, 1, 2, 255, 256, 257, 4095, 4096, 8192, 16384, 32767, 32768, 32769, 49152, 65533, 65534, 65535):
        for period in (r.randint(3, 9000), r.randint(32000, 32506)):
            p = r.randbytes(period)
            d = p * ((n + 50000) // period + 1)
            k = r.choice([period, 32768, 40000])
            h = header(r, r.randrange(32))
            c = zlib.compressobj(9, zlib.DEFLATED, -15)
            b = c.compress(d[:k]) + c.flush(zlib.Z_SYNC_FLUSH)
            b += b'\0' + struct.pack('<HH', n, n ^ 0xffff) + d[k:k + n]
            e = k + n + r.randint(1000, 9000)
            c = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zdict=d[max(0, k + n - 32768):k + n])
            b += c.compress(d[k + n:e]) + c.flush()
            d = d[:e]
            files.append(File('stitched-%d-%d' % (n, period), h + b + trailer(d), d, len(h), len(h) + len(b), None,
                              'stored block of %d between references %d back' % (n, period)))
        # and at exact distances
        for first_back in (32768, r.choice([32767, 32768, max(1, min(n, 32768))])):
            d = bytearray(r.randbytes(r.choice([32768, 40000, 70000])))
            b = b''.join(b'\0' + struct.pack('<HH', len(x), len(x) ^ 0xffff) + x
                         for x in (bytes(d[i:i + 60000]) for i in range(0, len(d), 60000)))
            x = r.randbytes(n)
            d += x
            toks = []
            far = [32768, 32767, 32766, 32765, 1, 2, n, n + 1, n - 1, n + 2, n + 300, r.randint(1, 32768), 16384, 16385]
            for dist in [first_back] + r.sample([32768, 32767] + far, len(far)):
                if not 0 < dist <= 32768:
                    continue
                k = r.randint(3, 10)
                toks.append((k, dist))
                for _ in range(k):
                    d.append(d[-dist])
                toks.append(r.randrange(256))
                d.append(toks[-1])
            # the window of the block as a whole moves on: the farthest again, first thing in the next
            more = [(3, 32768), 65]
            d += d[-32768:-32765] + b'A'
            first, second = fixed_block(toks, False), fixed_block(more, True)
            b += b'\0' + struct.pack('<HH', n, n ^ 0xffff) + x
            b += packed((first + second).ljust((len(first) + len(second) + 7) // 8 * 8, '0'))
            h = header(r, r.randrange(32))
            d = bytes(d)
            files.append(File('exact-%d-%d' % (n, first_back), h + b + trailer(d), d, len(h), len(h) + len(b), None,
                              'exact distances after a stored block of %d' % n))
    # the real gzip program
    for lvl in range(1, 10):
        kind, d = payload(r, r.choice([0, 500, 40000]), 'text')
        p = R.tmp('real')
        wr(p, d)
        rc, out, err = run(['gzip', '-c', '-%d' % lvl] + ([] if lvl % 2 else ['-n']) + [p], 60)
        os.unlink(p)
        if rc == 0:
            hl = 10 if out[3] == 0 else out.index(b'\0', 10) + 1
            files.append(File('gzip-%d' % lvl, out, d, hl, len(out) - 8, None, 'gzip -%d' % lvl))
    # header fields longer than any buffer
    kind, d = payload(r, 3000, 'text')
    for flags in (4, 8, 16, 31):
        h = header(random.Random(flags), flags, True)
        while len(h) < 60000:
            h = header(r, flags, True)
        b, how = deflated(r, d)
        files.append(File('huge-header-%d' % flags, h + b + trailer(d), d, len(h), len(h) + len(b), None,
                          'header of %d bytes' % len(h)))
    cross_check(files)
    return files


def describe_file(f):
    return '%s: %s, %d bytes, header %d, payload %d, %d after the stream' % (
        f.name, f.kind, len(f.gz), f.header, len(f.payload), len(f.gz) - f.end)


def c16(R, rzmon, tier, seed):
    r = random.Random('C16 %d' % seed)
    deep = tier == 'thorough'
    giants = [Giant(R, 'cat', seed)]
    if deep:
        giants.append(Giant(R, 'cat', seed + 1, 'cli-plain'))
    files = assorted(R, rzmon, r, seed * 7919 + 16, 4000 if deep else 240, 1500 if deep else 140,
                     [3 << 20, 9 << 20] if not deep else [3 << 20, 9 << 20, 40 << 20])
    jobs = []
    for i, f in enumerate(files):
        ways = WAYS if deep or len(f.gz) < 3000 and i % 4 == 0 else (WAYS[i % 3], WAYS[3 + i % 4])
        for k, w in enumerate(ways):
            if len(f.gz) > 1 << 20 and w in ('slow pipe', 'shim'):
                continue
            jobs.append((f, w, i + k))

    def one(j):
        f, way, k = j
        rc, out, err, argv = invoke(R, 'cat', f, way, k, k)
        if rc != 0:
            R.fail('cat exits with %s for a valid file' % rc, argv, rc, out, err, f, way, f.payload)
        if out != f.payload:
            R.fail('cat prints something else: %d bytes instead of %d, first difference at %d' %
                   (len(out), len(f.payload), first_diff(out, f.payload)), argv, rc, out, err, f, way, f.payload)
        R.judged('cat (%s) %s' % (way, describe_file(f)), f.gz, way)
        R.count('ways: ' + way)
        R.count('payload bytes compared', len(out))
        R.point('header flags', f.gz[3])
        R.point('kinds', f.kind.split(',')[0])
        if len(f.gz) - f.end not in (0, 8):
            R.count('bytes after the trailer')
        if not f.payload:
            R.count('empty payload')
    parallel(jobs, one)
    for g in giants:
        R.point('beyond 32 bits: ' + g.finish(3000 if deep else 500), 1)
    need(R, {'ways: file': 60, 'ways: stdin file': 60, 'ways: pipe': 60, 'ways: slow pipe': 60, 'ways: shim': 60, 'ways: fifo': 60, 'ways: odd name': 60,
             'header flags': 32, 'bytes after the trailer': 40, 'empty payload': 5, 'interrupted calls survived': 1000})
    return R.coverage('one run of cat on a valid gzip file fed in one of five ways; its output is compared with the '
                      'payload known to the generator and confirmed by zlib; distinct = different file or way')


def need(R, want):
    lack = []
    for k, v in want.items():
        got = max(R.counts.get(k, 0), len(R.points.get(k, ())))
        if got < v:
            lack.append('%s: %d of %d' % (k, got, v))
    if lack:
        raise Inconclusive('too little was observed: ' + '; '.join(lack))


class Giant:
    """A file of more than 2^32 bytes of data through one of the tools, beside the other runs."""

    def __init__(self, R, tool, seed, exe='cli-checked', total=(1 << 32) + 5_000_000):
        r = random.Random('giant %s %d' % (tool, seed))
        self.R, self.tool = R, tool
        base = bytearray(r.randbytes(3000) * 22)[:65521]
        for _ in range(60):
            base[r.randrange(len(base))] = r.randrange(256)
        self.unit = bytes(base)
        reps = 160
        z = zlib.compressobj(9, zlib.DEFLATED, -15)
        part = z.compress(self.unit * reps) + z.flush(zlib.Z_FULL_FLUSH)
        n = total // (len(self.unit) * reps) + 1
        self.total = n * reps * len(self.unit)
        self.head = b'\x1f\x8b\x08\0\0\0\0\0\0\xff'
        self.path = R.tmp('giant.gz')
        self.crc = 0
        u = self.unit * reps
        for _ in range(n):
            self.crc = zlib.crc32(u, self.crc)
        with open(self.path, 'wb') as f:
            f.write(self.head + part * n + b'\x03\0' + struct.pack('<II', self.crc, self.total & 0xffffffff))
        self.round = self.unit + self.unit
        self.argv = [R.bins[exe], tool, self.path]
        self.problem = None
        self.blocks = 0
        self.done = False
        self.p = subprocess.Popen(self.argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env(), start_new_session=True, bufsize=1 << 20)
        self.err = b''
        self.te = threading.Thread(target=self.errs)
        self.t = threading.Thread(target=self.watch)
        self.te.start()
        self.t.start()

    def errs(self):
        self.err = self.p.stderr.read()

    def same(self, at, d):
        """Is this what the data has at this place?"""
        i = 0
        n = len(self.unit)
        while i < len(d):
            k = (at + i) % n
            m = min(n, len(d) - i)
            if d[i:i + m] != self.round[k:k + m]:
                return False
            i += m
        return True

    def watch(self):
        try:
            self.problem = (self.watch_cat if self.tool == 'cat' else self.watch_zero)(self.p.stdout)
            self.done = True
        except Exception as e:
            self.crashed = e
        # leave nothing to write to
        self.p.stdout.close()

    def watch_cat(self, o):
        at = 0
        while True:
            d = o.read(1 << 20)
            if not d:
                break
            if at + len(d) > self.total:
                return 'more than %d bytes come out' % self.total
            if not self.same(at, d):
                return 'the output differs between bytes %d and %d' % (at, at + len(d))
            at += len(d)
        if at != self.total:
            return '%d bytes come out, should be %d' % (at, self.total)

    def watch_zero(self, o):
        if o.read(len(self.head)) != self.head:
            return 'header differs'
        at = 0
        while True:
            h = o.read(5)
            if len(h) != 5:
                return 'ends inside a block header, after %d bytes of data' % at
            n, m = struct.unpack('<HH', h[1:])
            if h[0] & 6 or n ^ m != 0xffff:
                return 'bad block header after %d bytes of data' % at
            d = o.read(n)
            if len(d) != n or at + n > self.total or not self.same(at, d):
                return 'data differs between bytes %d and %d' % (at, at + n)
            at += n
            self.blocks += 1
            if h[0] & 1:
                break
        if at != self.total:
            return '%d bytes of data, should be %d' % (at, self.total)
        t = o.read(9)
        if t != struct.pack('<II', self.crc, self.total & 0xffffffff):
            return 'trailer %s instead of %s' % (t.hex(), struct.pack('<II', self.crc, self.total & 0xffffffff).hex())

    def finish(self, limit):
        """Returns what to say in the evidence."""
        self.t.join(limit)
        if self.t.is_alive():
            # slow, which is no promise of anyone's
            self.p.kill()
            self.t.join()
            self.te.join()
            self.p.wait()
            os.unlink(self.path)
            return 'not finished in time'
        rc = self.p.wait()
        self.te.join()
        if not self.done:
            raise self.crashed
        if rc != 0 or self.problem:
            self.R.fail('%s on a file of %d bytes of data: exit %s, %s' %
                        (self.tool, self.total, rc, self.problem or 'output right'), self.argv, rc, None, self.err, None,
                        'file', extra={'unit': self.unit.hex(), 'total': self.total})
        os.unlink(self.path)
        self.R.judged('%s on a file of %d bytes of data' % (self.tool, self.total), self.unit, self.tool)
        return '%d bytes of data' % self.total


# ---- C17 ----

def char_debug(b):
    c = {0: '\\0', 9: '\\t', 10: '\\n', 13: '\\r', 39: "\\'", 92: '\\\\'}.get(b)
    if c is None:
        if b < 32 or 127 <= b <= 160 or b == 173:
            c = '\\u{%x}' % b
        else:
            c = chr(b)
    return "'%s'" % c


LIT = re.compile(r"^    - lit: 0x([0-9a-f]{2}): (.*)$", re.S)
REF = re.compile(r"^    - backref: (\d+) byte\(s\) back, (\d+) bytes long$")
BLOCK = re.compile(r"^block (\d+):$")
STORED = re.compile(r"^ - uncompressed: (\d+) bytes$")
DYN = re.compile(r"^ - dynamic huffman: BitVec: (\d+): ([01]*)$")


def read_dump(text):
    """Lines of a dump as the neutral records S/F/D/L/R; raises ValueError."""
    lines = text.split('\n')
    if lines.pop() != '':
        raise ValueError('last line not ended')
    out = []
    block = 0
    state = 'block'
    for n, l in enumerate(lines):
        m = BLOCK.match(l)
        if m:
            if state == 'kind':
                raise ValueError('line %d: block without a kind' % n)
            if int(m.group(1)) != block:
                raise ValueError('line %d: block %s instead of %d' % (n, m.group(1), block))
            block += 1
            state = 'kind'
            continue
        if state == 'kind':
            m = STORED.match(l)
            if m:
                out.append(('S', int(m.group(1))))
                state = 'stored'
                continue
            if l == ' - fixed huffman:':
                out.append(('F',))
                state = 'codes'
                continue
            m = DYN.match(l)
            if m:
                if int(m.group(1)) != len(m.group(2)):
                    raise ValueError('line %d: wrong number of bits' % n)
                out.append(('D', m.group(2)))
                state = 'codes'
                continue
        elif state == 'codes':
            m = LIT.match(l)
            if m:
                b = int(m.group(1), 16)
                if m.group(2) != char_debug(b):
                    raise ValueError('line %d: %r does not stand for byte %d' % (n, m.group(2), b))
                out.append(('L', b))
                continue
            m = REF.match(l)
            if m:
                out.append(('R', int(m.group(1)), int(m.group(2))))
                continue
        raise ValueError('line %d: unexpected %r' % (n, l[:80]))
    if state == 'kind':
        raise ValueError('block without a kind at the end')
    return out


def read_listing(t):
    out = []
    for l in t.split('\n'):
        if not l:
            continue
        p = l.split(' ')
        if p[0] == 'D':
            out.append(('D', p[1] if len(p) > 1 else ''))
        else:
            out.append((p[0],) + tuple(int(x) for x in p[1:]))
    return out


def expand(recs, payload_bytes):
    """Expand a listing; stored bytes are taken from the payload."""
    o = bytearray()
    for x in recs:
        if x[0] == 'S':
            o += payload_bytes[len(o):len(o) + x[1]]
        elif x[0] == 'L':
            o.append(x[1])
        elif x[0] == 'R':
            d, n = x[1], x[2]
            if d < 1 or d > len(o) or not 3 <= n <= 258:
                raise ValueError('reference %d back, %d long after %d bytes' % (d, n, len(o)))
            for _ in range(n):
                o.append(o[-d])
    return bytes(o)


CLEN_ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
LBASE = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LEXTRA = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DBASE = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097,
         6145, 8193, 12289, 16385, 24577]
DEXTRA = [0, 0, 0, 0] + [k for k in range(1, 14) for _ in (0, 1)]


def canonical(lens):
    code = 0
    out = {}
    for n in range(1, 16):
        for s, l in enumerate(lens):
            if l == n:
                out[(n, code)] = s
                code += 1
        code <<= 1
    return out


def inflate_records(b):
    """A small decoder of RFC 1951 into the records of a listing (for files that have none)."""
    pos = 0

    def bit():
        nonlocal pos
        v = b[pos >> 3] >> (pos & 7) & 1
        pos += 1
        return v

    def val(n):
        v = 0
        for i in range(n):
            v |= bit() << i
        return v

    def sym(t):
        c = n = 0
        while True:
            c = c << 1 | bit()
            n += 1
            s = t.get((n, c))
            if s is not None:
                return s
            if n > 15:
                raise ValueError('no such code')
    fl = canonical([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8)
    fd = canonical([5] * 30)
    out = []
    while True:
        last = bit()
        k = val(2)
        if k == 0:
            pos = (pos + 7) & ~7
            n = val(16)
            val(16)
            out.append(('S', n))
            pos += 8 * n
        elif k in (1, 2):
            if k == 1:
                out.append(('F',))
                lt, dt = fl, fd
            else:
                at = pos
                hl, hd, hc = val(5) + 257, val(5) + 1, val(4) + 4
                cl = [0] * 19
                for i in range(hc):
                    cl[CLEN_ORDER[i]] = val(3)
                ct = canonical(cl)
                ls = []
                while len(ls) < hl + hd:
                    s = sym(ct)
                    if s < 16:
                        ls.append(s)
                    elif s == 16:
                        ls += [ls[-1]] * (3 + val(2))
                    elif s == 17:
                        ls += [0] * (3 + val(3))
                    else:
                        ls += [0] * (11 + val(7))
                out.append(('D', ''.join(str(b[i >> 3] >> (i & 7) & 1) for i in range(at, pos))))
                lt, dt = canonical(ls[:hl]), canonical(ls[hl:])
            while True:
                s = sym(lt)
                if s < 256:
                    out.append(('L', s))
                elif s == 256:
                    break
                else:
                    n = LBASE[s - 257] + val(LEXTRA[s - 257])
                    d = sym(dt)
                    out.append(('R', DBASE[d] + val(DEXTRA[d]), n))
        else:
            raise ValueError('reserved block')
        if last:
            return out


def c17(R, rzmon, tier, seed):
    r = random.Random('C17 %d' % seed)
    deep = tier == 'thorough'
    files = assorted(R, rzmon, r, seed * 104729 + 17, 3000 if deep else 240, 800 if deep else 60, [1 << 20] if deep else [])
    # every literal, every length, every distance code
    jobs = []
    for i, f in enumerate(files):
        for k, w in enumerate(WAYS if deep else (WAYS[i % 3], WAYS[(i + 1 + i // 3) % 7])):
            if len(f.payload) > 20000 and w in ('slow pipe', 'shim'):
                w = 'pipe'
            jobs.append((f, w, i + k))

    def one(j):
        f, way, k = j
        rc, out, err, argv = invoke(R, 'dump', f, way, k, k)
        if rc != 0:
            R.fail('dump exits with %s for a valid file' % rc, argv, rc, out, err, f, way)
        try:
            got = read_dump(out.decode())
        except ValueError as e:
            R.fail('not a listing: %s' % e, argv, rc, out, err, f, way)
        want = read_listing(f.listing) if f.listing is not None else inflate_records(f.gz[f.header:f.end])
        if expand(want, f.payload) != f.payload:
            raise Inconclusive('reference listing of %s does not expand to its payload' % f.name)
        if got != want:
            n = first_diff(got, want)
            R.fail('listing differs at record %d: %s instead of %s' %
                   (n, str(got[n:n + 1])[:200], str(want[n:n + 1])[:200]), argv, rc, out, err, f, way,
                   f.listing.encode() if f.listing else None)
        R.judged('dump (%s) %s: %d records' % (way, describe_file(f), len(want)), f.gz, way)
        R.count('ways: ' + way)
        for x in want:
            if x[0] == 'L':
                R.points.setdefault('literals', set()).add(x[1])
            elif x[0] == 'R':
                R.points.setdefault('lengths', set()).add(x[2])
                R.points.setdefault('distances', set()).add(x[1])
        R.count('records compared', len(want))
        for b in 'SFD':
            R.count('blocks ' + b, sum(1 for x in want if x[0] == b))
        R.point('blocks in a file', sum(1 for x in want if x[0] in 'SFD'))
    parallel(jobs, one)
    need(R, {'literals': 256, 'lengths': 256, 'distances': 300, 'blocks S': 100, 'blocks F': 100, 'blocks D': 100,
             'blocks in a file': 5, 'ways: shim': 20})
    return R.coverage('one run of dump on a valid gzip file; every line is compared with the listing known to the '
                      'generator (or a second decoder), which itself must expand to the payload; distinct = different '
                      'file or way of feeding it')


# ---- C18, C19 ----

class BadZero(ValueError):
    pass


def read_zero(out, head):
    """Header, blocks and trailer of an output of zero: list of payloads."""
    if out[:len(head)] != head:
        raise BadZero('header differs at byte %d' % first_diff(out, head))
    p = len(head)
    blocks = []
    while True:
        if p + 5 > len(out):
            raise BadZero('ends inside a block header at %d' % p)
        b = out[p]
        if b & 6:
            raise BadZero('block %d is not stored' % len(blocks))
        n, m = struct.unpack('<HH', out[p + 1:p + 5])
        if n ^ m != 0xffff:
            raise BadZero('block %d: length %d with check %d' % (len(blocks), n, m))
        d = out[p + 5:p + 5 + n]
        if len(d) != n:
            raise BadZero('block %d of %d bytes is cut short' % (len(blocks), n))
        blocks.append(d)
        p += 5 + n
        if b & 1:
            break
    if len(out) != p + 8:
        raise BadZero('%d bytes after the last block' % (len(out) - p))
    data = b''.join(blocks)
    crc, size = struct.unpack('<II', out[p:])
    if crc != zlib.crc32(data):
        raise BadZero('CRC %08x instead of %08x' % (crc, zlib.crc32(data)))
    if size != len(data) & 0xffffffff:
        raise BadZero('length %d instead of %d' % (size, len(data)))
    return blocks


MIN, MOD, MAX = 8192, 4096, 65535


def cut(data, at):
    """Length of the block that starts here by the rule (or what is left)."""
    left = len(data) - at
    if left < MIN:
        return left, 'end'
    s = sum(data[at:at + MIN])
    n = MIN
    top = min(left, MAX)
    while True:
        if s % MOD == 0:
            return n, 'sum'
        if n == top:
            return n, 'max' if n == MAX else 'end'
        s += data[at + n] - data[at + n - MIN]
        n += 1


def judge_zero(R, f, rc, out, err, argv, way):
    if rc != 0:
        R.fail('zero exits with %s for a valid file' % rc, argv, rc, out, err, f, way)
    try:
        blocks = read_zero(out, f.gz[:f.header])
    except BadZero as e:
        R.fail('not a stored gzip file: %s' % e, argv, rc, out, err, f, way)
    data = b''.join(blocks)
    if data != f.payload:
        R.fail('payload differs: %d bytes instead of %d, first at %d' %
               (len(data), len(f.payload), first_diff(data, f.payload)), argv, rc, out, err, f, way, f.payload)
    # and by an independent decoder
    d = zlib.decompressobj(-15)
    if d.decompress(out[f.header:]) != f.payload or not d.eof or len(d.unused_data) != 8:
        R.fail('zlib does not decode the output to the payload', argv, rc, out, err, f, way, f.payload)
    return blocks


def c18(R, rzmon, tier, seed):
    r = random.Random('C18 %d' % seed)
    deep = tier == 'thorough'
    # beyond the range of a length, and in its upper half
    giants = [Giant(R, 'zero', seed), Giant(R, 'zero', seed + 2, 'cli-plain', total=0xe000_0000)]
    if deep:
        giants.append(Giant(R, 'zero', seed + 1, 'cli-plain'))
    files = assorted(R, rzmon, r, seed * 15485863 + 18, 3000 if deep else 200, 1200 if deep else 130,
                     [2 << 20] + ([30 << 20] if deep else []))
    for n in (0, 1, 8191, 8192, 8193, 65534, 65535, 65536, 131069, 131070, 131071):
        for kind, d in (('never cut', (b'\x01\x00\x00' * 50000)[:n]), ('cut at once', bytes(n))):
            files.append(made(r, d, kind))
    jobs = []
    for i, f in enumerate(files):
        for k, w in enumerate(WAYS if deep else (WAYS[i % 3], WAYS[(i + 1 + i // 3) % 7])):
            if len(f.gz) > 200000 and w in ('slow pipe', 'shim'):
                w = 'pipe'
            jobs.append((f, w, i + k))

    def one(j):
        f, way, k = j
        rc, out, err, argv = invoke(R, 'zero', f, way, k, k)
        blocks = judge_zero(R, f, rc, out, err, argv, way)
        R.judged('zero (%s) %s: %d blocks' % (way, describe_file(f), len(blocks)), f.gz, way)
        R.count('ways: ' + way)
        R.count('payload bytes compared', len(f.payload))
        R.point('header flags', f.gz[3])
        R.point('blocks in the output', len(blocks))
        R.count('blocks', len(blocks))
        if not f.payload:
            R.count('empty payload')
        at = 0
        while at < len(f.payload):
            n, _ = cut(f.payload, at)
            at += n
            if n == MAX:
                at = len(f.payload) + 1
        if at > len(f.payload):
            R.count('files with a block of the maximum size')
        if len(f.payload) == MAX:
            R.count('payload of exactly the maximum size')
        if k % 20 == 0 and not f.gz[3] & 2 and len(f.gz) < 300000:
            p = R.tmp('zeroed.gz')
            wr(p, out)
            rc2, _, err2 = run(['gzip', '-t', p], 60)
            os.unlink(p)
            if rc2 not in (0, 2):
                R.fail('gzip -t refuses the output: %s' % err2.decode(errors='replace')[:200], argv, rc, out, err, f, way)
            R.count('accepted by gzip -t')
    parallel(jobs, one)
    for g in giants:
        R.point('beyond 32 bits: ' + g.finish(3000 if deep else 500), 1)
    need(R, {'header flags': 32, 'empty payload': 8, 'files with a block of the maximum size': 4,
             'payload of exactly the maximum size': 2, 'blocks in the output': 6, 'ways: shim': 20})
    return R.coverage('one run of zero on a valid gzip file; its output is parsed strictly (header bytes, stored blocks, '
                      'final flag, CRC, length, nothing else) and compared with the payload; distinct = different file '
                      'or way of feeding it')


def c19(R, rzmon, tier, seed):
    r = random.Random('C19 %d' % seed)
    deep = tier == 'thorough'
    jobs = []

    def biased(n, lo, hi):
        return bytes(r.choices(range(lo, hi + 1), k=n))
    sizes = [0, 1, 8191, 8192, 8193, 12288, 16384, 65534, 65535, 65536, 73726, 73727, 131070, 131071, 200000]
    for rep in range(40 if deep else 2):
        for n in sizes:
            jobs.append(('random', r.randbytes(n)))
            jobs.append(('constant', bytes([r.choice([0, 1, 2, 7, 128, 255])]) * n))
        for turn in range(14):
            # short periods: most never cut, so that blocks reach the maximum
            p = r.randbytes(r.choice([1, 2, 3, 5, 7, 64, 1000, 4096, 8192]))
            n = r.choice([70000, 140000, 200000])
            jobs.append(('periodic', (p * (n // len(p) + 1))[:n]))
            # the sum is the same all along, and just not right
            p = bytearray(r.randbytes(8192))
            if r.random() < 0.5:
                p = bytearray(x & 7 for x in p)
            want = ([1 << k for k in range(12)] + [4095, r.randrange(1, 4096)])[turn]
            while sum(p) % 4096 != want:
                k = r.randrange(8192)
                p[k] = min(255, p[k] + min((want - sum(p)) % 4096, r.randint(1, 255)))
            jobs.append(('steady', bytes(p) * r.randint(8, 20)))
            n = r.randrange(300000)
            jobs.append(('random', r.randbytes(n)))
            jobs.append(('text', payload(r, n, 'text')[1]))
            jobs.append(('bytes 0-3', biased(n, 0, 3)))
        # a cut exactly at each interesting place, made by construction
        for at in [8192, 8193, 8194, 16383, 16384, 16385, 20000, 65533, 65534, 65535]:
            jobs.append(('cut made at %d' % at, craft(r, at) + r.randbytes(r.choice([0, 1, 500, 9000]))))
            # the sum is right just before the minimum: must not cut there
        for early in (8189, 8190, 8191):
            jobs.append(('right sum too early', early_sum(r, early)))

    def check(kind, data, f, way, k):
        rc, out, err, argv = invoke(R, 'zero', f, way, k, k)
        blocks = judge_zero(R, f, rc, out, err, argv, way)
        at = 0
        for i, b in enumerate(blocks):
            last = i == len(blocks) - 1
            n, why = cut(data, at)
            if last and not b and at == len(data):
                continue
            if len(b) != n:
                R.fail('block %d (from %d) holds %d bytes, by the rule it is %d (%s)' % (i, at, len(b), n, why), argv,
                       rc, out, err, f, way)
            if not last:
                R.count('cuts by ' + why)
                if why == 'sum':
                    R.point('cut lengths', n)
                    if n == MIN:
                        R.count('cuts at the minimum')
                    if n > MAX - 3:
                        R.count('cuts by the sum next to the maximum')
            at += n
        return blocks

    def one(j):
        k, (kind, data) = j
        rr = random.Random('C19 %d %d' % (seed, k))
        f = made(rr, data, kind)
        way = ('file', 'stdin file', 'pipe')[k % 3]
        blocks = check(kind, data, f, way, k)
        R.judged('zero: %s, %d bytes, blocks of %s' % (kind, len(data), [len(b) for b in blocks][:12]), data)
        R.count('kind ' + kind.split(' ')[0])
        # the same payload in another wrapping: the same blocks
        if k % 3 == 0:
            g = made(rr, data, kind)
            if check(kind, data, g, 'pipe', k + 1) != blocks:
                R.fail('other blocks for the same payload', [], 0, None, b'', g)
            R.count('same payload wrapped differently')
        # a local edit: from a common cut on everything is the same
        if len(data) > 30000 and (deep or k % 2 == 0):
            p = rr.randrange(len(data))
            q = min(len(data), p + rr.choice([0, 1, 10, 3000]))
            ins = rr.randbytes(rr.choice([0, 1, 1, 10, 5000]))
            data2 = data[:p] + ins + data[q:]
            g = made(rr, data2, kind + ', edited')
            b2 = check(kind, data2, g, 'pipe', k)
            same_tail(R, f, blocks, b2, len(data), len(data2), q, p + len(ins), kind)
    parallel(enumerate(jobs), one)
    need(R, {'cuts by sum': 300, 'cuts by max': 30, 'cuts at the minimum': 30, 'cut lengths': 150,
             'same payload wrapped differently': 20, 'edits': 30, 'edits after which the blocks align again': 15,
             'cuts by the sum next to the maximum': 1, 'kind steady': 20})
    return R.coverage('one payload through zero: each cut is compared with the rule recomputed from the payload alone; '
                      'then the same payload in another wrapping, and after a local edit; distinct = different payload')


def same_tail(R, f, a, b, la, lb, qa, qb, kind):
    """Once both versions cut at the same place of the common tail, all later blocks are identical."""
    def ends(blocks):
        o, v = 0, []
        for x in blocks:
            o += len(x)
            v.append(o)
        return v
    ea, eb = ends(a), ends(b)
    # as distances from the end, where the data is common
    ta = {la - e: i for i, e in enumerate(ea) if e >= qa}
    tb = {lb - e: i for i, e in enumerate(eb) if e >= qb}
    common = [x for x in ta if x in tb and x > 0]
    R.count('edits')
    if common:
        x = max(common)
        if a[ta[x] + 1:] != b[tb[x] + 1:]:
            R.fail('blocks differ after a common cut %d bytes before the end' % x, [], 0, None, b'', f)
        R.count('edits after which the blocks align again')
        R.count('blocks identical after an edit', len(a) - ta[x] - 1)


def craft(r, at):
    """Data whose first cut is exactly after `at` bytes."""
    if at == MIN:
        b = bytearray(r.randbytes(at))
        fix(b, 0, 0)
        return bytes(b)
    # a window sum that stays odd until the last byte
    for _ in range(200):
        b = bytearray(MIN)
        for i in range(MIN):
            b[i] = r.choice([0, 2])
        b[MIN - 1] |= 1
        s = sum(b) % MOD
        if s == 0:
            continue
        while len(b) < at - 1:
            # keep the sum where it is
            b.append(b[len(b) - MIN])
        # last step: one byte can lower or raise the sum by at most 255, so come near first
        target = s
        out = b[len(b) - MIN]
        want = (out - target) % MOD
        if want < 256:
            b.append(want)
            n, why = cut(bytes(b), 0)
            if n == at:
                return bytes(b)
        # adjust the start so that the sum is small
        b2 = bytearray(MIN)
        k = r.randrange(1, 200)
        o = (at - 1 - MIN) % MIN if at - 1 >= MIN else 0
        b2[o] = k
        while len(b2) < at - 1:
            b2.append(b2[len(b2) - MIN])
        # the byte that leaves is k, the one that comes is 0: the sum becomes zero
        b2.append(0)
        if cut(bytes(b2), 0)[0] == at:
            return bytes(b2)
    raise Inconclusive('cannot construct a cut at %d' % at)


def fix(b, at, target):
    """Change bytes so that the first 8192 sum to target modulo 4096."""
    d = (target - sum(b[:MIN])) % MOD
    i = at
    while d:
        k = min(d, 255 - b[i])
        b[i] += k
        d -= k
        i += 1


def early_sum(r, n):
    """The first n < 8192 bytes sum to 4096, the following ones are odd by one."""
    b = bytearray([1] * 4096 + [0] * (n - 4096))
    b[5] = 1
    while len(b) < 20000:
        b.append(1 if len(b) == n else 0)
    return bytes(b) + r.randbytes(9000)


# ---- C20 ----

TOOLS = ('cat', 'dump', 'zero')


def c20(R, rzmon, tier, seed):
    r = random.Random('C20 %d' % seed)
    deep = tier == 'thorough'
    k = itertools.count()

    # what each tool prints when nothing goes wrong is checked by C16-C18; here it is
    # the reference for prefixes, so it is taken from the same independent sources
    def right(tool, f):
        if tool == 'cat':
            return f.payload
        if tool == 'zero':
            o = bytearray(f.gz[:f.header])
            at = 0
            d = f.payload
            while True:
                n, _ = cut(d, at)
                last = at + n >= len(d)
                o += bytes([1 if last else 0]) + struct.pack('<HH', n, n ^ 0xffff) + d[at:at + n]
                at += n
                if last:
                    break
            return bytes(o) + trailer(d)
        recs = read_listing(f.listing) if f.listing is not None else inflate_records(f.gz[f.header:f.end])
        o = []
        n = 0
        for x in recs:
            if x[0] in 'SFD':
                o.append('block %d:\n' % n)
                n += 1
            if x[0] == 'S':
                o.append(' - uncompressed: %d bytes\n' % x[1])
            elif x[0] == 'F':
                o.append(' - fixed huffman:\n')
            elif x[0] == 'D':
                o.append(' - dynamic huffman: BitVec: %d: %s\n' % (len(x[1]), x[1]))
            elif x[0] == 'L':
                o.append('    - lit: 0x%02x: %s\n' % (x[1], char_debug(x[1])))
            elif x[0] == 'R':
                o.append('    - backref: %d byte(s) back, %d bytes long\n' % (x[1], x[2]))
        return ''.join(o).encode()

    def prefix(R, tool, f, rc, out, err, argv, how, want, must_fail, what):
        if must_fail and rc == 0:
            R.fail('%s reports success although %s' % (tool, what), argv, rc, out, err, f, how, want)
        if out is not None:
            if not want.startswith(out):
                R.fail('%s: output is not a prefix of the right one (differs at %d of %d), %s' %
                       (tool, first_diff(out, want), len(out), what), argv, rc, out, err, f, how, want)
            if rc == 0 and out != want:
                R.fail('%s reports success with %d of %d bytes, %s' % (tool, len(out), len(want), what), argv, rc,
                       out, err, f, how, want)
        if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            R.fail('%s dies of signal %d, %s' % (tool, -rc, what), argv, rc, out, err, f, how, want)

    # -- damaged inputs --
    small = [f for f in generated(rzmon, R.d + '/gen', seed * 31 + 20, 260 if deep else 120)
             if len(f.payload) < 20000]
    tiny = sorted((f for f in small if len(f.gz) < (2500 if deep else 260)), key=lambda f: len(f.gz))
    r.shuffle(tiny)
    jobs = []
    for f in tiny[:60 if deep else 5]:
        for t in TOOLS:
            for n in range(f.end):
                jobs.append(('cut', t, f, n))
    for f in small[:200 if deep else 60]:
        ends = {0, 1, f.header - 1, f.header, f.header + 1, f.end - 1, f.end // 2} | {r.randrange(f.end) for _ in range(3)}
        for n in sorted(x for x in ends if 0 <= x < f.end):
            for t in TOOLS:
                jobs.append(('cut', t, f, n))
    # the data so far ends just where zero ends a block
    for d in (bytes(8192), bytes(16384), b'\x10' * 8192, b'\x01\x00\x00' * 21845, b'\x01\x00\x00' * 21845 + bytes(8192)):
        at = 0
        while at < len(d):
            n, why = cut(d, at)
            assert why != 'end'
            at += n
        z = zlib.compressobj(9, zlib.DEFLATED, -15)
        first = z.compress(d) + z.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH]))
        more = r.randbytes(r.randint(1, 40))
        h = header(r, r.choice([0, 8]))
        gz = h + first + deflated(r, more)[0]
        f = File('at a cut', gz + trailer(d + more), d + more, len(h), len(gz), None, 'at a cut')
        at = len(h) + len(first)
        for n in sorted({at - 5, at - 1, at, at + 1, at + 2, len(gz) - 1} | set(r.sample(range(at, len(gz)), min(4, len(gz) - at)))):
            for t in TOOLS:
                jobs.append(('cut', t, f, n))
    for f in broken(rzmon, R.d + '/broken', seed * 37 + 20, 3000 if deep else 360):
        for t in TOOLS:
            if t == 'dump' and f.kind.startswith('TooFar'):
                continue
            jobs.append(('broken', t, f, 0))
    # bad headers
    base = small[0]
    hdrs = []
    for i in range(4):
        for v in (0x00, 0xff, 0x1e, 0x8a, 0x07, 0x20, 0x40, 0x80, 0xe0):
            b = bytearray(base.gz)
            if i < 3:
                if b[i] == v:
                    continue
                b[i] = v
            else:
                if not v & 0xe0:
                    continue
                b[3] |= v & 0xe0
            hdrs.append(bytes(b))
    hdrs += [b'', b'\x1f', b'\x1f\x8b', b'\x1f\x8b\x08', b'hello world, this is no gzip file', bytes(100)]
    for b in hdrs:
        for t in TOOLS:
            jobs.append(('header', t, File('bad-header', b, b'', 0, 0, '', 'bad header'), 0))

    def damaged(j):
        what, t, f, n = j
        i = next(k)
        gz = f.gz[:n] if what == 'cut' else f.gz
        g = File(f.name, gz, f.payload, f.header, 0, f.listing, f.kind)
        way = ('file', 'pipe', 'stdin file')[i % 3]
        rc, out, err, argv = invoke(R, t, g, way, i // 3, i)
        if what == 'cut':
            want = right(t, f)
            prefix(R, t, g, rc, out, err, argv, way, want, True, 'its input ends after %d of %d bytes' % (n, f.end))
            R.point('truncation points', (f.name, n))
            R.count('truncated inputs, ' + t)
        elif what == 'broken':
            want = out
            if t == 'cat':
                want = f.payload
            prefix(R, t, g, rc, out, err, argv, way, want, True, 'its input is broken (%s)' % f.kind)
            if t == 'zero':
                # whole blocks only, and of the right data
                p = f.header
                got = b''
                if out and out[:p] != f.gz[:p]:
                    R.fail('zero: wrong header in front of an error', argv, rc, out, err, g, way)
                while p + 5 <= len(out):
                    m = struct.unpack('<H', out[p + 1:p + 3])[0]
                    got += out[p + 5:p + 5 + m]
                    if out[p] & 1:
                        R.fail('zero: a final block in front of an error', argv, rc, out, err, g, way)
                    p += 5 + m
                if not f.payload.startswith(got):
                    R.fail('zero: wrong data in front of an error', argv, rc, out, err, g, way, f.payload)
            R.count('broken inputs, ' + t)
            R.point('kinds of damage', f.kind.split('(')[0].split(' ')[0])
        else:
            if rc == 0:
                R.fail('%s reports success for an invalid header' % t, argv, rc, out, err, g, way)
            if out:
                R.fail('%s prints something for an invalid header' % t, argv, rc, out, err, g, way)
            R.count('bad headers, ' + t)
        R.judged('%s (%s), %s input: %s, exit %s, %d bytes out' % (t, way, what, f.kind, rc, len(out)), t, way, gz)
    parallel(jobs, damaged)

    # -- inputs that cannot be opened or read --
    for t in TOOLS:
        for e in (0, 1):
            exe = R.exe(e)
            for argv, kind in (([exe, t, R.d + '/no such file'], 'missing'), ([exe, t, R.d], 'a directory'),
                               ([exe, t, small[0].name + '\u1234/x'], 'missing'), ([exe, t, ''], 'empty name')):
                rc, out, err = R.call(argv)
                if rc == 0 or out:
                    R.fail('%s: exit %s for a file that is %s' % (t, rc, kind), argv, rc, out, err)
                R.judged('%s on %s: exit %s' % (t, kind, rc), t, kind, e)
                R.count('unreadable inputs')
            fd = os.open(R.d, os.O_RDONLY)
            rc, out, err = R.call([exe, t], stdin=fd)
            os.close(fd)
            if rc == 0 or out:
                R.fail('%s: exit %s with a directory as its input' % (t, rc), [exe, t], rc, out, err)
            rc, out, err = R.call([exe, t])
            if rc == 0 or out:
                R.fail('%s: exit %s with no input at all' % (t, rc), [exe, t], rc, out, err)

    # -- faults of the system calls --
    outs = []
    kinds = {}
    for f in sorted(small, key=lambda f: (f.kind, f.name)):
        if 0 < len(f.payload) < 400 and kinds.get(f.kind, 0) < (8 if deep else 2):
            kinds[f.kind] = kinds.get(f.kind, 0) + 1
            outs.append(f)
    for n in (1, 900, 1023, 1024, 1025, 8191, 8192, 8193, 20000):
        for kind in ('text', 'random'):
            outs.append(made(r, payload(r, n, kind)[1], kind, flags=r.choice([0, 8])))
    jobs = []
    for f in outs:
        for t in TOOLS:
            want = right(t, f)
            n = len(want)
            if n <= (3000 if deep else 60):
                pts = set(range(n + 1))
            else:
                pts = {0, 1, 2, n - 1, n, n - 8, n - 9, n // 2, 8191, 8192, 8193, 1023, 1024, 1025, 16384, f.header,
                       f.header + 4, f.header + 5, f.header + 6, n - 4, n - 2, n - 3} | \
                      {r.randrange(n) for _ in range(60 if deep else 8)}
            for p in sorted(x for x in pts if 0 <= x <= n):
                jobs.append(('limit' if r.random() < 0.4 else 'write', t, f, want, p, r.randrange(1 << 30)))
            for _ in range(2):
                jobs.append(('call', t, f, want, r.randrange(1, 8), r.randrange(1 << 30)))
            for p in range(1, 4):
                jobs.append(('read', t, f, want, p, r.randrange(1 << 30)))
            jobs.append(('full', t, f, want, 0, 0))
            jobs.append(('gone', t, f, want, 0, r.randrange(1 << 30)))

    def faulty(j):
        what, t, f, want, p, rs = j
        i = next(k)
        exe = R.exe(i)
        rr = random.Random(rs)
        inp, outp, log = R.tmp('in.gz'), R.tmp('out'), R.tmp('log')
        wr(inp, f.gz)
        argv = [exe, t, inp]
        n = len(want)
        try:
            if what == 'full':
                with open('/dev/full', 'wb') as o:
                    rc, _, err = R.call(argv, f, stdout=o, how='/dev/full')
                if n and rc == 0:
                    R.fail('%s reports success writing to a full device' % t, argv, rc, None, err, f, '/dev/full')
                R.count('full device, ' + t)
            elif what == 'gone':
                # nobody reads the pipe any more
                a, b = os.pipe()
                os.close(a)
                # a process that is just being started may still hold the other end
                gone = select.poll()
                gone.register(b, 0)
                while not any(ev & select.POLLERR for _, ev in gone.poll(10)):
                    pass
                rc, _, err = R.call(argv, f, stdout=b, how='closed pipe')
                os.close(b)
                if n and rc == 0:
                    R.fail('%s reports success writing to a closed pipe' % t, argv, rc, None, err, f, 'closed pipe')
                R.count('closed pipe, ' + t)
            elif what == 'limit':
                with open(outp, 'wb') as o:
                    rc, _, err = R.call(argv, f, stdout=o, limit=p, how='file size limit %d' % p)
                out = rd(outp)
                prefix(R, t, f, rc, out, err, argv, 'file size limit %d' % p, want, p < n,
                       'only %d of %d bytes could be written' % (p, n))
                if p == n and rc != 0:
                    R.fail('%s fails although all %d bytes could be written' % (t, n), argv, rc, out, err, f,
                           'file size limit %d' % p, want)
                R.count('write faults, ' + t)
                R.point('output offsets with a fault', (t, f.name, p))
            else:
                e = {'LD_PRELOAD': R.shim, 'FIO_LOG': log, 'FIO_PATH': inp,
                     'FIO_ERRNO': str(rr.choice([5, 28, 27, 32, 11, 122])), 'FIO_ONCE': str(rr.choice([0, 1]))}
                if rr.random() < 0.4 and n < 30000:
                    e['FIO_WSHORT'] = str(rr.choice([1, 100, 3000]))
                    e['FIO_WINTR'] = str(rr.choice([2, 5]))
                if what == 'write':
                    e['FIO_WFAIL'] = str(p)
                elif what == 'call':
                    e['FIO_WFAILC'] = str(p)
                else:
                    e['FIO_RFAIL'] = str(p)
                    e['FIO_RSHORT'] = str(max(1, len(f.gz) // 3))
                how = ' '.join('%s=%s' % kv for kv in sorted(e.items()) if kv[1].isdigit())
                rc, out, err = R.call(argv, f, envs=e, how=how)
                seen = shim_log(log)
                if seen is None:
                    raise Inconclusive('no log from the shim: exit %s, %s' % (rc, err.decode(errors='replace')[-300:]))
                faults = seen[7]
                # a fault that was met counts; one that was never reached changes nothing
                prefix(R, t, f, rc, out, err, argv, how, want, faults > 0,
                       'a %s failed (after %d bytes read, %d written)' % ('read' if what == 'read' else 'write', seen[1], seen[5]))
                if faults == 0 and rc != 0:
                    R.fail('%s fails although no call failed' % t, argv, rc, out, err, f, how, want)
                if what == 'write' and p < n and faults == 0:
                    raise Inconclusive('the write fault at %d of %d was not met' % (p, n))
                if faults:
                    R.count('%s faults met, %s' % ('read' if what == 'read' else 'write', t))
                if what == 'write':
                    R.point('output offsets with a fault', (t, f.name, p))
            R.judged('%s, %s at %d of %d: exit %s' % (t, what, p, n, rc), t, what, f.gz, p, rs)
        finally:
            for x in (inp, outp, log):
                if os.path.exists(x):
                    os.unlink(x)
    parallel(jobs, faulty)
    want = {}
    for t in TOOLS:
        want.update({'truncated inputs, ' + t: 300, 'broken inputs, ' + t: 250, 'bad headers, ' + t: 20,
                     'full device, ' + t: 15, 'closed pipe, ' + t: 15, 'write faults met, ' + t: 100,
                     'read faults met, ' + t: 10, 'write faults, ' + t: 50})
    want.update({'kinds of damage': 8, 'output offsets with a fault': 500, 'truncation points': 300})
    need(R, want)
    return R.coverage('one run of a tool with one fault: input cut at a byte or broken in one rule of the format, an '
                      'input that cannot be opened or read, a read or write that fails at a chosen byte or call (shim, '
                      'file size limit, full device, closed pipe); judged by exit status and by comparing the output '
                      'with the right one; distinct = different input, tool and fault')


CHECKS = {'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20}


def check(prop, tier, seed):
    bins = build(['plain', 'cli-checked', 'cli-plain'])
    d = fresh_dir(prop)
    shim = d + '/faultio.so'
    rc, out, err = run(['gcc', '-O1', '-shared', '-fPIC', '-o', shim, VERIF + '/tools/faultio.c', '-ldl'], 120)
    if rc != 0:
        raise Inconclusive('shim: %s' % err.decode(errors='replace')[-500:])
    R = Runner(prop, d, bins, shim)
    try:
        return CHECKS[prop](R, bins['plain'], tier, seed)
    except Violation as v:
        v.coverage = R.coverage('see the replay file')
        raise
