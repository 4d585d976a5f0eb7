"""P24: size limited cache, access prediction, chunked database store."""
import copy
import io
import itertools
import pickle
import sqlite3

from .core import Violation
from ratarmountcore.SQLiteBlobFile import SQLiteBlobFile, SQLiteBlobsFile, WriteSQLiteBlobs
from ratarmountcore.utils import LRUCache, Prefetcher

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Cache states are deduplicated on the pickled implementation object together with the model state, so the cache '
    'exploration reaches every state reachable with 3 keys and 2 values (up to the stated state cap).',
    'A "use" of a cache entry is storing it, indexing it, or getting it; membership tests do not count.',
]

# ---- cache: explicit state exploration with deduplication ------------------------------------------------------------

KEYS = (0, 1, 2)
VALUES = ('x', None)


def cache_ops():
    ops = []
    for k in KEYS:
        ops += [('set', k, v) for v in VALUES]
        ops += [('setdefault', k, 'd'), ('getitem', k), ('get', k), ('getd', k, 'e'), ('del', k), ('in', k)]
    return ops + [('clear',)]


class CacheModel:
    def __init__(self, size):
        self.size = size
        self.items = []  # (key, value), least recently used first

    def _find(self, k):
        for i, (key, _) in enumerate(self.items):
            if key == k:
                return i
        return None

    def _touch(self, k):
        i = self._find(k)
        if i is not None:
            self.items.append(self.items.pop(i))

    def _store(self, k, v):
        i = self._find(k)
        if i is not None:
            self.items.pop(i)
        self.items.append((k, v))
        while len(self.items) > self.size:
            self.items.pop(0)

    def apply(self, op):
        name, args = op[0], op[1:]
        if name == 'set':
            self._store(*args)
            return None
        if name == 'clear':
            self.items = []
            return None
        i = self._find(args[0])
        held = i is not None
        value = self.items[i][1] if held else None
        if name == 'setdefault':
            if held:
                self._touch(args[0])
                return value
            self._store(*args)
            return args[1]
        if name == 'getitem':
            if not held:
                return KeyError
            self._touch(args[0])
            return value
        if name in ('get', 'getd'):
            if not held:
                return args[1] if name == 'getd' else None
            self._touch(args[0])
            return value
        if name == 'del':
            if not held:
                return KeyError
            self.items.pop(i)
            return None
        if name == 'in':
            return held
        raise AssertionError(name)


def cache_apply(cache, op):
    name, args = op[0], op[1:]
    try:
        if name == 'set':
            cache[args[0]] = args[1]
            return None
        if name == 'clear':
            cache.clear()
            return None
        if name == 'setdefault':
            return cache.setdefault(*args)
        if name == 'getitem':
            return cache[args[0]]
        if name == 'get':
            return cache.get(args[0])
        if name == 'getd':
            return cache.get(*args)
        if name == 'del':
            del cache[args[0]]
            return None
        if name == 'in':
            return args[0] in cache
    except KeyError:
        return KeyError
    raise AssertionError(name)


def check_cache(ctx, case):
    size, cap = case
    ops = cache_ops()
    start = (LRUCache(size), CacheModel(size), ())
    frontier = [start]
    seen = {(pickle.dumps(start[0]), tuple(start[1].items))}
    while frontier:
        nextFrontier = []
        for cache, model, trace in frontier:
            for op in ops:
                c, m = copy.deepcopy(cache), copy.deepcopy(model)
                expected = m.apply(op)
                got = cache_apply(c, op)
                ctx.count('transitions')
                history = trace + (op,)
                if len(history) > 3:
                    ctx.sample({'size': size, 'operations': history})
                if got is not expected and got != expected:
                    raise Violation('cache answer', f'size {size}, operations {history}: got {got!r}, expected {expected!r}')
                held = {k: c.data[k] if hasattr(c, 'data') else v for k, v in zip(c.keys(), c.values())}
                if held != dict(m.items) or len(c) != len(m.items) or bool(c) != bool(m.items):
                    raise Violation('cache content', f'size {size}, operations {history}: holds {held!r}, '
                                                     f'expected {dict(m.items)!r} (len {len(c)})')
                key = (pickle.dumps(c), tuple(m.items))
                if key not in seen and len(history) < 12 and len(seen) < cap:
                    seen.add(key)
                    nextFrontier.append((c, m, history))
        frontier = nextFrontier
    ctx.count('traces', len(seen))
    for s in seen:
        ctx.state('cache', size, s)


# ---- access prediction -----------------------------------------------------------------------------------------------


def check_prefetch(ctx, case):
    memory, history = case
    prefetcher = Prefetcher(memory)
    for maximum in (-1, 0, 1, 3):
        if list(prefetcher.prefetch(maximum)):
            raise Violation('prediction without history')
    for i, value in enumerate(history):
        prefetcher.fetch(value)
        for maximum in (-1, 0, 1, 2, 3, 5, 8):
            suggested = list(prefetcher.prefetch(maximum))
            ctx.count('transitions')
            ctx.state('prefetch', memory, history[: i + 1], maximum)
            if len(suggested) > max(0, maximum):
                raise Violation('prediction exceeds its limit', f'{memory} {history[:i + 1]} {maximum}: {suggested}')
            if suggested != list(range(value + 1, value + 1 + len(suggested))):
                raise Violation('prediction not directly ahead', f'{memory} {history[:i + 1]} {maximum}: {suggested}')
            if maximum > 0 and not suggested:
                raise Violation('no prediction', f'{memory} {history[:i + 1]} {maximum}')
    ctx.count('traces')


# ---- chunked blob store ----------------------------------------------------------------------------------------------

PATTERN = bytes(range(1, 40))


def check_blobs(ctx, case):
    blobSize, writes = case
    connection = sqlite3.connect(':memory:')
    connection.execute('CREATE TABLE t (data BLOB)')
    data = b''
    kinds = (bytes, bytearray, memoryview)
    with WriteSQLiteBlobs(connection, 't', blob_size=blobSize) as f:
        for i, n in enumerate(writes):
            chunk = PATTERN[len(data) : len(data) + n]
            written = f.write(kinds[i % 3](chunk))
            data += chunk
            if written != n or f.tell() != len(data):
                raise Violation('blob writer position', f'{case}: {written} {f.tell()}')
            ctx.count('transitions')
    stored = [bytes(r[0]) for r in connection.execute('SELECT data FROM t ORDER BY ROWID')]
    ctx.count('traces')
    ctx.state('blobs', case)
    ctx.sample({'blob size': blobSize, 'write sizes': writes})
    if b''.join(stored) != data:
        raise Violation('blob store content', f'{case}: {stored}')
    for bufferSize in (1, 3, 8192):
        f = SQLiteBlobsFile(connection, 't', 'data', buffer_size=bufferSize)
        if f.read() != data:
            raise Violation('blob store read back', f'{case}')
        for offset in range(len(data) + 1):
            f.seek(offset)
            if f.read(3) != data[offset : offset + 3] or f.tell() != min(len(data), offset + 3):
                raise Violation('blob store positioned read', f'{case} offset {offset}')
            ctx.count('transitions')
    if data:
        connection.execute('CREATE TABLE single (data BLOB)')
        connection.execute('INSERT INTO single VALUES (?)', (data,))
        f = SQLiteBlobFile(connection, 'SELECT {}data{} FROM single')
        for offset in range(len(data) + 2):
            for size in (-1, 0, 1, 2, 100):
                f.seek(offset)
                expected = data[offset:] if size < 0 else data[offset : offset + size]
                if f.read(size) != expected:
                    raise Violation('single blob positioned read', f'{case} {offset} {size}')
                ctx.count('transitions')


def stages(tier):
    thorough = tier == 'thorough'
    yield [(size, 60000 if thorough else 6000) for size in range(0, 5)], check_cache, {'limit': 600}
    depth = 7 if thorough else 6
    cases = [(m, h) for m in (2, 3, 4, 5) for h in itertools.product(range(4), repeat=depth)]
    yield cases, check_prefetch, {}
    sizes = range(0, 6 if thorough else 5)
    counts = range(0, 6 if thorough else 5)
    yield [(b, w) for b in range(1, 6) for n in counts for w in itertools.product(sizes, repeat=n)], check_blobs, {}
