"""P20: stored hashes match the contents, whatever interrupted computing them."""
import gc
import hashlib
import itertools
import os
import stat
import zlib

from . import archives, crash, tarwriter, view
from .archives import FORMATS, F, Unsupported
from .core import Violation, rmtree
from .p07_index import INDEXED, POOL, SPECIAL, VARIANTS, mount, view_of

crash.ensure_preloaded()

LEVEL = 'fault_enumeration'
ASSUMPTIONS = [
    'The contents are those of a mount without hashes (decided by P01 and P03), and the oracle for the algorithms is hashlib (its implementations are trusted).',
    'The process dies between or inside of its own system calls (no power loss). Failing reads raise an exception.',
    'Archives that bring attributes named like hashes with them are not explored.',
]
FLAT = ('ar', 'ar-bsd', 'html-double')
SUBSETS = [s for n in range(4) for s in itertools.combinations(('crc32', 'md5', 'smplayer'), n)]
SIZES = [0, 1, 7, 8, 9, 16, 65535, 65536, 65537, 65543, 131071, 131072, 131073, 131081, 196608, 1048575, 1048576, 1048577, 2097152, 2097159, 3000001]


def words(data):
    return sum(int.from_bytes(data[i:i + 8], 'little') for i in range(0, len(data), 8))


def reference(name, data):
    if name == 'crc32':
        return b'%08x' % zlib.crc32(data)
    if name == 'smplayer':
        # The size, and the words of the first and last 64 KiB without counting anything twice.
        last = data[max(65536, len(data) - 65536):]
        return b'%016x' % ((len(data) + words(data[:65536]) + words(last)) % 2 ** 64)
    if name.startswith('sha3-'):
        name = name.replace('-', '_')
    return hashlib.new(name, data).hexdigest().encode()


def with_hashes(base, names):
    result = {}
    for path, versions in base.items():
        if path == '/' or path.endswith('?'):
            result[path] = versions
            continue
        result[path] = tuple(v[:8] + (tuple(sorted(v[8] + tuple(('user.hash.' + n, reference(n, v[7])) for n in names))),) if v[0] == stat.S_IFREG else v
                             for v in versions)
    return result


def build(kind, sequence, folder):
    if kind in SPECIAL:
        name, make = SPECIAL[kind]
        path = os.path.join(folder, name)
        if kind == 'incremental':
            import subprocess
            tree = os.path.join(folder, 'tree')
            archives.write_folder([F('a', b'a'), archives.D('d'), F('d/x', b'x'), F('d/e/y', b'y')], tree)
            subprocess.run(['tar', '--listed-incremental', os.path.join(folder, 'snar'), '-cf', path, '-C', tree, '.'], check=True)
        else:
            with open(path, 'wb') as f:
                f.write(make())
        return path
    if kind in FLAT:
        sequence = [F(i.path.replace('/', '-'), i.data) for i in sequence if i.kind == 'file']
    path = os.path.join(folder, 'archive' + FORMATS[kind].extension)
    FORMATS[kind].build(sequence, path)
    return path


def look(kind, path, **options):
    with mount(kind, path, **options) as source:
        return view_of(source)


def compare(got, want, what):
    if got != want:
        raise Violation('wrong attributes', f'{what}: {view.diff(got, want)}')


def place_of(place, folder):
    return {'memory': {'indexFilePath': ':memory:'}, 'explicit': {'indexFilePath': os.path.join(folder, 'index'), 'writeIndex': True},
            'beside': {'indexFolders': [''], 'indexMinimumFileCount': 2, 'writeIndex': True}, 'nowrite': {'writeIndex': False},
            'default': {'writeIndex': True}}[place]


# ---- formats ---------------------------------------------------------------------------------------------------------


def run(ctx, case):
    kind, sequence, variant, names, place = case
    folder = ctx.tmpdir()
    try:
        try:
            path = build(kind, sequence, folder)
        except Unsupported:
            ctx.count('unsupported')
            return
        options = VARIANTS[variant]
        try:
            base = look(kind, path, **options, indexFilePath=':memory:', writeIndex=False)
        except Violation:
            raise
        except Exception as e:
            ctx.count(f'refused: {type(e).__name__}')
            return
        want = with_hashes(base, names)
        for attempt in range(1 if place == 'memory' else 2):
            compare(look(kind, path, **options, hashes=list(names), **place_of(place, folder)), want, f'{kind} {variant} {names} {place}, mount {attempt + 1}')
            ctx.count('transitions')
        ctx.count('hashes', sum(v[0] == stat.S_IFREG for p, vs in base.items() if p != '/' and not p.endswith('?') for v in vs) * len(names))
        ctx.state(kind, tuple(i.path + i.kind for i in sequence), variant, names, place)
        ctx.count('traces')
        ctx.sample({'archive': kind, 'members': [i.path for i in sequence], 'options': variant, 'hashes': names, 'index': place})
    finally:
        rmtree(folder)


# ---- algorithms and sizes --------------------------------------------------------------------------------------------


def run_sizes(ctx, case):
    name, kind = case
    folder = ctx.tmpdir()
    try:
        members = [F(f'{size}', archives.pattern(size, size + 1)) for size in SIZES]
        path = os.path.join(folder, 'archive' + FORMATS[kind].extension)
        FORMATS[kind].build(members, path)
        with mount(kind, path, hashes=[name], indexFilePath=':memory:') as source:
            for member in members:
                info = source.lookup('/' + member.path)
                got = source.get_xattr(info, 'user.hash.' + name)
                want = reference(name, member.data)
                if got != want or source.list_xattr(info) != ['user.hash.' + name]:
                    raise Violation('wrong hash', f'{name} of {len(member.data)} bytes in {kind}: {got} != {want}, {source.list_xattr(info)}')
                ctx.count('transitions')
                ctx.state(name, kind, len(member.data))
    finally:
        rmtree(folder)


# ---- histories -------------------------------------------------------------------------------------------------------


def members_of(kind):
    if kind in ('asar', 'squashfs'):
        return [F('a', b'one'), F('b', b'two'), F('c', b'one'), F('d/e', archives.pattern(70000, 3)), F('d/f', b'')]
    return [POOL[k] for k in ('a1', 'b', 'a2', 'D', 'da', 'def', 'Sd', 'a0')]


def run_history(ctx, case):
    kind, history, place = case
    folder = ctx.tmpdir()
    try:
        path = build(kind, members_of(kind), folder)
        base = look(kind, path, indexFilePath=':memory:', writeIndex=False)
        done = []
        for n, names in enumerate(history):
            done += [name for name in names if name not in done]
            got = look(kind, path, hashes=list(names), **place_of(place, folder))
            compare(got, with_hashes(base, done), f'{kind} {place}, mounts with hashes {history}, after mount {n + 1}')
            ctx.count('transitions')
        ctx.state(case)
        ctx.count('traces')
    finally:
        rmtree(folder)


# ---- failing reads and interruptions ---------------------------------------------------------------------------------


class Interrupt(KeyboardInterrupt):
    pass


class FailingFile:
    """Hands everything on until the given number of reads."""

    def __init__(self, file, reads, error):
        self._file, self._reads, self._error = file, reads, error

    def read(self, *args):
        if self._reads == 0:
            raise self._error
        self._reads -= 1
        return self._file.read(*args)

    def __getattr__(self, name):
        return getattr(self._file, name)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._file.close()

    def __iter__(self):
        raise AssertionError('only reading is expected')


def run_failing(ctx, case):
    kind, sequence, first, names, error, opens, reads, place = case
    folder = ctx.tmpdir()
    from ratarmountcore.mountsource.formats import ar, tar, zip
    classes = [tar.SQLiteIndexedTar, zip.ZipMountSource, ar.ARMountSource]
    try:
        path = build(kind, sequence, folder)
        base = look(kind, path, indexFilePath=':memory:', writeIndex=False)
        if first is not None:
            look(kind, path, hashes=list(first), **place_of(place, folder))
        originals = [c.open for c in classes]
        count = [0]

        def replaced(original):
            def opened(self, *args, **kwargs):
                count[0] += 1
                if count[0] == opens + 1:
                    if reads is None:
                        raise error('injected')
                    return FailingFile(original(self, *args, **kwargs), reads, error('injected'))
                return original(self, *args, **kwargs)
            return opened

        got = None
        for c, original in zip_(classes, originals):
            c.open = replaced(original)
        try:
            source = mount(kind, path, hashes=list(names), **place_of(place, folder))
        except (OSError, ValueError, Interrupt) as e:
            ctx.count('mounts that fail')
            source = None
        finally:
            for c, original in zip_(classes, originals):
                c.open = original
        # A traceback could keep the index locked.
        gc.collect()
        if count[0] <= opens:
            ctx.count('not reached')
        union = list(dict.fromkeys([*(first or ()), *names]))
        want = with_hashes(base, union)
        if source is not None:
            with source:
                got = view_of(source)
            # Hashes may be missing but never be wrong.
            compare(reduced(got, want), want, f'{case}: during the mount with the failure')
        if place != 'memory':
            again = look(kind, path, hashes=list(names), **place_of(place, folder))
            compare(again, want, f'{case}: after the mount with the failure')
        ctx.count('transitions', 2)
        ctx.state(case[:4] + (error.__name__,) + case[5:])
        ctx.count('traces')
    finally:
        rmtree(folder)


zip_ = zip


def reduced(got, want):
    """Adds those hashes to the view that are only missing."""
    result = dict(got)
    for path, versions in got.items():
        if path == '/' or path.endswith('?') or path not in want or len(want[path]) != len(versions):
            continue
        result[path] = tuple(v[:8] + (tuple(sorted(v[8] + tuple(x for x in w[8] if x[0] not in dict(v[8]) and x[0].startswith('user.hash.')))),)
                             for v, w in zip(versions, want[path]))
    return result


# ---- crashes ---------------------------------------------------------------------------------------------------------


def crash_members(kind, many):
    if many:
        return [F(f'{i:03}', b'%i' % i) for i in range(360)]
    return members_of(kind)


def run_crash(ctx, case):
    kind, many, first, names, place, share, shares, torn = case
    folder = ctx.tmpdir()
    start = os.path.join(folder, 'start')
    os.mkdir(start)
    try:
        path = build(kind, crash_members(kind, many), start)
        name = os.path.basename(path)
        base = look(kind, path, indexFilePath=':memory:', writeIndex=False)
        if first is not None:
            look(kind, path, hashes=list(first), **place_of(place, start))
        union = list(dict.fromkeys([*(first or ()), *names]))
        want = with_hashes(base, union)
        copies = itertools.count()

        def prepare():
            import shutil
            new = os.path.join(folder, f'copy{next(copies)}')
            shutil.copytree(start, new, copy_function=lambda a, b: (os.link if os.path.basename(a) == name else shutil.copy2)(a, b))
            return new, os.path.join(new, name)

        def child(new, archive):
            def perform(arm):
                arm()
                with mount(kind, archive, hashes=list(names), **place_of(place, new)):
                    pass
                crash.library().crash_disarm()
            return perform

        new, archive = prepare()
        state, (kinds, result) = crash.run_child(child(new, archive))
        assert state == 'done' and result is None, result
        rmtree(new)
        if not kinds:
            raise Violation('nothing was written', str(case))
        for number, (n, part) in enumerate(crash.points(kinds, torn)):
            if number % shares != share:
                continue
            new, archive = prepare()
            state, _ = crash.run_child(child(new, archive), n, part)
            if state == 'crashed':
                what = f'{case[:5]} stopped at change {n} ({kinds[n:n + 1].decode()}) of {len(kinds)}, partially {part}'
                # Without any hashes being requested, only hashes that are still missing may be missing
                middle = look(kind, archive, **place_of(place, new))
                compare(reduced(middle, want), want, what + ', without requesting hashes')
                compare(look(kind, archive, hashes=list(names), **place_of(place, new)), with_hashes(base, sorted(set(names) | common(middle))), what)
                ctx.count('transitions', 2)
                ctx.state(case[:5], n, part)
                ctx.count('traces')
            rmtree(new)
        ctx.count('crash points', len(kinds) // shares)
        ctx.sample({'scenario': case[:5], 'changes': len(kinds)})
    finally:
        rmtree(folder)


def common(got):
    """The hashes that were stored before. They are kept except when the index is created anew after the crash."""
    files = [dict(v[8]) for p, vs in got.items() if p != '/' and not p.endswith('?') for v in vs if v[0] == stat.S_IFREG]
    present = set().union(*files)
    return {k[len('user.hash.'):] for k in present if k.startswith('user.hash.') and all(k in f for f in files)}


def stages(tier):
    thorough = tier == 'thorough'
    everything = tuple(POOL.values())
    cases = []
    pairs = [('crc32',), ('md5', 'smplayer')]
    places = ['memory', 'explicit', 'beside', 'nowrite', 'default']
    for kind in [*INDEXED, '7z', 'cpio', 'iso', 'xar', *(k for k in SPECIAL if not k.startswith('sized'))]:
        special = kind in SPECIAL
        for variant in VARIANTS if special else ('default', 'transform', 'transform-all', 'latin'):
            if variant == 'hashes' or not thorough and special and variant in ('serial', 'parallel', 'points', 'libarchive', 'indexed_gzip', 'zipfile', 'depth2') and kind != 'rich':
                continue
            for names in pairs if not thorough else [*pairs, *SUBSETS[1:]]:
                for place in places if variant == 'default' or thorough else places[:1]:
                    cases.append((kind, () if special else everything, variant, names, place))
        if not special:
            for n in range(1, 4 if kind in ('tar', 'zip') and thorough else 3 if kind in ('tar', 'zip') or thorough else 2):
                for sequence in itertools.product(everything, repeat=n):
                    cases.append((kind, sequence, 'default', ('crc32', 'md5'), 'memory'))
    yield cases, run, {'limit': 120}
    from ratarmountcore.hashing import HASH_REGISTRY
    yield [(name, kind) for name in HASH_REGISTRY for kind in (('tar', 'tar.gz', 'zip-deflate') if thorough else ('tar',))], run_sizes, {'limit': 120}
    cases = []
    for kind in ('tar', 'tar.gz', 'zip', 'ar', 'asar', 'squashfs', 'single-gz', 'single-bz2', 'single-xz', 'single-zst', 'nested', 'rich'):
        for place in ('explicit', 'beside') if kind in ('tar', 'zip') or thorough else ('explicit',):
            for n in ((1, 2, 3) if kind in ('tar', 'zip') or thorough else (1, 2)):
                for history in itertools.product(SUBSETS if thorough or n < 2 or n < 3 and kind in ('tar', 'zip') else SUBSETS[:3] if n == 3 else SUBSETS[1:5], repeat=n):
                    cases.append((kind, history, place))
    yield cases, run_history, {'limit': 120}
    cases = []
    for kind in ('tar', 'zip', 'ar') if not thorough else ('tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip-deflate', 'ar', 'single-gz', 'single-bz2', 'nested', 'rich'):
        for first in (None, (), ('crc32',)):
            for names in (('md5',), ('crc32', 'md5', 'smplayer')):
                for error in (OSError, ValueError, Interrupt) if thorough else (OSError, Interrupt):
                    for opens in range(10 if thorough else 9 if names == ('md5',) else 4):
                        for reads in (None, 0, 1):
                            for place in ('explicit', 'memory'):
                                if place == 'memory' and (first is not None or not thorough and kind != 'tar'):
                                    continue
                                cases.append((kind, tuple(members_of(kind)), first, names, error, opens, reads, place))
    yield cases, run_failing, {'limit': 60}
    scenarios = [('tar', False, None, ('crc32', 'md5'), 'explicit'), ('tar', False, ('crc32',), ('md5', 'crc32'), 'explicit'), ('tar', True, (), ('crc32', 'md5', 'smplayer'), 'explicit'),
                 ('zip', False, ('crc32',), ('md5',), 'beside')]
    if thorough:
        scenarios += [(kind, many, first, names, place) for kind in ('tar', 'tar.gz', 'zip', 'ar', 'single-gz', 'squashfs', 'nested') for many in (False, True)
                      for first in (None, (), ('crc32',)) for names in (('md5',), ('crc32', 'md5', 'smplayer')) for place in ('explicit', 'beside')
                      if not many or kind in ('tar', 'zip')]
        scenarios = list(dict.fromkeys(scenarios))
    shares = 8
    yield [(*s, i, shares, 'all' if thorough else True) for s in scenarios for i in range(shares)], run_crash, {'limit': 900}
