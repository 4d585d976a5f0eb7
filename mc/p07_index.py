"""P07: mounting with a stored index equals mounting without one."""
import gzip
import io
import itertools
import os
import stat
import subprocess

from . import archives, builders, tarwriter, view
from .archives import COMPRESSION_EXTENSION, FORMATS, D, F, S, Unsupported, compress
from .core import Violation

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'The expected view is that of a mount of the same archive with the same options and a new index in memory (its content is decided by P01 and P03).',
    'Options that only lead to a warning when they differ from those of the stored index are kept the same for both mounts.',
]
POOL = {
    'a1': F('a', b'first a', 0o600), 'a2': F('a', b'second, longer a', 0o4755, 1234567892), 'a0': F('a', b'', 0o444),
    'b': F('b.txt', archives.pattern(9000, 5)), 'Da': D('a', 0o700), 'Sa': S('a', 'b.txt'), 'D': D('d', 0o711, 1234567894),
    'da': F('d/a', b'd/a', 0o755), 'def': F('d/e/f', b'd/e/f'), 'Sd': S('d/s', '../a'), 'uni': F('\u00fc\u20ac a\'"', b'odd name'),
    'dot': F('./d/./x', b'dots'),
}
LARGE = [F('1', archives.pattern(400_000, 1)), D('d'), F('d/2', archives.pattern(70_000, 2)), F('d/3', b'3'), F('4', archives.pattern(300_001, 4))]
INDEXED = ['tar', 'tar-ustar', 'tar-gnu', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip-deflate', 'ar', 'ar-bsd', 'asar', 'squashfs',
           'html-double', 'indexed-folder']
OTHER = ['7z', 'cpio', 'iso', 'xar', 'rar', 'pdf', 'sqlar', 'ext4', 'fat']
PLACES = ['beside', 'folder', 'second', 'explicit', 'url', 'default', 'fileobject']
COMPRESSED = ['gz-readonly', 'bz2-readonly', 'xz-readonly', 'zst-readonly']
FORMS = ['plain', 'gz', 'bz2', 'xz', 'zst', 'readonly', 'moved', 'nowrite', 'verify', 'parallel', 'twice', 'recreate']
SINGLE = ['', 'gz', 'gz2', 'bz2', 'bz2multi', 'xz', 'xzblocks', 'zst', 'zstframes', 'zlib', 'lz4']


def sparse_members():
    members = []
    for how, dialect in (('gnu', 'gnu'), ('0.0', 'pax'), ('0.1', 'pax'), ('1.0', 'pax')):
        content = bytearray(5000)
        ranges = ((512, 512), (2048, 1024), (4608, 392))
        for o, s in ranges:
            content[o:o + s] = archives.pattern(s, o)
        members.append(tarwriter.Member(b'sparse-' + how.encode(), 'sparse', bytes(content), dialect=dialect, holes=ranges, sparse=how))
    return members


def rich_tar():
    m = tarwriter.Member
    members = [
        m(b'd/', 'dir', mode=0o750), m(b'a', data=b'old'), m(b'hard', 'hard', link=b'a'), m(b'a', data=b'newer', mtime=5),
        m(b'hard2', 'hard', link=b'a'), m(b'fifo', 'fifo'), m(b'chr', 'chr'), m(b'blk', 'blk'), m(b'd/s', 'sym', link=b'../a'),
        m(b'i/m/plied', data=b'x', uid=7, gid=8), m(b'./a', data=b'third a'),
        m(b'x', data=b'with xattr', xattrs=((b'user.test', b'value'), (b'user.two', b'\x00\xff')), dialect='pax'),
        m(b'x', data=b'other xattr', xattrs=((b'user.test', b'value 2'),), dialect='pax', libarchive=True),
        m(b'time', data=b't', mtime=1234.75, dialect='pax'), m('\u00fc'.encode('latin1'), data=b'latin'),
        *sparse_members(), m(b'long' * 60, data=b'long name', dialect='gnu'), m(b'end', data=b'end'),
    ]
    return tarwriter.write_tar(members)


def nested_tar(depth=3):
    data = archives.build_tar([F('deepest', b'deepest'), F('d/x', b'x')])
    for n in range(depth):
        data = archives.build_tar([F(f'before{n}', b'before'), F(f'inner{n}.tar', data), F('gz.tar.gz', compress(data, 'gz')), F('after', b'after')])
    return data


def sized_tar(n):
    """The index grows by about one page per two members."""
    return tarwriter.write_tar([tarwriter.Member(b"%03i" % i + b'n' * 800, data=b'%i' % i, dialect='gnu') for i in range(n + 1)])


SPECIAL = {
    **{f'sized-{n}': ('sized.tar', lambda n=n: sized_tar(n)) for n in range(0, 144, 2)},
    'rich': ('rich.tar', rich_tar), 'nested': ('nested.tar', nested_tar), 'empty-zip': ('empty.zip', lambda: archives.build_zip([])),
    'ogg': ('o.ogg', lambda: builders.build_ogg([(1, 'audio', archives.pattern(5000, 1)), (2, 'video', archives.pattern(300, 2)),
                                                   (1, 'audio', archives.pattern(10, 3))])[0]),
    'large.tar.gz': ('large.tar.gz', lambda: compress(archives.build_tar(LARGE), 'gz')),
    'large.tar.gz2': ('large.tar.gz', lambda: compress(archives.build_tar(LARGE), 'gz2')),
    'large.tar.bz2': ('large.tar.bz2', lambda: compress(archives.build_tar(LARGE), 'bz2multi')),
    'large.tar.xz': ('large.tar.xz', lambda: archives.xz_blocks(archives.build_tar(LARGE), 50_000)),
    'large.tar.zst': ('large.tar.zst', lambda: archives.zstd_frames(archives.build_tar(LARGE), 50_000)),
    'rich.gz': ('rich.tar.gz', lambda: compress(rich_tar(), 'gz')), 'rich.zlib': ('rich.tar.zlib', lambda: compress(rich_tar(), 'zlib')),
    'rich.bz2': ('rich.tar.bz2', lambda: compress(rich_tar(), 'bz2')), 'rich.zst': ('rich.tar.zst', lambda: compress(rich_tar(), 'zst')),
    'rich.xz': ('rich.tar.xz', lambda: compress(rich_tar(), 'xz')),
    'incremental': ('inc.tar', lambda: None),
    **{f'single-{how}': ('s' + COMPRESSION_EXTENSION[how], lambda how=how: compress(archives.pattern(200_000, 9), how)) for how in SINGLE if how},
}
VARIANTS = {
    'default': {}, 'hashes': {'hashes': ['crc32', 'sha256']}, 'transform': {'transform': ('^(.*)d/(.*)$', '\\1moved/\\2')},
    'transform-all': {'transform': ('a', 'A')}, 'latin': {'encoding': 'latin1'}, 'zeros': {'ignoreZeros': True},
    'depth1': {'recursive': True, 'recursionDepth': 1}, 'depth2': {'recursive': True, 'recursionDepth': 2}, 'depth0': {'recursionDepth': 0},
    'recursive': {'recursive': True}, 'strip': {'recursive': True, 'stripRecursiveTarExtension': True},
    'lazy': {'recursive': True, 'lazyMounting': True}, 'rename': {'recursive': True, 'transformRecursiveMountPoint': ('[.]tar', '-mounted')},
    'gnu': {'isGnuIncremental': True}, 'nognu': {'isGnuIncremental': False}, 'points': {'gzipSeekPointSpacing': 16 * 1024},
    'serial': {'parallelization': 1}, 'parallel': {'parallelization': 3},
    'libarchive': {'prioritizedBackends': ['libarchive']}, 'indexed_gzip': {'prioritizedBackends': ['indexed_gzip']},
    'zipfile': {'prioritizedBackends': ['zipfile']},
}


def view_of(source):
    """Everything observable, including the root's attributes, versions of the folders and reads in another order."""
    result = view.snapshot(source)
    root = source.lookup('/')
    attributes = view.describe(source, root)
    result['/'] = (attributes[:4] + attributes[5:], source.versions('/'))  # The time may be that of the mount.
    files = [p for p, versions in result.items() if p != '/' and versions[-1][0] == stat.S_IFREG]
    for path in sorted(files)[::-1]:
        data = result[path][-1][7]
        with source.open(source.lookup(path)) as f:
            middle = len(data) * 2 // 3
            f.seek(middle)
            got = f.read(1000)
            if got != data[middle:middle + 1000]:
                raise Violation('read from the middle differs', f'{path!r} {view.short(got)} != {view.short(data[middle:middle + 1000])}')
            f.seek(1)
            if f.read(3) != data[1:4]:
                raise Violation('read after seeking back differs', path)
    for path in ('/missing', '/a/missing', '/d/missing'):
        result[path + '?'] = (source.lookup(path) is None, source.versions(path), source.list(path) is None)
    return result


def mount(name, path, **options):
    if name == 'indexed-folder':
        from ratarmountcore.mountsource.formats.folder import IndexedFolderMountSource
        return IndexedFolderMountSource(path, **options)
    from ratarmountcore.mountsource.factory import open_mount_source
    return open_mount_source(path, **options)


def counted(function):
    """Runs the function and returns its result and how many indexes it created, if that can be told."""
    from ratarmountcore.SQLiteIndex import SQLiteIndex
    original = getattr(SQLiteIndex, 'create_index_timed', None)
    if original is None:
        return function(), -1
    created = [0]

    def patched(self, *args, **kwargs):
        created[0] += 1
        return original(self, *args, **kwargs)

    SQLiteIndex.create_index_timed = patched
    try:
        return function(), created[0]
    finally:
        SQLiteIndex.create_index_timed = original


def index_files(folder, name):
    return sorted(os.path.join(root, f) for root, _, files in os.walk(folder) for f in files if '.index.sqlite' in f or f.startswith('explicit'))


def run(ctx, case):
    kind, sequence, variant, place, form = case
    folder = ctx.tmpdir()
    os.mkdir(os.path.join(folder, 'in'))
    cache = os.path.join(folder, 'cache')
    os.mkdir(cache)
    if kind in SPECIAL:
        fileName, build = SPECIAL[kind]
        path = os.path.join(folder, 'in', fileName)
        if kind == 'incremental':
            tree = os.path.join(folder, 'tree')
            archives.write_folder([F('a', b'a'), D('d'), F('d/x', b'x'), F('d/e/y', b'y')], tree)
            subprocess.run(['tar', '--listed-incremental', os.path.join(folder, 'snar'), '-cf', path, '-C', tree, '.'], check=True)
        else:
            with open(path, 'wb') as f:
                f.write(build())
    else:
        path = os.path.join(folder, 'in', 'archive' + FORMATS[kind].extension)
        try:
            FORMATS[kind].build(sequence, path)
        except Unsupported:
            ctx.count('unsupported')
            return
    what = f'{kind} {variant} {place} {form}'
    explicit = os.path.join(folder, 'explicit index')
    placed = {
        'beside': {'indexFolders': [''], 'indexMinimumFileCount': 0},
        'folder': {'indexFolders': [cache], 'indexMinimumFileCount': 0},
        'second': {'indexFolders': ['/dev/null/not/usable', '', cache], 'indexMinimumFileCount': 0},
        'explicit': {'indexFilePath': explicit},
        'url': {'indexFilePath': 'file://' + explicit},
        'default': {},
        'fileobject': {'indexFilePath': explicit},
    }
    placed.update({f'threshold{n}': {'indexFolders': [''], 'indexMinimumFileCount': n} for n in (1, 2, 3, 5, 10, 20)})
    options = dict(VARIANTS[variant])
    place_options = placed[place]

    def look(**extra):
        def attempt():
            opened = None
            if place == 'fileobject':
                opened = open(path, 'rb')
            try:
                with mount(kind, opened or path, **(options | extra)) as source:
                    return view_of(source)
            except Violation:
                raise
            except Exception as e:
                return f'{type(e).__name__}'
            finally:
                if opened:
                    opened.close()
        return counted(attempt)

    expected, _ = look(indexFilePath=':memory:', writeIndex=False)
    if isinstance(expected, str):
        if kind in SPECIAL and variant == 'default':
            raise Violation('a mount without an index fails', f'{what}: {expected}')
        ctx.count('refused')
    first, created = look(writeIndex=True, **place_options)
    if first != expected and (kind, place) != ('ogg', 'fileobject'):
        fail('mount that writes the index differs from one without', what, first, expected)
    stored = index_files(folder, path)
    ctx.count('stored' if stored else 'not stored')
    extra = {'writeIndex': True}
    environment = {}
    if form == 'readonly':
        if not stored:
            return  # Mounting without creating an index, not even in memory, is refused.
        extra = {'readOnlyIndex': True, 'writeIndex': False}
    elif form == 'nowrite':
        extra = {'writeIndex': False}
    elif form == 'verify':
        extra['verifyModificationTime'] = True
    elif form == 'parallel':
        extra['parallelization'] = 2
    elif form == 'moved' and stored:
        # It may be looked up in all of the usual places.
        target = path + '.index.sqlite' if place not in ('beside', 'default') else os.path.join(cache, (path + '.index.sqlite').replace('/', '_'))
        os.rename(stored[0], target)
        place_options = {'indexFolders': [cache, '']}
    elif form.split('-')[0] in ('gz', 'bz2', 'xz', 'zst') and stored:
        if form.endswith('-readonly'):
            extra = {'readOnlyIndex': True, 'writeIndex': False}
            form = form.split('-')[0]
            ctx.state('index size', form, os.path.getsize(stored[0]) % 65536)
        with open(stored[0], 'rb') as f:
            data = f.read()
        target = stored[0] + '.' + form if place in ('beside', 'default') else stored[0]
        os.unlink(stored[0])
        with open(target, 'wb') as f:
            f.write(compress(data, form))
        os.makedirs(os.path.join(folder, 'tmp'))
        environment['RATARMOUNT_INDEX_TMPDIR'] = os.path.join(folder, 'tmp')
    elif form == 'recreate':
        extra['clearIndexCache'] = True
    os.environ.update(environment)
    first = None
    try:
        if form == 'twice':
            first = mount(kind, path, **options, **{k: v for k, v in place_options.items()}, **extra) if place != 'fileobject' else None
        for attempt in range(2):
            if kind == 'ogg' and place == 'fileobject':
                break  # Files without a name have the time of the mount.
            again, created = look(**place_options, **extra)
            ctx.count('transitions')
            if stored:
                ctx.count('index used' if created == 0 else 'index not used')
            if again != expected:
                fail('mount with a stored index differs from one without', f'{what}, mount {attempt + 2}', again, expected)
    finally:
        for key in environment:
            os.environ.pop(key)
        if first is not None:
            if view_of(first) != expected:
                raise Violation('mount differs after another one of the same archive', what)
            first.__exit__(None, None, None)
    if kind not in SPECIAL and stored and not isinstance(expected, str) and form == 'plain' and place == 'explicit' and kind != 'indexed-folder':
        # The index alone shows the same tree.
        from ratarmountcore.mountsource.factory import open_mount_source
        with open_mount_source(explicit) as source:
            alone = view.snapshot(source, content=False)
        want = {p: v for p, v in expected.items() if not p.endswith('?') and p != '/'}
        want = {p: tuple(e[:7] + (None,) + e[8:] for e in v) for p, v in want.items()}
        alone = {p: tuple(e[:7] + (None,) + e[8:] for e in v) for p, v in alone.items()}
        if difference := view.diff(alone, want):
            raise Violation('mounted index differs from the archive', f'{what}: {difference}')
    ctx.state(kind, tuple(i.path + i.kind for i in sequence), variant, place, form)
    ctx.sample({'archive': kind, 'members': [i.path for i in sequence], 'options': variant, 'place': place, 'form': form})
    ctx.count('traces')
    from .core import rmtree
    rmtree(folder)


def fail(sig, what, got, expected):
    if isinstance(got, str) or isinstance(expected, str):
        raise Violation(sig, f'{what}: {view.short(got)} != {view.short(expected)}')
    raise Violation(sig, f'{what}: {view.diff(got, expected)}')


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    basic = [('beside', 'plain'), ('explicit', 'plain')]
    matrix = [(p, f) for p in PLACES for f in FORMS]
    few = [POOL[k] for k in ('a1', 'a2', 'Da', 'Sa', 'da', 'def')]
    mixed = tuple(POOL.values())
    everything = (POOL['a1'], POOL['D'], POOL['da'], POOL['Sd'], POOL['uni'], POOL['b'])
    for kind in INDEXED:
        for place, form in matrix:
            if not (kind == 'indexed-folder' and place == 'fileobject'):
                cases += [(kind, s, 'default', place, form) for s in ((mixed, mixed[::-1], everything, ()) if thorough else (everything, mixed))]
        for variant in ('hashes', 'transform', 'transform-all'):
            cases += [(kind, everything, variant, place, form) for place, form in matrix if thorough or place in ('beside', 'explicit')
                      if not (kind == 'indexed-folder' and place == 'fileobject')]
        for n in (1, 2, 3, 5, 10, 20):
            for s in (everything, everything[:1], everything[:2], mixed):
                cases += [(kind, s, v, f'threshold{n}', 'plain') for v in ('default', 'hashes')]
        for n in range(1, (4 if kind in ('tar', 'zip', 'ar', 'asar', 'tar.gz') else 3) if thorough else 3):
            for s in itertools.product(mixed if n < 3 or kind == 'tar' else few, repeat=n):
                cases += [(kind, s, 'default', place, form) for place, form in (basic if thorough or n < 2 else basic[:1])]
    for kind in OTHER:
        cases += [(kind, everything, v, place, 'plain') for v in ('default', 'hashes') for place in PLACES]
    for kind in [*INDEXED, *SPECIAL]:
        for form in COMPRESSED:
            cases += [(kind, () if kind in SPECIAL else everything, 'default', place, form) for place in ('beside', 'explicit')
                      if thorough or place == 'explicit' and (not kind.startswith('sized') or form[0] in 'gx')]
    for kind in SPECIAL:
        if kind.startswith('sized'):
            continue
        for variant in VARIANTS:
            relevant = {'large': ('default', 'points', 'serial', 'parallel', 'libarchive', 'indexed_gzip', 'hashes'),
                        'single': ('default', 'points', 'serial', 'parallel', 'recursive', 'depth0', 'indexed_gzip', 'libarchive', 'hashes')
                        }.get(kind.split('.')[0].split('-')[0], VARIANTS)
            if not thorough and variant not in relevant:
                continue
            for place, form in matrix:
                if thorough or (place, form) in basic or (variant == 'default' and (place in ('beside', 'explicit') or form == 'plain')):
                    cases.append((kind, (), variant, place, form))
    yield cases, run, {'limit': 120}
