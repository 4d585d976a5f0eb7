"""P02: listing, type listing, lookup, existence, version count and folder flag describe one tree."""
import itertools
import os
import shutil
import stat
import zipfile

from . import archives, view
from .archives import FORMATS, D, F, S, Unsupported, open_format
from .core import REPO, Violation
from .p03_formats import COMMON, ODD

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Paths are normalized as the kernel passes them to FUSE: absolute, without dot entries and doubled slashes.',
    'What a listing returns for a path that is no folder is only required to be empty or nothing.',
]
NAMES = ('a', 'b.txt', 'd', 'e', 'f', 's', 'x', 'A', 'a b', '*', '%', 'd%')


def describe(info):
    return stat.S_IFMT(info.mode), info.size, info.linkname, info.uid, info.gid


def check_consistent(source, where, *, names=NAMES, maxDepth=4, hardRaw=False, content=True, count=None, maxEntries=3000, belowFiles=False,
                     versions=True):
    """Every path over the given names and all listed ones, in folders and below files."""
    seen = 0
    todo = [('/', source.lookup('/'))]
    if todo[0][1] is None or not stat.S_ISDIR(todo[0][1].mode):
        raise Violation('the root is not a folder', f'{where} {todo[0][1]}')
    while todo:
        folder, info = todo.pop()
        isFolder = info is not None and stat.S_ISDIR(info.mode)
        listing = source.list(folder)
        modes = source.list_mode(folder)
        listed = sorted(listing or ())
        at = f'{where} {folder!r}'
        if len(listed) != len(set(listed)) or len(list(modes or ())) != len(set(modes or ())):
            raise Violation('name listed twice', f'{at}: {listed}')
        if sorted(modes or ()) != listed:
            raise Violation('listing and type listing disagree', f'{at}: {listed} != {sorted(modes or ())}')
        if isFolder and listed and (listing is None or modes is None):
            raise Violation('folder can not be listed', f'{at}: {listing} {modes}')
        if not isFolder and listed and belowFiles:
            raise Violation('children listed for something that is no folder', f'{at}: {info} {listed}')
        if source.is_dir(folder) != isFolder:
            raise Violation('folder flag differs from lookup', at)
        if folder.count('/') > maxDepth and folder != '/' or not isFolder and not belowFiles:
            continue
        for name in sorted(set(listed) | set(names)):
            seen += 1
            if seen > maxEntries:
                return seen
            path = view.join(folder, name)
            at = f'{where} {path!r}'
            child = source.lookup(path)
            if count:
                count('checked_paths')
            if (child is not None) != (name in listed):
                raise Violation('listed entry can not be looked up' if child is None else 'entry missing in the listing', at)
            if bool(source.exists(path)) != (child is not None):
                raise Violation('existence differs from lookup', f'{at}: exists {source.exists(path)}, lookup {child}')
            if bool(source.is_dir(path)) != (child is not None and stat.S_ISDIR(child.mode)):
                raise Violation('folder flag differs from lookup', at)
            n = source.versions(path)
            if (n > 0) != (child is not None):
                raise Violation('version count differs from lookup', f'{at}: {n} versions, lookup {child}')
            if child is None:
                if folder == '/' or name in NAMES[:4]:
                    if source.list(path) or source.list_mode(path):
                        raise Violation('listing of a missing path', at)
                continue
            if isinstance(modes, dict) and stat.S_IFMT(modes[name]) != stat.S_IFMT(child.mode):
                raise Violation('type differs between listing and lookup', f'{at}: {modes[name]:o} != {child.mode:o}')
            if isinstance(listing, dict) and not isinstance(listing[name], int):
                if describe(listing[name]) != describe(child) or abs(listing[name].mtime - child.mtime) > 3600:
                    raise Violation('attributes differ between listing and lookup', f'{at}: {listing[name]} != {child}')
            newest = source.lookup(path, n) if versions else child
            for version in range(1, n + 1 if versions else 1):
                if source.lookup(path, version) is None:
                    raise Violation('version can not be looked up', f'{at} version {version} of {n}')
            if versions == 'all' and (source.lookup(path, n + 1) is not None or source.lookup(path, -n) is not None):
                raise Violation('invented version', f'{at}: {n} versions but found {source.lookup(path, n + 1)} {source.lookup(path, -n)}')
            if describe(newest) != describe(child):
                raise Violation('newest version differs from lookup', f'{at}: {newest} != {child}')
            if stat.S_ISREG(child.mode) and content and child.size < 1 << 22:
                with source.open(child) as f:
                    data = f.read()
                if len(data) != child.size:
                    raise Violation('size differs from content', f'{at}: {child.size} != {len(data)}')
            if child.linkname and not stat.S_ISLNK(child.mode) and not hardRaw:
                raise Violation('link target of something that is no link', f'{at}: {child}')
            for key in source.list_xattr(child):
                if source.get_xattr(child, key) is None:
                    raise Violation('listed attribute can not be read', f'{at} {key}')
            if not stat.S_ISREG(child.mode) or folder == '/':
                todo.append((path, child))
    return seen


def run_format(ctx, case):
    name, items = case
    folder = ctx.tmpdir()
    form = FORMATS[name]
    path = os.path.join(folder, 'x' + form.extension)
    try:
        form.build(items, path)
    except Unsupported:
        ctx.count('unsupported')
        shutil.rmtree(folder)
        return
    with open_format(name, path) as source:
        check_consistent(source, f'{name} {[(i.kind, i.path) for i in items]}', hardRaw=name.startswith(('tar', 'ogg')),
                         count=ctx.count, maxDepth=3, versions='all',
                         belowFiles=name in ('git', 'folder', 'ext4', 'fat', 'sqlar', 'sqlar-plain', 'rar'))
    ctx.state(name, items)
    ctx.count('transitions')
    shutil.rmtree(folder)


def compose(how, a, b):
    """Mount compositions over two sources."""
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    if how == 'union':
        return UnionMountSource([a, b])
    if how == 'union-cached':
        return UnionMountSource([a, b], maxCacheDepth=8, maxCacheEntries=1000, maxSecondsToCache=100)
    if how == 'versions':
        return FileVersionLayer(a)
    if how == 'union-versions':
        return FileVersionLayer(UnionMountSource([a, b]))
    if how == 'subvolumes':
        return SubvolumesMountSource({'a': a, 'b.txt': b})
    if how == 'nested-subvolumes':
        return SubvolumesMountSource({'d/a': a, 'd/e/f': b})
    if how == 'prefix':
        return RemovePrefixMountSource('/d', a)
    if how == 'subvolumes-union':
        return UnionMountSource([SubvolumesMountSource({'d': a}), b])
    if how == 'recursive':
        return AutoMountLayer(a, recursive=True, lazyMounting=False)
    if how == 'lazy':
        return AutoMountLayer(a, recursive=True, lazyMounting=True)
    raise AssertionError(how)


COMPOSITIONS = ('union', 'union-cached', 'versions', 'union-versions', 'subvolumes', 'nested-subvolumes', 'prefix', 'subvolumes-union',
                'recursive', 'lazy')


def run_composition(ctx, case):
    how, (nameA, itemsA), (nameB, itemsB) = case
    folder = ctx.tmpdir()
    sources = []
    try:
        for n, (name, items) in enumerate(((nameA, itemsA), (nameB, itemsB))):
            form = FORMATS[name]
            path = os.path.join(folder, f'{n}{form.extension}')
            form.build(items, path)
            sources.append(open_format(name, path))
    except Unsupported:
        for source in sources:
            source.__exit__(None, None, None)
        ctx.count('unsupported')
        shutil.rmtree(folder)
        return
    with compose(how, *sources) as source:
        if how == 'lazy':
            # Archives are mounted when they are accessed for the first time.
            view.snapshot(source, versions=False, content=False, xattrs=False)
        check_consistent(source, f'{how} of {nameA} {[(i.kind, i.path) for i in itemsA]} and {nameB} {[(i.kind, i.path) for i in itemsB]}',
                         count=ctx.count, maxDepth=3,
                         versions=False if 'versions' in how else True if how in ('recursive', 'lazy') else 'all')
    ctx.state(how, nameA, itemsA, nameB, itemsB)
    ctx.count('transitions')
    shutil.rmtree(folder)


def samples():
    folder = os.path.join(REPO, 'tests')
    result = []
    for name in sorted(os.listdir(folder)):
        path = os.path.join(folder, name)
        if os.path.isfile(path) and os.path.getsize(path) < 300_000 and not name.endswith(('.py', '.sh', '.txt', '.tex', '.md', '.snar', '.index.sqlite')) \
                and not name.startswith(('sparse-file-larger', 'compressed-1', 'packed-', 'tar-with-', 'zeros', '2k-', 'truncated', 'ar-GNU-truncated')) and '.00' not in name:
            result.append(name)
    return result


def run_sample(ctx, case):
    name, recursive = case
    from ratarmountcore.mountsource.factory import open_mount_source
    folder = ctx.tmpdir()
    shutil.copy(os.path.join(REPO, 'tests', name), os.path.join(folder, name))
    try:
        source = open_mount_source(os.path.join(folder, name), writeIndex=False, indexFilePath=':memory:', passwords=[b'foo'],
                                   recursive=recursive)
    except Exception:
        ctx.count('not_mountable')
        shutil.rmtree(folder)
        return
    with source:
        check_consistent(source, f'{name} {recursive=}', hardRaw=True, count=ctx.count, maxDepth=8, names=NAMES[:3])
    ctx.state(name, recursive)
    ctx.count('transitions')
    shutil.rmtree(folder)


SMALL = {k: COMMON[k] for k in ('a1', 'a0', 'b', 'Da', 'Sa', 'D', 'da', 'def', 'De', 'Sd', 'd')}


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    for name in FORMATS:
        if name in ('tar.bz2', 'tar.xz', 'tar.zst', 'tar-gnu'):
            continue
        memory = name.startswith(('tar', 'zip', 'ar', 'asar', 'sqlar', 'cpio', 'rar', 'fat', 'html'))
        if not name.startswith('tar'):  # Only zeros, which can not be recognized as a TAR.
            cases.append((name, ()))
        items = list(SMALL.values())
        depth = (4 if memory else 3) if thorough else 3 if name in ('tar', 'zip', 'rar', 'ar', 'asar') else 2
        for n in range(1, depth + 1):
            if n == 3 and not thorough:
                few = [SMALL[k] for k in ('a1', 'Da', 'da', 'def', 'D', 'd')]
                cases += [(name, c) for c in itertools.product(few, repeat=n)]
            else:
                cases += [(name, c) for c in itertools.product(items, repeat=n)]
        cases += [(name, (i,)) for i in ODD.values()]
        if thorough and memory:
            cases += [(name, c) for c in itertools.product(ODD.values(), repeat=2)]
    yield cases, run_format, {'limit': 60}
    yield [(name, recursive) for name in samples() for recursive in (False, True)], run_sample, {'limit': 120}
    parts = [(SMALL['a1'],), (SMALL['Da'],), (SMALL['da'],), (SMALL['def'],), (SMALL['d'],), (SMALL['D'], SMALL['a1']), (SMALL['a1'], SMALL['a0']),
             (SMALL['Sa'], SMALL['def'])]
    inner = archives.build_tar([SMALL['da'], SMALL['a1']])
    parts += [(F('a.tar', inner),), (F('d/a.tar', inner), SMALL['da']), (F('a', inner), F('a.tar', inner))]
    kinds = ('tar', 'zip', 'folder', 'rar', 'sqlar') if thorough else ('tar', 'folder', 'rar')
    sides = [(kind, part) for kind in kinds for part in parts]
    cases = []
    for how in COMPOSITIONS:
        if 'union' in how or 'subvolumes' in how:
            cases += [(how, a, b) for a in sides for b in (sides if thorough else [s for s in sides if s[0] == 'tar'])]
        else:
            cases += [(how, a, sides[0]) for a in sides]
    yield cases, run_composition, {'limit': 60}
