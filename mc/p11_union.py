"""P11: union of mount sources."""
import itertools
import os
import stat

from . import view
from .archives import F, FORMATS, D, S, Unsupported, open_format
from .core import Violation
from .modelsource import ModelSource

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Where the rightmost source has a non-folder at a path which is a folder in another source, the listing of that path '
    'is not compared; lookups below it must not depend on caching.',
    'Folders from several sources count as versions each.',
]

PATHS = ['/a', '/a/x', '/a/x/p', '/b']
PROBES = PATHS + ['/', '/a/y', '/c', '/a/x/p/q', '/b/x', '/a/x/q', 'a', 'a/x', 'b', '/a/y/z', '']


def single_trees():
    """All small trees of one source, as path -> versions."""
    trees = []
    for b in ('', 'f'):
        for a in ('', 'f', 'ff', 'd', 'l'):
            for x in (('', 'f', 'ff', 'd') if a == 'd' else ('',)):
                for p in (('', 'f') if x == 'd' else ('',)):
                    trees.append(tuple((path, kinds) for path, kinds in (('/a', a), ('/a/x', x), ('/a/x/p', p), ('/b', b))
                                       if kinds))
    return trees


def build(name, tree):
    return {path: [(k, b'' if k == 'd' else f'{name}{path}{n}'.encode()) for n, k in enumerate(kinds)]
            for path, kinds in tree}


def check_union(ctx, union, sources, where):
    """Compares every observable answer with the definition of a union."""
    for path in PROBES:
        if not path.strip('/'):
            info = union.lookup(path)
            if info is None or not stat.S_ISDIR(info.mode) or not union.is_dir(path):
                raise Violation('root is no folder', where)
            all_versions = None
        else:
            all_versions = [(s, n) for s in sources for n in range(s.versions(path))]
            total = len(all_versions)
            if union.versions(path) != total:
                raise Violation('version count differs', f'{where} {path}: {union.versions(path)} != {total}')
            if union.exists(path) != bool(total):
                raise Violation('existence differs', f'{where} {path}')
            for version in range(-total - 1, total + 2):
                info = union.lookup(path, version)
                index = version - 1 if version > 0 else total - 1 + version
                if not 0 <= index < total:
                    if info is not None:
                        raise Violation('invented version', f'{where} {path} version {version}')
                    continue
                if info is None:
                    raise Violation('version lost', f'{where} {path} version {version} of {total}')
                source, n = all_versions[index]
                want = view.describe(source, source.lookup(path, n + 1))
                before = list(info.userdata)
                got = view.describe(union, info)
                if got != want:
                    raise Violation('wrong entry', f'{where} {path} version {version}: {got} != {want}')
                if list(info.userdata) != before:
                    raise Violation('file info changed by use', f'{where} {path}: {info.userdata} != {before}')
                if stat.S_ISREG(info.mode):
                    if union.read(info, 3, 1) != want[7][1:4]:
                        raise Violation('positioned read differs', f'{where} {path}')
                mountPoint, owner, inner = union.get_mount_source(info)
                if mountPoint != '/' or owner is not source or inner.userdata != before[:-1]:
                    raise Violation('wrong mount source', f'{where} {path} version {version}: {mountPoint} {owner}')
            ctx.count('transitions', 2 * total + 3)
        if all_versions and not stat.S_ISDIR(all_versions[-1][0].lookup(path, all_versions[-1][1] + 1).mode):
            continue
        listings = [s.list(path) for s in sources]
        names = sorted({n for listing in listings if listing is not None for n in listing})
        for function in (union.list, union.list_mode):
            got = function(path)
            if all(listing is None for listing in listings):
                if got is not None:
                    raise Violation('missing folder listed', f'{where} {path}: {got}')
                continue
            if view.names_of(got) != names:
                raise Violation('listing differs', f'{where} {path}: {view.names_of(got)} != {names}')
            if isinstance(got, dict):
                for name, value in got.items():
                    newest = union.lookup(view.join('/' + path.strip('/'), name))
                    if newest is None:
                        raise Violation('listed entry can not be looked up', f'{where} {path} {name}')
                    mode = value if isinstance(value, int) else value.mode
                    if stat.S_IFMT(mode) != stat.S_IFMT(newest.mode):
                        raise Violation('type in listing differs from lookup', f'{where} {path} {name}: {mode:o} != '
                                        f'{newest.mode:o}')
                    if not isinstance(value, int) and (value.size, value.mtime) != (newest.size, newest.mtime):
                        raise Violation('attributes in listing differ from lookup', f'{where} {path} {name}')
        for source, listing in zip(sources, listings):
            if isinstance(listing, dict) and view.names_of(source.list(path)) != view.names_of(listing):
                raise Violation('union changes the listing of a source', f'{where} {path}')
        ctx.count('transitions', 2)


CACHES = ({'maxCacheDepth': 0}, {'maxCacheDepth': 2}, {'maxCacheDepth': 3}, {}, {'maxCacheEntries': 0},
          {'maxCacheEntries': 1}, {'maxCacheEntries': 2}, {'maxCacheEntries': 3}, {'maxSecondsToCache': -1})


def model_worker(ctx, case):
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    trees, immutables, listings = case
    mutations = [()]
    if not all(immutables) and len(trees) <= 2:
        mutations = [()] + [(n, path, kind) for n, fixed in enumerate(immutables) if not fixed
                            for path in ('/a', '/b', '/a/x', '/c') for kind in ('', 'f', 'd', 'ff')]
    for cache in CACHES if ctx.thorough or len(trees) < 3 else CACHES[1:6:2]:
        for mutation in mutations:
            sources = [ModelSource('ABC'[n], build('ABC'[n], tree), immutable=immutables[n], listing=listings[n])
                       for n, tree in enumerate(trees)]
            union = UnionMountSource(sources, **cache)
            if mutation:
                n, path, kind = mutation
                tree = sources[n].tree
                if path == '/a/x' and not any(k == 'd' for k, _ in tree.get('/a', [])):
                    continue
                if kind:
                    tree[path] = [(k, b'' if k == 'd' else f'new{i}'.encode()) for i, k in enumerate(kind)]
                    if path == '/a' and kind != 'd':
                        for p in [p for p in tree if p.startswith('/a/')]:
                            del tree[p]
                else:
                    for p in [p for p in tree if p == path or p.startswith(path + '/')]:
                        del tree[p]
            if union.is_immutable() != all(immutables):
                raise Violation('immutability differs', repr(case))
            check_union(ctx, union, sources, f'cache {cache} after {mutation}')
            ctx.count('traces')
    ctx.state(case)
    closed = sources[0].closed
    for s in sources:
        s.closed = closed
    with UnionMountSource(sources):
        pass
    if sorted(closed) != sorted(s.name for s in sources):
        raise Violation('sources not closed exactly once', repr(closed))


REAL_TREES = [
    [F('a', b'one'), F('b', b'two')], [D('a'), F('a/x', b'three')], [F('a/x', b'four'), F('a/y/z', b'five'), F('c', b'6')],
    [S('a', 'b'), F('b', b'seven!')], [D('a/x'), D('e')], [F('a', b'old'), F('a', b'newer'), F('a/x', b'8')], [],
]
REAL_FORMATS = ['tar', 'zip', 'folder', 'squashfs', 'ar', 'sqlar', 'asar']


def real_worker(ctx, case):
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    choice, cache = case
    scratch = ctx.tmpdir()
    sources = []
    for n, (format, tree) in enumerate(choice):
        path = os.path.join(scratch, str(n) + FORMATS[format].extension)
        items = REAL_TREES[tree]
        try:
            FORMATS[format].build(items, path)
        except Unsupported:
            ctx.count('unsupported')
            return
        try:
            sources.append(open_format(format, path))
        except Exception:
            if items:
                raise
            return
    union = UnionMountSource(sources, **CACHES[cache])
    paths = ['/a', '/b', '/c', '/e', '/a/x', '/a/y', '/a/y/z', '/nope', '/a/nope']
    for path in paths:
        versions = [s.lookup(path, v + 1) for s in sources for v in range(s.versions(path))]
        owners = [s for s in sources for v in range(s.versions(path))]
        if union.versions(path) != len(versions):
            raise Violation('version count differs', f'{path} {union.versions(path)} != {len(versions)}')
        for v, (info, owner) in enumerate(zip(versions, owners)):
            for version in {v + 1, v + 1 - len(versions)}:
                got = union.lookup(path, version)
                if got is None:
                    raise Violation('version lost', f'{path} version {version}')
                if view.describe(union, got) != view.describe(owner, info):
                    raise Violation('wrong entry', f'{path} version {version}')
        if union.lookup(path, len(versions) + 1) is not None:
            raise Violation('invented version', f'{path} {len(versions) + 1}')
        ctx.count('transitions', len(versions) + 2)
    for folder in ['/', '/a', '/a/y', '/e']:
        newest = union.lookup(folder)
        if newest is None or not stat.S_ISDIR(newest.mode):
            continue
        want = sorted({n for s in sources for n in (s.list(folder) or ())})
        for function in (union.list, union.list_mode):
            got = function(folder)
            if sorted(got or ()) != want:
                raise Violation('listing differs', f'{folder}: {sorted(got or ())} != {want}')
            for name in want:
                info = union.lookup(view.join(folder, name))
                if info is None:
                    raise Violation('listed entry can not be looked up', f'{folder} {name}')
                if isinstance(got, dict):
                    mode = got[name] if isinstance(got[name], int) else got[name].mode
                    if stat.S_IFMT(mode) != stat.S_IFMT(info.mode):
                        raise Violation('type in listing differs from lookup', f'{folder} {name}')
    ctx.count('traces')
    ctx.state(case)
    union.__exit__(None, None, None)


def stages(tier):
    trees = single_trees()
    two = [((a, b), immutables, listings)
           for a in trees for b in trees
           for immutables in itertools.product((True, False), repeat=2)
           for listings in (('dict', 'dict'), ('dict', 'names'), ('names', 'dict'))
           if tier == 'thorough' or listings[0] == listings[1] or all(immutables)]
    small = trees if tier == 'thorough' else [t for t in trees if not any(p == '/b' for p, _ in t)]
    three = [(c, immutables, ('dict',) * 3) for c in itertools.product(small, repeat=3)
             for immutables in ((True,) * 3, (True, False, True)) + (
                 ((False, True, True), (False, False, True)) if tier == 'thorough' else ())]
    one = [((t,), (i,), (k,)) for t in trees for i in (True, False) for k in ('dict', 'names')]
    yield one + two + three, model_worker, {'limit': 60}
    real = [(c, cache) for trees2 in itertools.product(range(len(REAL_TREES)), repeat=2)
            for formats in itertools.product(REAL_FORMATS if tier == 'thorough' else REAL_FORMATS[:4], repeat=2)
            for c in [tuple(zip(formats, trees2))] for cache in (0, 3, 5)]
    yield real, real_worker, {'limit': 60}
