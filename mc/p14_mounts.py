"""P14: dynamic mounting and unmounting."""
import argparse
import itertools
import os
import posixpath
import stat

from . import view
from .archives import F, D, S, FORMATS, open_format
from .core import Violation
from .modelsource import ModelSource

LEVEL = 'model_checking'
ASSUMPTIONS = ['A refused mount may raise or return False.',
               'Mount points that overlap existing mount points or their parent folders are refused.']

PATHS = ['a', 'b', 'a/b', 'a/b/c', 'c/a']
SPELLINGS = ['/a', 'a/', './a', '../a', 'a//b', 'a/../b', '/', '', '.', '..', '/a/b/', 'b/./../a/b', '//a']


def norm(path):
    parts = []
    for part in path.split('/'):
        if part in ('', '.'):
            continue
        if part == '..':
            if parts:
                parts.pop()
            continue
        parts.append(part)
    return '/'.join(parts)


def mountable(mounted, path):
    path = norm(path)
    if not path:
        return False
    return not any(m == path or m.startswith(path + '/') or path.startswith(m + '/') for m in mounted)


SOURCES = {
    0: {'/f': [('f', b'zero')], '/d': [('d', b'')], '/d/g': [('f', b'old'), ('f', b'newer')], '/l': [('l', b'f')]},
    1: {'/f': [('f', b'other')], '/b': [('d', b'')], '/b/c': [('f', b'inner b c')]},
    2: {},
}


def source_of(number, serial):
    return ModelSource('ABC'[number], SOURCES[number], listing=('dict', 'names', 'dict')[number], immutable=serial % 2 == 0)


def universe():
    inner = sorted({p for s in SOURCES.values() for p in s} | {'', '/nope', '/d/nope', '/f/x'})
    result = {'/'}
    for base in PATHS + ['c', 'd', 'a/x']:
        for p in inner:
            result.add('/' + base + p)
    return sorted(result)


UNIVERSE = universe()


def check_state(ctx, subvolumes, mounted, where, probe=None):
    """mounted: normalized path -> ModelSource"""
    folders = {''}
    for m in mounted:
        parts = m.split('/')
        folders |= {'/'.join(parts[:i]) for i in range(len(parts))}
    for path in UNIVERSE:
        bare = path.strip('/')
        owner = next((m for m in mounted if bare == m or bare.startswith(m + '/')), None)
        info = subvolumes.lookup(path)
        listing = subvolumes.list(path)
        modes = subvolumes.list_mode(path)
        if owner is None:
            if bare in folders:
                if info is None or not stat.S_ISDIR(info.mode) or not subvolumes.exists(path) or not subvolumes.is_dir(path):
                    raise Violation('parent folder of a mount missing', f'{where} {path}')
                prefix = bare + '/' if bare else ''
                want = sorted({m[len(prefix):].split('/')[0] for m in mounted if m.startswith(prefix)})
                if view.names_of(listing) != want or view.names_of(modes) != want:
                    raise Violation('listing of parent folder differs', f'{where} {path}: {listing} {modes} != {want}')
                if subvolumes.versions(path) != 1:
                    raise Violation('version count differs', f'{where} {path}')
                if subvolumes.list_xattr(info) != [] or subvolumes.get_xattr(info, 'user.A') is not None:
                    raise Violation('extended attributes of parent folder', f'{where} {path}')
                if subvolumes.get_mount_source(info)[1] is not subvolumes:
                    raise Violation('wrong mount source', f'{where} {path}')
            elif info is not None or listing is not None or modes is not None or subvolumes.versions(path) or \
                    subvolumes.exists(path) or subvolumes.is_dir(path):
                raise Violation('something is visible outside of mounted sources', f'{where} {path}: {info} {listing}')
            continue
        source = mounted[owner]
        inner = '/' + bare[len(owner):].strip('/')
        if view.names_of(listing) != view.names_of(source.list(inner)) or \
                view.names_of(modes) != view.names_of(source.list_mode(inner)):
            raise Violation('listing differs', f'{where} {path}: {view.names_of(listing)}')
        n = source.versions(inner)
        if subvolumes.versions(path) != n or subvolumes.exists(path) != (n > 0):
            raise Violation('version count differs', f'{where} {path}: {subvolumes.versions(path)} != {n}')
        for version in range(0, n + 2):
            info = subvolumes.lookup(path, version)
            want = source.lookup(inner, version)
            if (info is None) != (want is None):
                raise Violation('entry lost or invented', f'{where} {path} version {version}: {info}')
            if info is None:
                continue
            kept = list(info.userdata)
            got, expected = view.describe(subvolumes, info), view.describe(source, want)
            if got != expected:
                raise Violation('wrong entry', f'{where} {path} version {version}: {got} != {expected}')
            if stat.S_ISREG(info.mode) and subvolumes.read(info, 2, 1) != expected[7][1:3]:
                raise Violation('positioned read differs', f'{where} {path}')
            mountPoint, realSource, realInfo = subvolumes.get_mount_source(info)
            if mountPoint != '/' + owner or realSource is not source or realInfo.userdata != want.userdata:
                raise Violation('wrong mount source', f'{where} {path}: {mountPoint} {realSource}')
            if info.userdata != kept:
                raise Violation('file info changed by use', f'{where} {path}')
        ctx.count('transitions', n + 3)


def history_worker(ctx, case):
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    initial, history = case
    mounted = {}
    sources = {}
    for n, path in enumerate(initial):
        sources[path] = mounted[norm(path)] = source_of(n % 3, n)
    subvolumes = SubvolumesMountSource(dict(sources))
    removed = []
    where = f'{initial} {history}'
    for n, (operation, path) in enumerate(history):
        key = norm(path)
        if operation == 'unmount':
            result = subvolumes.unmount(path)
            want = mounted.pop(key, None)
            if result is not want:
                raise Violation('unmount returned the wrong source', f'{where}: {result}')
            if want is not None:
                removed.append(want)
        elif operation == 'query':
            if bool(subvolumes.is_mountable(path)) != mountable(mounted, path):
                raise Violation('wrong answer whether a path can be mounted', f'{where}')
        else:
            source = source_of(int(operation), n)
            allowed = mountable(mounted, path)
            try:
                result = subvolumes.mount(path, source)
            except Exception as e:
                if allowed:
                    raise Violation('valid mount refused', f'{where}: {e}') from e
                result = False
            if bool(result) != allowed:
                raise Violation('invalid mount accepted' if result else 'valid mount refused', where)
            if allowed:
                mounted[key] = source
        # States reached by a proper prefix are checked by the shorter history.
        ctx.count('transitions')
    check_state(ctx, subvolumes, mounted, where)
    ctx.state(tuple(sorted((k, v.name) for k, v in mounted.items())))
    closed = []
    for source in list(mounted.values()) + removed:
        source.closed = closed
    with subvolumes:
        pass
    if sorted(closed) != sorted(s.name for s in mounted.values()):
        raise Violation('sources not closed exactly once', f'{where}: {closed}')
    join = subvolumes.join_threads
    join()
    ctx.count('traces')


def handle_worker(ctx, case):
    """File objects opened before other mounts come and go stay valid, and so do file infos."""
    from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
    path, history = case
    subvolumes = SubvolumesMountSource({})
    source = source_of(0, 0)
    subvolumes.mount(path, source)
    mounted = {norm(path)}
    info = subvolumes.lookup('/' + path + '/d/g')
    file = subvolumes.open(info)
    if file.read(2) != b'ne':
        raise Violation('content differs', repr(case))
    for operation, other in history:
        try:
            if operation == 'unmount':
                if norm(other) == norm(path):
                    continue
                subvolumes.unmount(other)
            else:
                subvolumes.mount(other, source_of(1, 1))
        except Exception:
            pass
        if subvolumes.open(info).read() != b'newer' or view.xattrs_of(subvolumes, info) != {'user.A': b'/d/g#1'}:
            raise Violation('a mount disturbs another', repr(case))
    if file.read() != b'wer':
        raise Violation('a mount disturbs an opened file', repr(case))
    ctx.count('traces')
    ctx.count('transitions', len(history))


def fuse_worker(ctx, case):
    """The same through the FUSE layer with real archives and the command line parser."""
    from ratarmount.FuseMount import FuseMount
    from ratarmount.cli import create_parser
    history, useLayer, initial = case
    scratch = ctx.tmpdir()
    items = {'0': [F('f', b'zero'), F('d/g', b'old'), F('d/g', b'newer'), S('l', 'f')], '1': [F('f', b'other!'), F('b/c', b'in')]}
    archives = {}
    trees = {}
    for n, format in (('0', 'tar'), ('1', 'zip')):
        archives[n] = os.path.join(scratch, n + FORMATS[format].extension)
        trees[n] = FORMATS[format].build(items[n], archives[n])
    mountPoint = os.path.join(scratch, 'mnt')
    os.mkdir(mountPoint)
    with open(os.path.join(scratch, 'bad'), 'wb') as f:
        f.write(b'no archive')
    paths = []
    mounted = {}
    for n in initial:
        folder = os.path.join(scratch, f'i{len(paths)}')
        os.mkdir(folder)
        paths.append(os.path.join(folder, 'a' if len(paths) == 0 else 'b'))
        os.link(archives[n], paths[-1])
        mounted[os.path.basename(paths[-1])] = n
    fuseMount = FuseMount(paths, mountPoint, controlInterface=len(initial) != 2 or useLayer, enableFileVersions=useLayer,
                          disableUnionMount=bool(initial), indexFilePath=':memory:')
    try:
        for operation, path, absolute in history:
            target = os.path.join(mountPoint, path) if absolute else path
            key = norm(path)
            if operation == 'unmount':
                args = ['--unmount', target]
                mounted.pop(key, None)
                if not key:
                    continue
            elif operation == 'bad':
                args = [os.path.join(scratch, 'bad'), target]
            elif operation == 'gone':
                args = [archives['0'], os.path.join(scratch, 'missing'), target]
            else:
                args = [archives[n] for n in operation.split('+')] + [target]
                if mountable(mounted, path):
                    mounted[key] = operation
                if not key:
                    continue
            try:
                fuseMount._process_parsed_arguments(create_parser().parse_args(args))
            except (SystemExit, ValueError, Exception):
                pass
            ctx.count('transitions')
        want = {}
        for m, n in mounted.items():
            for k in n.split('+'):
                for path, entries in trees[k].items():
                    want['/' + m + path] = entries[-1]
            parts = m.split('/')
            for i in range(1, len(parts) + 1):
                want['/' + '/'.join(parts[:i])] = None
        folders = ['/']
        seen = set()
        while folders:
            folder = folders.pop()
            for entry in fuseMount.readdir(folder, 0):
                name = entry if isinstance(entry, str) else entry[0]
                if name in ('.', '..') or (folder == '/' and name == '.ratarmount-control'):
                    continue
                path = view.join(folder, name)
                attributes = fuseMount.getattr(path)
                seen.add(path)
                if path not in want:
                    raise Violation('something is visible outside of mounted sources', f'{case} {path}')
                entry = want[path]
                if stat.S_ISDIR(attributes['st_mode']):
                    folders.append(path)
                    if entry is not None and entry.kind != stat.S_IFDIR:
                        raise Violation('type differs', f'{case} {path}')
                elif entry is None or entry.kind != stat.S_IFMT(attributes['st_mode']):
                    raise Violation('type differs', f'{case} {path}')
                elif entry.kind == stat.S_IFREG:
                    handle = fuseMount.open(path, os.O_RDONLY)
                    data = fuseMount.read(path, 100, 0, handle)
                    fuseMount.release(path, handle)
                    if data != entry.data:
                        raise Violation('content differs', f'{case} {path}: {data}')
                elif fuseMount.readlink(path) != entry.link:
                    raise Violation('link target differs', f'{case} {path}')
        if seen != set(want):
            raise Violation('mounted source not visible', f'{case}: {sorted(set(want) - seen)}')
    finally:
        fuseMount._close()
    ctx.state(tuple(sorted(mounted.items())))
    ctx.count('traces')


def stages(tier):
    thorough = tier == 'thorough'
    operations = [(op, p) for op in ('0', '1', 'unmount', 'query') for p in PATHS]
    histories = [h for n in range(4) for h in itertools.product(operations, repeat=n)]
    if thorough:
        small = [o for o in operations if o[0] in ('0', 'unmount') or o[1] in ('a/b', 'a')]
        histories += list(itertools.product(small, repeat=4))
    cases = [((), h) for h in histories]
    odd = [(op, p) for op in ('0', 'unmount', 'query') for p in SPELLINGS]
    cases += [((), h) for h in itertools.product(operations, odd)] + [((), h) for h in itertools.product(odd, odd)]
    cases += [((), (a, o, b)) for a in operations[:5] for o in odd for b in operations[5:15]]
    initial = [c for n in range(1, 4) for c in itertools.combinations(['a', 'b', 'c/a', 'a b', '/d/e/', 'd/f'], n)]
    cases += [(i, h) for i in initial for n in (0, 1) for h in itertools.product(operations, repeat=n)]
    yield cases, history_worker, {'limit': 30}
    handles = [(p, h) for p in ('a', 'a/b', 'a/b/c') for n in (1, 2, 3)
               for h in itertools.product([(op, q) for op in ('0', 'unmount') for q in ('b', 'a', 'a/c', 'a/b', 'a/b/d')],
                                          repeat=n)]
    yield handles, handle_worker, {'limit': 30}
    steps = [(op, p, absolute) for op in ('0', '1', 'unmount', '0+1') for p, absolute in (('a', 0), ('a/b', 1), ('b', 1), ('a/b', 0))]
    steps += [('bad', 'a', 0), ('gone', 'b', 1), ('0', 'd/../../a', 0), ('0', '', 1), ('1', 'a/b/../c', 1)]
    deep = [(h, layer, ()) for n in (0, 1, 2) for h in itertools.product(steps, repeat=n) for layer in (True, False)]
    deep += [(h, layer, i) for n in (0, 1, 2 if thorough else 1) for h in itertools.product(steps, repeat=n) for layer in (True, False)
             for i in (('0', '1'), ('1', '0'), ('0', '0'))]
    if thorough:
        deep += [(h, True, ()) for h in itertools.product(steps, repeat=3)]
    yield deep, fuse_worker, {'limit': 60}
