"""P19: the FUSE operations report what the sources contain."""
import errno
import itertools
import math
import os
import posixpath
import stat

from . import tarwriter, view
from .archives import COMPRESSION_EXTENSION, D, F, FORMATS, S, Unsupported, build_tar, compress, pattern
from .core import Violation
from .filemodel import de_bruijn
from .tarwriter import Member, write_tar

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Operations are called as libfuse does after the kernel resolved the path: folders are not opened as files and links are '
    'only read when they are links.',
    'The FUSE process is single threaded (nothreads=True).',
]

CONTENT = [F('a', pattern(3)), F('d/b', pattern(9001, 2), 0o600), F('d/e/c.txt', pattern(513, 3), 0o755), F('empty', b''), D('void'),
           S('d/l', '../a'), S('broken', 'no/where'), F('f.versions', b'fv'), F('.hidden', b'h'), F('name with space', b's')]
SIMPLE = [F('a', pattern(3)), F('b', pattern(9001, 2)), F('name', b''), F('c.txt', pattern(513, 3))]


def names(mount, path):
    result = {}
    for entry in mount.readdir(path, 0):
        name, mode = (entry, None) if isinstance(entry, str) else entry[:2]
        if name in result:
            raise Violation('name listed twice', f'{path} {name}')
        result[name] = mode
    return result


def must_fail(what, function, *args, code=None):
    try:
        result = function(*args)
        if hasattr(result, '__next__'):
            list(result)
    except OSError as e:
        if code is not None and e.errno not in (code if isinstance(code, tuple) else (code,)):
            raise Violation('wrong error', f'{what}: {errno.errorcode.get(e.errno)}') from e
        return
    raise Violation('no error', what)


def check_read_only(mount, tree, prefix):
    from mfusepy import Operations
    for path in list(tree)[:4] + ['/missing', '/missing/x']:
        p = prefix + path
        for name, args in (('chmod', (p, 0o600)), ('chown', (p, 1, 1)), ('utimens', (p, (1, 1))), ('unlink', (p,)),
                           ('rmdir', (p,)), ('mkdir', (p + 'new', 0o755)), ('rename', (p, p + '2')), ('symlink', (p + 'n', 'x')),
                           ('link', (p + 'n', p)), ('mknod', (p + 'n', stat.S_IFREG | 0o644, 0)), ('truncate', (p, 0)),
                           ('create', (p + 'n', 0o644)), ('setxattr', (p, 'user.x', b'1', 0)), ('removexattr', (p, 'user.x'))):
            function = getattr(mount, name)
            if getattr(function, '__func__', None) is getattr(Operations, name):
                continue  # Not offered to libfuse, which answers with ENOSYS.
            must_fail(f'{name} {args}', function, *args)
        must_fail(f'getattr {p}n', mount.getattr, p + 'n', code=errno.ENOENT)


def check_fuse(ctx, mount, tree, where, *, prefix='', versions=True, mtimeStep=1, extraRoot=()):
    shown = tarwriter.visible(tree)
    for path in shown:
        entry = tree[path][-1]
        p = prefix + path
        attributes = mount.getattr(p)
        at = f'{where} {p!r}'
        if stat.S_IFMT(attributes['st_mode']) != entry.kind:
            raise Violation('type differs', f'{at}: {attributes}')
        for key, want in (('st_uid', entry.uid), ('st_gid', entry.gid)):
            if want is not None and attributes[key] != want:
                raise Violation(f'{key} differs', f'{at}: {attributes[key]} != {want}')
        if entry.perm is not None and stat.S_IMODE(attributes['st_mode']) != entry.perm:
            raise Violation('permissions differ', f'{at}: {attributes["st_mode"]:o} != {entry.perm:o}')
        if entry.mtime is not None and abs(attributes['st_mtime'] - entry.mtime * 1e9) >= (1000 if mtimeStep == 1 else
                                                                                          mtimeStep * 1e9):
            raise Violation('modification time differs', f'{at}: {attributes["st_mtime"]} != {entry.mtime}')
        if entry.kind == stat.S_IFLNK and mount.readlink(p) != entry.link:
            raise Violation('link target differs', f'{at}: {mount.readlink(p)!r}')
        if entry.kind == stat.S_IFREG:
            if attributes['st_size'] != len(entry.data):
                raise Violation('size differs', f'{at}: {attributes["st_size"]} != {len(entry.data)}')
            if attributes['st_blocks'] != math.ceil(len(entry.data) / 512):
                raise Violation('number of blocks differs', f'{at}: {attributes["st_blocks"]}')
            handle = mount.open(p, os.O_RDONLY)
            data = mount.read(p, len(entry.data) + 100, 0, handle)
            if data != entry.data:
                raise Violation('content differs', f'{at}: {view.short(data)} != {view.short(entry.data)}')
            must_fail(f'write {at}', mount.write, p, b'x', 0, handle, code=(errno.EROFS, errno.EACCES, errno.EBADF))
            mount.flush(p, handle)
            mount.fsync(p, 0, handle)
            if mount.read(p, 2, 1, handle) != entry.data[1:3]:
                raise Violation('content differs', f'{at} after flush')
            mount.release(p, handle)
            if mount.read(p, 5, 1, 123456789) != entry.data[1:6]:
                raise Violation('content differs', f'{at} without handle')
        if entry.xattrs is not None:
            keys = mount.listxattr(p)
            got = {k: mount.getxattr(p, k) for k in keys}
            if got != entry.xattrs:
                raise Violation('extended attributes differ', f'{at}: {got} != {entry.xattrs}')
            must_fail(f'getxattr {at}', mount.getxattr, p, 'user.no', code=errno.ENODATA)
        ctx.count('transitions', 8)
        if versions and not path.endswith('.versions'):
            got = names(mount, p + '.versions')
            if sorted(got) != sorted(['.', '..'] + [str(i + 1) for i in range(len(tree[path]))]):
                if p + '.versions' not in {prefix + q for q in tree}:
                    raise Violation('versions folder differs', f'{at}: {sorted(got)}')
    children = {}
    for path in shown:
        children.setdefault(posixpath.dirname(path), set()).add(posixpath.basename(path))
    for folder in ['/'] + [p for p in shown if tree[p][-1].kind == stat.S_IFDIR]:
        p = prefix + folder if folder != '/' or not prefix else prefix
        got = names(mount, p or '/')
        want = set(children.get(folder, ())) | {'.', '..'} | (set(extraRoot) if folder == '/' and not prefix else set())
        if set(got) != want:
            raise Violation('listing differs', f'{where} {p}: {sorted(got)} != {sorted(want)}')
        for name, mode in got.items():
            if mode is None:
                continue
            kind = stat.S_IFDIR if name in ('.', '..') or name in extraRoot and folder == '/' else \
                tree[view.join(folder, name)][-1].kind
            if stat.S_IFMT(mode) not in (kind, 0):  # 0 is DT_UNKNOWN
                raise Violation('type in listing differs', f'{where} {p} {name}: {mode:o}')
        must_fail(f'{p}/missing', mount.getattr, view.join(p or '/', 'missing'), code=errno.ENOENT)
        must_fail(f'{p}/missing', mount.open, view.join(p or '/', 'missing'), os.O_RDONLY, code=errno.ENOENT)
        must_fail(f'{p}/missing', mount.readlink, view.join(p or '/', 'missing'), code=errno.ENOENT)
        must_fail(f'{p}/missing', mount.listxattr, view.join(p or '/', 'missing'), code=errno.ENOENT)
        must_fail(f'{p}/missing', mount.getxattr, view.join(p or '/', 'missing'), 'user.a', code=errno.ENOENT)
        must_fail(f'{p}/missing', mount.read, view.join(p or '/', 'missing'), 1, 0, 987654321, code=errno.ENOENT)
        must_fail(f'create in {p}', mount.create, view.join(p or '/', 'missing'), 0o644)
    must_fail('release', mount.release, '/a', 31337, code=(errno.ESTALE, errno.EBADF))
    statfs = mount.statfs('/')
    if statfs['f_bsize'] < 512 or statfs.get('f_namemax', 255) <= 0:
        raise Violation('file system statistics differ', repr(statfs))
    check_read_only(mount, shown if isinstance(shown, dict) else {p: 1 for p in shown}, prefix)


def check_handles(ctx, mount, tree, prefix=''):
    """Every ordered pair of positioned reads over several simultaneously opened handles."""
    files = [p for p in tarwriter.visible(tree) if tree[p][-1].kind == stat.S_IFREG]
    files.sort(key=lambda p: -len(tree[p][-1].data))
    chosen = files[:2] + files[-1:]
    handles = [(prefix + p, mount.open(prefix + p, os.O_RDONLY), tree[p][-1].data) for p in [chosen[0]] + chosen]
    if len({h for _, h, _ in handles}) != len(handles):
        raise Violation('handles are not unique')
    operations = []
    for n, (_, _, data) in enumerate(handles):
        size = len(data)
        for offset in sorted({0, 1, size // 2, max(0, size - 1), size, size + 3}):
            for length in sorted({0, 1, 5, 4096, size + 1}):
                operations.append((n, offset, length))
    if not ctx.thorough:
        operations = [o for i, o in enumerate(operations) if i % 2 == 0 or o[2] in (5, 4096)][:70]
    for n, offset, length in de_bruijn(operations, 2):
        path, handle, data = handles[n]
        got = mount.read(path, length, offset, handle)
        if got != data[offset:offset + length]:
            raise Violation('positioned read differs', f'{path} size {length} offset {offset}: {view.short(got)}')
        ctx.count('transitions')
    for path, handle, _ in handles[1:]:
        mount.release(path, handle)
    path, handle, data = handles[0]
    if mount.read(path, 10, 1, handle) != data[1:11]:
        raise Violation('released handle disturbs another', path)
    mount.release(path, handle)
    must_fail('double release', mount.release, path, handle)
    if mount.openedFiles:
        raise Violation('released handles are kept', repr(mount.openedFiles))


def history_worker(ctx, case):
    """Every sequence of open, read, seek-free random access, release and failing calls over a table of handles."""
    format, options, prefix, depth = case
    scratch = ctx.tmpdir()
    path = os.path.join(scratch, 'archive' + FORMATS[format].extension)
    items = [F('a', pattern(5)), F('b', pattern(6000, 2)), F('a', pattern(9, 7)), S('l', 'b')] if format.startswith('tar') else \
        [F('a', pattern(9, 7)), F('b', pattern(6000, 2))]
    FORMATS[format].build(items, path)
    content = {'/a': items[0].data if not format.startswith('tar') else items[2].data, '/b': items[1].data,
               '/a.versions/1': items[0].data}
    mount = open_fuse(scratch, [path], **options)
    table = []  # model of the opened handles: (path, handle, data) or None when released
    alphabet = [('open', p) for p in (content if format.startswith('tar') else ('/a', '/b'))] + \
        [('open-missing',), ('release', 0), ('release', -1), ('read', 0), ('read', -1), ('read-unknown',), ('list',)]
    try:
        for sequence in itertools.product(alphabet, repeat=depth):
            if sequence[-1][0] not in ('read', 'read-unknown', 'list', 'release'):
                continue
            table.clear()
            for n, op in enumerate(sequence):
                opened = [t for t in table if t is not None]
                if op[0] == 'open':
                    handle = mount.open(prefix + op[1], os.O_RDONLY)
                    if handle in [t[1] for t in opened]:
                        raise Violation('handle reused', f'{sequence}')
                    table.append((op[1], handle, content[op[1]]))
                elif op[0] == 'open-missing':
                    must_fail(f'{sequence}', mount.open, prefix + '/no', os.O_RDONLY, code=errno.ENOENT)
                elif op[0] == 'list':
                    if 'b' not in names(mount, prefix or '/'):
                        raise Violation('listing differs', f'{sequence}')
                elif op[0] == 'read-unknown':
                    if mount.read(prefix + '/b', 5, 10 + n, 987654321) != content['/b'][10 + n:15 + n]:
                        raise Violation('read without handle differs', f'{sequence}')
                elif not opened:
                    break
                elif op[0] == 'release':
                    t = opened[op[1]]
                    mount.release(prefix + t[0], t[1])
                    table[table.index(t)] = None
                    must_fail(f'{sequence}', mount.release, prefix + t[0], t[1], code=(errno.ESTALE, errno.EBADF))
                else:
                    p, handle, data = opened[op[1]]
                    for offset, size in ((n, 4), (0, 100), (5, 5000), (len(data), 3)):
                        if mount.read(prefix + p, size, offset, handle) != data[offset:offset + size]:
                            raise Violation('positioned read differs', f'{sequence} at {n}: {p} {offset} {size}')
                ctx.count('transitions')
            for t in table:
                if t is not None:
                    mount.release(prefix + t[0], t[1])
            if mount.openedFiles:
                raise Violation('released handles are kept', f'{sequence}')
            ctx.count('traces')
    finally:
        mount._close()
    ctx.state(repr(case))


def open_fuse(scratch, paths, **options):
    from ratarmount.FuseMount import FuseMount
    mountPoint = os.path.join(scratch, 'mnt')
    os.makedirs(mountPoint, exist_ok=True)
    options.setdefault('indexFilePath', ':memory:')
    return FuseMount(paths, mountPoint, **options)


OPTIONS = {
    'default': {}, 'no-versions': {'enableFileVersions': False}, 'recursive': {'recursive': True},
    'lazy': {'recursive': True, 'lazyMounting': True}, 'control': {'controlInterface': True},
    'subvolumes': {'disableUnionMount': True}, 'strip': {'recursive': True, 'stripRecursiveTarExtension': True},
    'union': {}, 'control-subvolumes': {'controlInterface': True, 'disableUnionMount': True},
}


def format_worker(ctx, case):
    format, how = case
    scratch = ctx.tmpdir()
    path = os.path.join(scratch, 'archive' + FORMATS[format].extension)
    try:
        tree = FORMATS[format].build(CONTENT, path)
    except Unsupported:
        try:
            tree = FORMATS[format].build([i for i in CONTENT if i.kind != 'sym'], path)
        except Unsupported:
            try:
                tree = FORMATS[format].build(SIMPLE, path)
            except Unsupported:
                ctx.count('unsupported')
                return
    options = OPTIONS[how]
    paths = [path]
    prefixes = ['']
    if how in ('subvolumes', 'control-subvolumes', 'union'):
        other = os.path.join(scratch, 'second.tar')
        second = FORMATS['tar'].build([F('second', b'2nd'), F('d/second', b'inner')], other)
        paths = [path, other]
        if how == 'union':
            for p, entries in second.items():
                tree[p] = tree.get(p, []) + entries
        else:
            prefixes = ['/' + os.path.basename(path)]
    mount = open_fuse(scratch, paths, **options)
    try:
        for prefix in prefixes:
            check_fuse(ctx, mount, tree, f'{case}', prefix=prefix, versions=options.get('enableFileVersions', True),
                       mtimeStep=FORMATS[format].expectation.get('mtimeStep', 1),
                       extraRoot=('.ratarmount-control',) if options.get('controlInterface') else ())
            check_handles(ctx, mount, tree, prefix)
        if 'subvolumes' in how:
            check_fuse(ctx, mount, second, f'{case}', prefix='/second.tar')
    finally:
        mount._close()
    ctx.state(case)
    ctx.count('traces')


def nested_worker(ctx, case):
    """Recursive mounts, unions of several nested archives, and compressed single files."""
    kind, how, compression = case
    scratch = ctx.tmpdir()
    inner = [F('x', b'inner x'), F('s/y', pattern(700, 5)), S('s/l', '../x')]
    data = build_tar(inner)
    if kind == 'nested':
        name = 'in.tar' + COMPRESSION_EXTENSION[compression]
        outer = [F('p', b'outer p'), F('q/' + name, compress(data, compression), 0o640)]
        path = os.path.join(scratch, 'o.tar')
        tree = FORMATS['tar'].build(outer, path)
        at = '/q/in' if how == 'strip' else '/q/' + name
        if how in ('recursive', 'lazy', 'strip'):
            archive = tree['/q/' + name][-1]
            if at in tree:
                tree[at] = tree[at] + [tarwriter.Entry(stat.S_IFDIR, None, 1000, 1001, archive.mtime)]
            else:
                tree[at] = [tarwriter.Entry(stat.S_IFDIR, None, 1000, 1001, archive.mtime)]
            for p, entries in FORMATS['tar'].expected(inner).items():
                for e in entries:
                    if compression == 'zst':  # Without a file descriptor for the zstd backend, libarchive has to do.
                        e.uid = e.gid = None
                tree[at + p] = entries
    else:
        path = os.path.join(scratch, 'single' + COMPRESSION_EXTENSION[compression])
        content = pattern(70000, 9)
        with open(path, 'wb') as f:
            f.write(compress(content, compression))
        tree = {'/single': [tarwriter.Entry(stat.S_IFREG, None, None, None, None, len(content), '', content)]}
    mount = open_fuse(scratch, [path], **OPTIONS[how])
    try:
        if how == 'lazy':
            names(mount, at)
        check_fuse(ctx, mount, tree, f'{case}', versions=False,
                   extraRoot=('.ratarmount-control',) if how == 'control' else ())
        check_handles(ctx, mount, tree)
    finally:
        mount._close()
    ctx.state(case)
    ctx.count('traces')


def attribute_worker(ctx, case):
    """TAR members over all modes, owners, times and extended attributes through getattr and getxattr."""
    kind, mode, owner, mtime, xattrs = case
    scratch = ctx.tmpdir()
    member = Member(b'm/' if kind == 'dir' else b'm', kind, b'data' if kind == 'file' else b'', mode, owner, owner + 1, mtime,
                    b't/a' if kind in ('sym', 'hard') else b'', dialect='pax', xattrs=xattrs)
    members = [Member(b't/a', 'file', b'target'), member]
    path = os.path.join(scratch, 'x.tar')
    with open(path, 'wb') as f:
        f.write(write_tar(members))
    from .tarwriter import expected_tree
    tree = expected_tree(members)
    for entries in tree.values():
        for e in entries:
            if e.hard is not None:
                target = tree[e.hard][-1]
                e.kind, e.perm, e.uid, e.gid, e.mtime, e.size, e.data, e.link, e.hard, e.xattrs = (
                    target.kind, target.perm, target.uid, target.gid, target.mtime, target.size, target.data, '', None,
                    target.xattrs)
    mount = open_fuse(scratch, [path])
    try:
        check_fuse(ctx, mount, tree, repr(case))
    finally:
        mount._close()
    ctx.state(case)
    ctx.count('traces')


def stages(tier):
    thorough = tier == 'thorough'
    formats = [f for f in FORMATS if f not in ('git',)]
    yield list(itertools.product(formats, OPTIONS)), format_worker, {'limit': 120}
    yield [('nested', how, c) for how in ('default', 'recursive', 'lazy', 'strip', 'control') for c in ('', 'gz', 'bz2', 'xz', 'zst')] + \
        [('single', how, c) for how in ('default', 'no-versions', 'control') for c in
         ('gz', 'bz2', 'xz', 'zst', 'zlib', 'lz4', 'xzblocks', 'zstframes', 'bz2multi', 'gz2')], nested_worker, {'limit': 120}
    depth = 6 if thorough else 5
    yield [(format, options, '', depth - (format != 'tar') - (i > 1)) for format in ('tar', 'tar.gz', 'zip-deflate', 'cpio')
           for i, options in enumerate(({}, {'recursive': True}, {'controlInterface': True}, {'disableUnionMount': True}))], \
        history_worker, {'limit': 800}
    modes = [0, 0o644, 0o4755, 0o2711, 0o1777, 0o7777] if not thorough else [0o7777 & (1 << b) for b in range(12)] + [0, 0o7777, 0o644]
    yield [(kind, mode, owner, mtime, xattrs) for kind in ('file', 'dir', 'sym', 'hard', 'fifo', 'chr', 'blk') for mode in modes
           for owner in (0, 1000, 2 ** 21, 2 ** 31) for mtime in (0, 1, 1234567890, 1234567890.5, 2 ** 32 + 1, -1)
           for xattrs in ((), ((b'user.k', b'v\0\xff'), (b'user.other', b'')))], attribute_worker, {'limit': 60}
