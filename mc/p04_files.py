"""P04: opened files behave like their bytes under any seek/read sequence."""
import io
import itertools
import os
import sqlite3

from .core import Violation
from .filemodel import de_bruijn, run_sequence, seek_ops
from ratarmountcore.SQLiteBlobFile import SQLiteBlobFile
from ratarmountcore.StenciledFile import (JoinedFile, JoinedFileFromFactory, LambdaReaderFile,
                                          RawJoinedFileFromFactory, RawStenciledFile, StenciledFile, ZeroFile)

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'A negative seek target may be refused (position unchanged) or clamped to the start; both are followed.',
    'Raw (unbuffered) views may return fewer bytes than asked for as long as it is at least one before the end.',
    'Third party decoders may clamp a seek past the end to the end.',
]

A = bytes(range(65, 75))
B = bytes(range(97, 103))
PARTS = ((0, 0, 0), (0, 1, 2), (0, 2, 3), (1, 0, 1), (1, 3, 2), (0, 7, 1))
KINDS = ('raw', 'buf1', 'buf2', 'buf3', 'buf8192')


def tiny_ops(size):
    ops = [('seek', n, 0) for n in (-1, 0, 1, 2, 3, 6)]
    ops += [('seek', n, 1) for n in (-1, 1, 2, -9)]
    ops += [('seek', n, 2) for n in (0, -1, -2, 1, -9)]
    ops += [('read', n) for n in (-1, 0, 1, 2, 3, 9)] + [('readinto', 2), ('other',)]
    return ops


def small_ops(size):
    return [('seek', 0, 0), ('seek', 1, 0), ('seek', 3, 0), ('seek', -1, 1), ('seek', 1, 1), ('seek', -1, 2),
            ('seek', -9, 2), ('seek', 1, 2), ('read', -1), ('read', 1), ('read', 2), ('readinto', 3)]


def make_view(kind, parts):
    files = [io.BytesIO(A), io.BytesIO(B)]
    stencils = [(files[i], offset, size) for i, offset, size in parts]
    content = b''.join((A, B)[i][o:o + s] for i, o, s in parts)

    def others():
        files[0].seek(3)
        files[1].seek(5)

    if kind == 'raw':
        return RawStenciledFile(stencils), content, others, True
    if kind.startswith('buf'):
        return StenciledFile(stencils, bufferSize=int(kind[3:])), content, others, False
    pieces = [(A, B)[i][o:o + s] for i, o, s in parts]
    if kind == 'joined':
        objects = [io.BytesIO(p) for p in pieces]
        return JoinedFile(objects, buffer_size=3), content, lambda: [o.seek(1) for o in objects], False
    if kind.startswith('factory'):
        f = JoinedFileFromFactory([(lambda p=p: io.BytesIO(p)) for p in pieces], buffer_size=int(kind[7:]))
        return f, content, lambda: None, False
    if kind == 'rawfactory':
        f = RawJoinedFileFromFactory([(lambda p=p: io.BytesIO(p)) for p in pieces])
        return f, content, lambda: None, True
    raise AssertionError(kind)


def run_views(ctx, case):
    depth, kind, parts, alphabet = case
    _, content, _, raw = make_view(kind, parts)
    ops = (tiny_ops if alphabet == 'tiny' else small_ops)(len(content))
    if kind == 'rawfactory':  # read(-1) of this raw class only covers the current part, it is only used buffered
        ops = [op for op in ops if op != ('read', -1)]
    for sequence in itertools.product(ops, repeat=depth):
        f, content, others, raw = make_view(kind, parts)
        model = run_sequence(f, content, sequence, raw=raw, others=others, trace=f'{kind} {parts} {sequence}')
        ctx.count('transitions', depth)
        ctx.count('traces')
        ctx.state(kind, parts, model.pos)
    ctx.sample({'view': kind, 'parts': parts, 'sequences': len(ops) ** depth})


def make_small(name):
    data = bytes(range(48, 55))
    if name == 'zero':
        return ZeroFile(5), b'\0' * 5, False
    if name == 'zero0':
        return ZeroFile(0), b'', False
    if name == 'lambda':
        return LambdaReaderFile(lambda o, s: data[o:o + s], len(data)), data, False
    if name == 'lambdabuf':
        return io.BufferedReader(LambdaReaderFile(lambda o, s: data[o:o + s], len(data)), 3), data, False
    if name.startswith('blob'):
        connection = sqlite3.connect(':memory:')
        connection.execute('CREATE TABLE t (data BLOB)')
        connection.execute('INSERT INTO t VALUES (?)', (data,))
        f = SQLiteBlobFile(connection, 'SELECT {}data{} FROM t WHERE ROWID == 1', size=None if name == 'blob' else 7)
        return f, data, False
    raise AssertionError(name)


def run_small(ctx, case):
    depth, name = case
    f, data, raw = make_small(name)
    ops = [op for op in tiny_ops(len(data)) if op != ('other',)]
    for sequence in itertools.product(ops, repeat=depth):
        f, data, raw = make_small(name)
        model = run_sequence(f, data, sequence, raw=raw, trace=f'{name} {sequence}')
        ctx.count('transitions', depth)
        ctx.count('traces')
        ctx.state(name, model.pos)


def run_pair(ctx, case):
    """Two views over the same underlying file, all interleavings of two short sequences."""
    kindA, kindB, partsA, partsB = case
    ops = [('read', 1), ('read', 2), ('seek', 1, 0), ('seek', -1, 2)]

    def make(kind, files, parts):
        stencils = [(files[i], o, s) for i, o, s in parts]
        return RawStenciledFile(stencils) if kind == 'raw' else StenciledFile(stencils, bufferSize=int(kind[3:]))

    from .filemodel import FileModel
    for sa in itertools.product(ops, repeat=2):
        for sb in itertools.product(ops, repeat=2):
            for order in ((0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 0, 1), (1, 0, 1, 0), (1, 1, 0, 0)):
                files = [io.BytesIO(A), io.BytesIO(B)]
                views = [make(kindA, files, partsA), make(kindB, files, partsB)]
                models = [FileModel(b''.join((A, B)[i][o:o + s] for i, o, s in p), raw=k == 'raw')
                          for k, p in ((kindA, partsA), (kindB, partsB))]
                steps = [iter(sa), iter(sb)]
                for who in order:
                    models[who].apply(views[who], next(steps[who]), f'{kindA}/{kindB} {partsA}/{partsB} {sa} {sb} {order}')
                ctx.count('transitions', 4)
                ctx.count('traces')


# ---- files opened from mounts ----------------------------------------------------------------------------------------


def mount_op_alphabet(size, reduced=False):
    boundary = 512 if size > 1024 else max(1, size // 3)
    ops = [('read', 0), ('read', 1), ('read', boundary), ('read', size + 5), ('read', -1), ('readinto', 3)]
    ops += seek_ops(size, extra=(boundary, boundary + 1, 4096, 8191))
    if reduced:
        ops = [('read', 1), ('read', boundary), ('read', -1), ('seek', 0, 0), ('seek', size // 2, 0), ('seek', -1, 1),
               ('seek', boundary, 1), ('seek', -1, 2), ('seek', size + 2, 0), ('seek', -size - 1, 2)]
    return ops


def run_large(ctx, case):
    """Files larger than the buffers of all backends, all sequences of two operations in one walk, two members in turns."""
    from . import archives
    from .filemodel import FileModel
    what, how = case
    scratch = ctx.tmpdir()
    fmt = archives.FORMATS[what]
    path = os.path.join(scratch, 'archive' + fmt.extension)
    members = {'/a': archives.pattern(2_300_001, 1), '/c': archives.pattern(1_200_000, 3)}
    fmt.build([archives.F(p[1:], data) for p, data in members.items()], path)
    if how == 'fileobject':
        from ratarmountcore.mountsource.factory import open_mount_source
        source = open_mount_source(open(path, 'rb'), indexFilePath=':memory:', writeIndex=False)
    else:
        source = archives.open_format(what, path)
    with source:
        size = len(members['/a'])
        points = (0, 1 << 20, (1 << 20) - 1, 1_000_000, 2 << 20, size - 1, size + 5)
        ops = [('pread', point, n) for point in points for n in (1, 70_000, 1_100_000)] + [('read', 300_000), ('read', -1)]
        walk = de_bruijn(ops, 2)
        if what in ('7z', 'xar', 'iso', 'cpio', 'tar.bz2', 'tar.xz'):
            walk = de_bruijn([o for o in ops if o[-1] != 1_100_000], 2)
        with source.open(source.lookup('/a')) as f, source.open(source.lookup('/c')) as g:
            position = 0
            data = members['/a']
            other = FileModel(members['/c'], lenient=True)
            for n, op in enumerate(walk):
                at = op[1] if op[0] == 'pread' else position
                if op[0] == 'pread':
                    f.seek(at)
                got = f.read(op[-1])
                want = data[at:] if op[-1] < 0 else data[at:at + op[-1]]
                if got != want:
                    raise Violation('read differs', f'{what} {how} step {n} of the walk: {op} at {at}: {len(got)} bytes, {len(want)} expected')
                position = at + len(want) if at <= size else f.tell()
                if f.tell() not in ((position, size) if at > size else (position,)):
                    raise Violation('position differs', f'{what} {how} step {n}: {op} at {at}: {f.tell()}')
                if n % 5 == 0:
                    other.apply(g, ('seek', (n * 7919) % 1_300_000, 0), f'{what} {how} other member step {n}')
                    other.apply(g, ('read', 1000), f'{what} {how} other member step {n}')
                ctx.count('transitions')
                ctx.state(what, how, position)
    ctx.count('traces')


def run_mount(ctx, case):
    from . import archives
    what, variant, thorough = case
    scratch = ctx.tmpdir()
    with archives.mount_for_files(what, scratch) as (source, members, lenient):
        for path, data in members.items():
            info = source.lookup(path)
            if info is None:
                raise Violation('member missing', f'{what} {path}')
            if info.size != len(data) and what not in archives.UNKNOWN_SIZE:
                raise Violation('size differs', f'{what} {path}: {info.size} != {len(data)}')
            for buffering in (-1, 0, 1, 7, 4096):
                tag = f'{what}{path} buffering={buffering}'

                def open_it():
                    return source.open(source.lookup(path), buffering=buffering)

                ops = mount_op_alphabet(len(data), reduced=buffering not in (-1,))
                if variant == 'fresh':
                    for sequence in itertools.product(ops, repeat=2):
                        with open_it() as f:
                            model = run_sequence(f, data, sequence, raw=buffering == 0, lenient=lenient,
                                                 trace=f'{tag} {sequence}')
                        ctx.count('transitions', 2)
                        ctx.count('traces')
                        ctx.state(what, path, model.pos)
                elif variant == 'walk':
                    ops = mount_op_alphabet(len(data), reduced=not thorough)
                    from .filemodel import FileModel
                    with open_it() as f:
                        model = FileModel(data, raw=buffering == 0, lenient=lenient)
                        for n, op in enumerate(de_bruijn(ops, 3)):
                            # Trace: the walk prefix is determined by the case, so name only the step.
                            model.apply(f, op, f'{tag} walk step {n}')
                            ctx.count('transitions')
                            ctx.state(what, path, model.pos)
                    ctx.count('traces')
                elif variant == 'two':
                    # Two handles of the same member and of another one, interleaved at every step.
                    paths = sorted(members)
                    other = paths[(paths.index(path) + 1) % len(paths)]
                    from .filemodel import FileModel
                    ops = mount_op_alphabet(len(data), reduced=True)
                    with open_it() as f, open_it() as g, source.open(source.lookup(other), buffering=buffering) as h:
                        models = [FileModel(data, raw=buffering == 0, lenient=lenient) for _ in range(2)]
                        models.append(FileModel(members[other], raw=buffering == 0, lenient=lenient))
                        walk = de_bruijn(ops, 2)
                        for n, op in enumerate(walk):
                            models[0].apply(f, op, f'{tag} handle 1 step {n}')
                            models[1].apply(g, walk[-1 - n], f'{tag} handle 2 step {n}')
                            models[2].apply(h, walk[(n * 7) % len(walk)], f'{tag} other handle step {n}')
                            ctx.count('transitions', 3)
                    ctx.count('traces')
                elif variant == 'positioned':
                    if buffering != -1:
                        continue
                    size = len(data)
                    points = sorted({0, 1, 2, size // 3, size // 2, size - 1, size, size + 1, size + 600, 511, 512, 513,
                                     1024, 4095, 4096, 4097, 8192})
                    info = source.lookup(path)
                    for offset in points:
                        for n in points:
                            if offset < 0 or n < 0:
                                continue
                            got = source.read(info, n, offset)
                            want = data[offset:offset + n]
                            if bytes(got) != want:
                                raise Violation('positioned read returned wrong bytes',
                                                f'{what}{path} read({n}, {offset}) gave {len(got)} B {bytes(got)[:40]!r}, '
                                                f'expected {len(want)} B {want[:40]!r}')
                            ctx.count('transitions')
                    ctx.count('traces')
        ctx.sample({'mount': what, 'variant': variant, 'members': {p: len(d) for p, d in members.items()}})


def stages(tier):
    layouts = [()] + [p for n in (1, 2, 3) for p in itertools.product(PARTS, repeat=n)]
    kinds = KINDS + ('joined', 'factory1', 'factory3', 'factory8192', 'rawfactory')
    cases = [(2, kind, parts, 'tiny') for kind in kinds for parts in layouts]
    cases += [(3, kind, parts, 'small') for kind in ('raw', 'buf2', 'buf8192', 'joined', 'factory3')
              for parts in layouts if len(parts) in (1, 2)]
    if tier == 'thorough':
        cases += [(3, kind, parts, 'tiny') for kind in kinds for parts in layouts if len(parts) <= 2]
        cases += [(4, kind, parts, 'small') for kind in ('raw', 'buf2', 'factory3') for parts in layouts
                  if len(parts) == 2]
        cases += [(3, kind, parts, 'small') for kind in kinds for parts in layouts if len(parts) == 3]
    yield cases, run_views, {'limit': 600}
    yield [(3 if tier == 'quick' else 4, n) for n in ('zero', 'zero0', 'lambda', 'lambdabuf', 'blob', 'blobsized')], \
        run_small, {'limit': 900}
    pairs = [((0, 1, 2),), ((0, 2, 3), (1, 3, 2)), ((1, 0, 1), (0, 7, 1))]
    yield [(ka, kb, pa, pb) for ka in ('raw', 'buf2', 'buf8192') for kb in ('raw', 'buf3') for pa in pairs
           for pb in pairs], run_pair, {'limit': 300}
    from . import archives
    yield [(what, variant, tier == 'thorough') for what in archives.FILE_MOUNTS
           for variant in ('fresh', 'walk', 'two', 'positioned')], run_mount, {'limit': 600}
    yield [(what, how) for what in archives.LARGE_MOUNTS for how in ('path', 'fileobject')
           if how == 'path' or what not in ('git', 'folder')], run_large, {'limit': 600}
