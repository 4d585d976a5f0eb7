"""P01: a mounted TAR shows exactly what the archive contains."""
import io
import itertools
import os
import stat
import subprocess

from . import archives, tarwriter, view
from .archives import pattern
from .core import Violation
from .tarwriter import Member, encodable, expected_tree, write_tar

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Hard links are observed on the raw TAR layer by their recorded target; their resolution is P12.',
    'Attributes of implied parent folders and of the root folder are not specified by the archive.',
    'Below a path whose newest version is not a folder nothing is asserted (a tree can not show it).',
    'Sequences in which a folder is first implied after it was recorded as another type, and the like, follow storage order.',
]

NAMES = [b'a', b'./a', b'/a', b'//a', b'a/b', b'a//b', b'./a/./b', b'a/../b', b'../a', b'../../a/b', b'a/..b', b'...', b'..a',
         b'a b', b'a\nb', b'*?[!]', b'%_\'"', b'back\\slash', b'\xc3\xa9', b'\xff\xfe', b'd\xff/e\xfe', b'e\xcc\x81', b'a.versions',
         b'x' * 99, b'x' * 100, b'x' * 101, b'd/' + b'x' * 98, b'd/' + b'x' * 99, b'd' * 60 + b'/' + b'x' * 60,
         b'd' * 100 + b'/' + b'x' * 100, b'd' * 155 + b'/' + b'x' * 100, b'd' * 155 + b'/' + b'x' * 50,
         b'd' * 120 + b'/' + b'e' * 34 + b'/' + b'x' * 100, b'd' * 156 + b'/x', b'/'.join([b'n' * 50] * 6), b'y' * 255,
         b'\xc3\xa9' * 60, b'a:b', b'~', b'-rf', b' lead', b'trail ', b'a.tar', b'\xe2\x80\xae', b'\xf0\x9f\x92\xa9',
         b'1', b'0', b'None', b'a\tb', b'.', b'./', b'.hidden', b'#', b'A', b'a\x7f']
TYPES = ['file', 'oldfile', 'cont', 'dir', 'sym', 'hard', 'chr', 'blk', 'fifo']
DIALECTS = ['v7', 'ustar', 'gnu', 'pax']
LINKS = [b'a', b'../x', b'/abs/olute', b't' * 100, b't' * 101, b'u' * 60 + b'/' + b'v' * 60, b'\xc3\xa9', b'\xff', b'.', b'd/']
MODES = [0, 0o1, 0o644, 0o755, 0o777, 0o4755, 0o2755, 0o1777, 0o7777, 0o400]
OWNERS = [(0, 0), (1, 2), (65534, 65534), (8 ** 7 - 1, 8 ** 7 - 1), (8 ** 7, 8 ** 7 + 1), (2 ** 31 - 1, 2 ** 31), (2 ** 32 - 2, 5)]
TIMES = [0, 1, 1234567890, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 8 ** 11 - 1, 8 ** 11, -1, -1000, 1234567890.5, 0.25, -1.5]
SIZES = [0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 10240, 10239, 20000]
XATTRS = [((b'user.a', b'1'),), ((b'user.a', b''), (b'user.b', b'x=y\nz')), ((b'user.b\xc3\xa9', b'\xff\x00\xfe'),),
          ((b'security.selinux', b'ctx\x00'), (b'user.long', b'v' * 2000))]
COMPRESSIONS = [None, 'gz', 'gz2', 'bz2', 'bz2multi', 'xz', 'xzblocks', 'zst', 'zstframes', 'zlib']  # lz4 is served by another backend, see P03
SPARSE_LAYOUTS = [
    (3000, ((0, 512), (1024, 512))), (3000, ((512, 100),)), (3000, ()), (3000, ((0, 3000),)), (3000, ((2500, 500),)),
    (20480, tuple((i * 1024, 512) for i in range(20))), (60 * 1024, tuple((i * 1024, 512) for i in range(4))),
    (60 * 1024, tuple((i * 1024, 512) for i in range(5))), (60 * 1024, tuple((i * 1024, 512) for i in range(25))),
    (60 * 1024, tuple((i * 1024, 512) for i in range(26))), (60 * 1024, tuple((i * 1024, 512) for i in range(60))),
    (1, ()), (0, ()), (700, ((0, 512), (699, 1))),
]


def sparse_member(name, layout, how, dialect):
    size, ranges = layout
    content = bytearray(size)
    for o, s in ranges:
        content[o:o + s] = pattern(s, 17 + o)
    return Member(name, 'sparse', bytes(content), dialect=dialect, holes=ranges, sparse=how)


def open_tar(path=None, fileObject=None, **options):
    from ratarmountcore.mountsource.formats.tar import SQLiteIndexedTar
    options.setdefault('writeIndex', False)
    options.setdefault('indexFilePath', ':memory:')
    return SQLiteIndexedTar(path, fileObject=fileObject, **options)


def norm_members(members, encoding='utf-8'):
    return members


def ambiguous(members):
    """A path recorded as another type and used as a folder: order dependent, only single spots are specified."""
    return False


def check_archive(ctx, members, how, describe, *, end='normal', viaObject=False, extra=b'', options=None, tree=None,
                  absent=('/nope', '/a/nope', '/nope/a', '/a/b/c/d')):
    data = write_tar(members, end) + extra
    blob = archives.compress(data, how) if how else data
    path = os.path.join(ctx.scratch, 'a.tar' + (archives.COMPRESSION_EXTENSION[how] if how else ''))
    tree = tree if tree is not None else expected_tree(members)
    if viaObject:
        source = open_tar(fileObject=io.BytesIO(blob), **(options or {}))
    else:
        with open(path, 'wb') as f:
            f.write(blob)
        source = open_tar(path, **(options or {}))
    with source:
        view.check_tree(source, tree, where=describe, absent=absent, hardRaw=True, count=ctx.count)
    ctx.count('traces')
    ctx.count('transitions', len(members))
    ctx.state(data[:1 << 16])


def run_single(ctx, case):
    label, member, how, end, viaObject = case
    tail = Member(b'zz', 'file', b'last', dialect=member.dialect)
    for members in ([member], [member, tail], [tail, member]):
        check_archive(ctx, members, how, f'{label} {member.name[:40]!r} {how} {end} object={viaObject}', end=end,
                      viaObject=viaObject)
    ctx.sample({'single': label, 'name': repr(member.name), 'dialect': member.dialect, 'compression': how})


def singles(thorough):
    def keep(m):
        return encodable(m)

    result = []
    base = {'data': pattern(700)}
    for dialect in DIALECTS:
        for name in NAMES:
            for type_ in TYPES:
                m = Member(name + (b'/' if type_ == 'dir' and not name.endswith(b'/') else b''), type_,
                           pattern(700) if type_ in ('file', 'cont') or type_ == 'oldfile' and not name.endswith(b'/') else b'',
                           link=b'target' if type_ in ('sym', 'hard') else b'', dialect=dialect)
                if keep(m):
                    result.append(('name', m))
        for link in LINKS:
            for type_ in ('sym', 'hard'):
                for name in (b'l', b'd/' + b'x' * 120):
                    result.append(('link', Member(name, type_, link=link, dialect=dialect)))
        for mode in MODES:
            for type_ in ('file', 'dir', 'fifo', 'chr', 'sym'):
                result.append(('mode', Member(b'a', type_, b'', mode=mode, link=b'x' if type_ == 'sym' else b'', dialect=dialect)))
        for (uid, gid), mtime in itertools.product(OWNERS, TIMES):
            result.append(('numbers', Member(b'a', 'file', b'abc', uid=uid, gid=gid, mtime=mtime, dialect=dialect)))
            if dialect == 'gnu':
                result.append(('numbers256', Member(b'a', 'file', b'abc', uid=uid, gid=gid, mtime=mtime, dialect=dialect,
                                                    base256=True)))
        for size in SIZES:
            result.append(('size', Member(b'a', 'file', pattern(size), dialect=dialect)))
            result.append(('size', Member(b'd/' + b'x' * 130, 'file', pattern(size), dialect=dialect)))
            if dialect == 'pax':
                result.append(('paxsize', Member(b'a', 'file', pattern(size), dialect=dialect, paxsize=True)))
            if dialect == 'gnu':
                result.append(('size256', Member(b'a', 'file', pattern(size), dialect=dialect, base256=True)))
    for xattrs in XATTRS:
        for libarchive in (False, True):
            for type_ in ('file', 'dir', 'sym'):
                result.append(('xattrs', Member(b'a', type_, b'', xattrs=xattrs, dialect='pax', libarchive=libarchive,
                                                link=b'x' if type_ == 'sym' else b'')))
    for layout in SPARSE_LAYOUTS:
        for how in ('gnu', '0.0', '0.1', '1.0'):
            for name in (b's', b'd/' + b's' * 120):
                for paxsize in (False, True) if how != 'gnu' else (False,):
                    import dataclasses
                    m = sparse_member(name, layout, how, 'gnu' if how == 'gnu' else 'pax')
                    result.append((f'sparse {how} {layout[0]} {len(layout[1])}', dataclasses.replace(m, paxsize=paxsize)))
    return [(label, m) for label, m in result if keep(m)]


ALPHABET = {
    'Fa1': Member(b'a', 'file', b'1'), 'Fa2': Member(b'./a', 'file', pattern(600), dialect='gnu', mode=0o4711),
    'Da': Member(b'a/', 'dir', mode=0o700, mtime=5), 'Sa': Member(b'a', 'sym', link=b'b'),
    'Fab': Member(b'a/b', 'file', pattern(513), dialect='pax', mtime=1.5), 'Dab': Member(b'a/b/', 'dir', mode=0o711),
    'Fabc': Member(b'/a/b/c', 'file', b'abc', uid=7), 'Fb': Member(b'b', 'file', b'', gid=8),
    'Hb': Member(b'b', 'hard', link=b'a'), 'Hab': Member(b'a/b', 'hard', link=b'b', dialect='gnu'),
    'Xb': Member(b'b', 'file', b'x', xattrs=((b'user.k', b'v'),), dialect='pax'),
    'Xa': Member(b'a', 'dir', xattrs=((b'user.d', b'w'),), dialect='pax'),
    'Pb': sparse_member(b'b', (2000, ((512, 512),)), 'gnu', 'gnu'),
    'La': Member(b'a/' + b'l' * 110, 'file', b'long', dialect='gnu'),
    'Qab': sparse_member(b'a/b', (2000, ((0, 512), (1024, 512))), '1.0', 'pax'),
    'Cb': Member(b'b', 'chr'), 'Ibb': Member(b'b/b', 'fifo'),
}
GLOBAL = tarwriter.pax_header([(b'comment', b'hello')], b'g')


def run_sequence(ctx, case):
    keys, hows = case
    for how in hows:
        members = [ALPHABET[k] for k in keys]
        check_archive(ctx, members, how, f'{keys} {how}')
    ctx.sample({'sequence': keys, 'compressions': hows})


def run_layout(ctx, case):
    """Ends of archives, trailing bytes, global headers, concatenations, leading zero blocks, file objects."""
    keys, variant, how = case
    members = [ALPHABET[k] for k in keys]
    where = f'{keys} {variant} {how}'
    if variant.startswith('end-'):
        check_archive(ctx, members, how, where, end=variant[4:])
    elif variant == 'object':
        how = 'gz' if how == 'zst' else how  # Zstandard needs a real file.
        check_archive(ctx, members, how, where, viaObject=True)
    elif variant == 'zeros':
        check_archive(ctx, members, how, where, extra=b'\0' * 30000)
    elif variant == 'garbage':
        check_archive(ctx, members, how, where, extra=b'garbage after the end' * 100)
    elif variant == 'global':
        mixed = [GLOBAL] + [x for m in members for x in (m, GLOBAL)]
        check_archive(ctx, mixed, how, where, tree=expected_tree(members))
    elif variant == 'concatenated':
        data = b''.join(write_tar([m]) for m in members)
        check_archive(ctx, [data], how, where, end='none', tree=expected_tree(members), options={'ignoreZeros': True})
    elif variant == 'concatenated-first':
        # Without the option, reading stops at the end mark of the first archive.
        data = b''.join(write_tar([m]) for m in members)
        check_archive(ctx, [data], how, where, end='none', tree=expected_tree(members[:1]))
    elif variant == 'recursive':
        check_archive(ctx, members, how, where, options={'recursive': True})
    elif variant == 'parallel':
        check_archive(ctx, members, how, where, options={'parallelization': 4})
    elif variant == 'incremental':
        check_archive(ctx, members, how, where, options={'isGnuIncremental': False})
    else:
        raise AssertionError(variant)


def run_paths(ctx, case):
    """Files in folders which are only implied, with names that are prefixes of each other."""
    members = [Member(b'/'.join(p), 'file', b'%d' % i, mtime=i) for i, p in enumerate(case)]
    check_archive(ctx, members, None, repr(case))


def run_many(ctx, case):
    """More members than any internal batch size, so that batch borders are crossed."""
    count, kind = case
    members = []
    for i in range(count):
        if kind == 'files':
            members.append(Member(b'd%d/f%d' % (i % 7, i), 'file', b'%d' % i, mtime=i))
        elif kind == 'same':
            members.append(Member(b'd/same', 'file', b'%d' % i, mtime=i))
        elif kind == 'xattrs':
            members.append(Member(b'f%d' % i, 'file', b'%d' % i, xattrs=((b'user.n', b'%d' % i),), dialect='pax'))
        elif kind == 'deep':
            members.append(Member(b'/'.join([b'%d' % i] * (1 + i % 20)) + b'/x', 'file', b'%d' % i))
    check_archive(ctx, members, None, f'{kind} {count}')


def run_gnutar(ctx, case):
    """The system's GNU tar writes a real folder; also as incremental archive."""
    options, name, how = case
    folder = os.path.join(ctx.tmpdir(), 'r')
    os.makedirs(folder + '/d/e')
    long = 'n' * 120
    contents = {'d/f': pattern(1000), 'd/e/g': b'', long: b'long', 'd/' + name: pattern(10, 3)}
    for p, data in contents.items():
        with open(os.path.join(folder, p), 'wb') as f:
            f.write(data)
    with open(folder + '/sp', 'wb') as f:
        f.seek(100000)
        f.write(b'end')
    contents['sp'] = b'\0' * 100000 + b'end'
    os.symlink('t' * 130, folder + '/sl')
    os.link(folder + '/d/f', folder + '/hl')
    os.mkfifo(folder + '/ff')
    os.chmod(folder + '/d', 0o750)
    archive = os.path.join(ctx.tmpdir(), 'x.tar')
    options = [o.replace('SNAR', archive + '.snar') for o in options]
    subprocess.run(['tar', '-C', folder, '--numeric-owner', '-cf', archive, *options, '.'], check=True,
                   stderr=subprocess.DEVNULL)
    if how:
        with open(archive, 'rb') as f:
            data = f.read()
        archive += archives.COMPRESSION_EXTENSION[how]
        with open(archive, 'wb') as f:
            f.write(archives.compress(data, how))
    with open_tar(archive) as source:
        hard = {'hl', 'd/f'}
        got = set()

        def walk(path):
            for child in source.list(path) or []:
                got.add(view.join(path, child)[1:])
                if source.is_dir(view.join(path, child)):
                    walk(view.join(path, child))

        walk('/')
        want = set(contents) | {'d', 'd/e', 'sl', 'hl', 'ff'}
        if got != want:
            raise Violation('tree of GNU tar archive differs', f'{case}: only mounted {got - want}, lost {want - got}')
        for path in want:
            info = source.lookup('/' + path)
            st = os.lstat(os.path.join(folder, path))
            if path not in hard and (stat.S_IFMT(info.mode) != stat.S_IFMT(st.st_mode) or
                                     (stat.S_IMODE(info.mode), info.uid, info.gid) != (
                                         stat.S_IMODE(st.st_mode), st.st_uid, st.st_gid)):
                raise Violation('attributes of GNU tar archive differ', f'{case} {path}: {info} {st}')
            if path in contents and path not in hard and view.read_all(source, info) != contents[path]:
                raise Violation('content of GNU tar archive differs', f'{case} {path}')
            if path == 'sl' and info.linkname != 't' * 130:
                raise Violation('symbolic link target differs', f'{case} {info.linkname}')
            ctx.count('checked_entries')
    ctx.count('traces')
    ctx.count('transitions')


def stages(tier):
    thorough = tier == 'thorough'
    cases = [(label, m, None, 'normal', False) for label, m in singles(thorough)]
    for label, m in singles(thorough):
        if label == 'numbers' and (m.uid, m.mtime) != (8 ** 7, 2 ** 32 + 5):
            continue
        if label in ('name', 'mode') and not thorough and m.type not in ('file', 'dir'):
            continue
        for how in COMPRESSIONS[1:] if thorough else (COMPRESSIONS[1:] if label.startswith(('size', 'sparse')) else ('gz', )):
            cases.append((label, m, how, 'normal', False))
    yield cases, run_single, {'limit': 120}
    keys = list(ALPHABET)
    cases = [(k, tuple(COMPRESSIONS if thorough else (None, 'gz', 'xzblocks'))) for n in (1, 2)
             for k in itertools.product(keys, repeat=n)]
    cases += [(k, (None,)) for k in itertools.product(keys, repeat=3)]
    small = ['Fa1', 'Fa2', 'Da', 'Sa', 'Fab', 'Fabc', 'Hb', 'Xb', 'Pb']
    cases += [(k, (None,)) for k in itertools.product(keys if thorough else small, repeat=4)]
    yield cases, run_sequence, {'limit': 120}
    variants = ['end-short', 'end-none', 'end-one', 'object', 'zeros', 'garbage', 'global', 'concatenated',
                'concatenated-first', 'recursive', 'parallel', 'incremental']
    few = keys if thorough else ['Fa1', 'Da', 'Fab', 'Xb', 'Pb', 'La', 'Qab', 'Fb']
    yield [(k, v, how) for n in (1, 2) for k in itertools.product(few, repeat=n) for v in variants
           for how in ((None, 'gz', 'bz2', 'xz', 'zst') if thorough else (None, 'zst'))], run_layout, {'limit': 120}
    paths = [p for n in (1, 2, 3) for p in itertools.product((b'a', b'ab', b'b'), repeat=n)]
    fewPaths = [p for p in paths if len(p) > 1 and (len(p) == 2 or p[0] == b'a' and p[2] == b'b')]
    yield list(itertools.product(paths, repeat=2)) + list(itertools.product(paths if thorough else fewPaths, repeat=3)), \
        run_paths, {'limit': 60}
    yield [(n, kind) for n in ((999, 1000, 1001, 1002, 2003, 2100) if thorough else (1000, 1001, 2003)) for kind in ('files', 'same', 'xattrs', 'deep')], \
        run_many, {'limit': 300}
    gnu = [[], ['--format=gnu'], ['--format=oldgnu'], ['--format=pax'], ['--format=pax', '--sparse'],
           ['--format=gnu', '--sparse'], ['--format=pax', '--sparse', '--sparse-version=0.0'],
           ['--format=pax', '--sparse', '--sparse-version=0.1'], ['--format=pax', '--sparse', '--sparse-version=1.0'],
           ['--listed-incremental=SNAR'], ['--incremental'], ['--format=pax', '--xattrs']]
    yield [(o, name, how) for o in gnu for name in ('x', 'é', 'm' * 110) for how in (None, 'gz', 'bz2', 'xz', 'zst')], \
        run_gnutar, {'limit': 120}
