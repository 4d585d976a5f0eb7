"""P08: an index of a different state of the archive is never served."""
import io
import itertools
import os
import sqlite3
import stat

from . import archives, builders, tarwriter, view
from .archives import COMPRESSION_EXTENSION, FORMATS, D, F, S, Unsupported, compress
from .core import Violation, rmtree
from .p07_index import mount, view_of

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'A state is required to be noticed when its size differs from that of the last mount, or its modification time with verification requested.',
    'The short cut for large appended TAR archives checks only samples of the members which were there before; '
    'archives in which other members were rewritten in addition are not explored.',
]
T = 1_300_000_000
CONTENTS = {
    'one': [F('a', b'first a')], 'same': [F('a', b'other a', 0o600)], 'renamed': [F('b', b'first a')],
    'two': [F('a', b'first a'), F('d/b', archives.pattern(700, 3))], 'bigger': [F('a', archives.pattern(20_000, 1))],
    'many': [F('a', b'first a'), *[F(f'd/{i}', archives.pattern(600, i)) for i in range(30)], F('a', b'newest a')],
    'none': [],
}
KINDS = ['tar', 'tar-gnu', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip-deflate', 'ar', 'asar', 'squashfs', 'html-double', 'ogg',
         'single-gz', 'single-bz2', 'single-xz', 'single-zst', 'nested']


BUILT = {}


def build(kind, content, path):
    # The times of implied folders would differ when built anew for some formats.
    if (kind, content) not in BUILT:
        build_anew(kind, content, path)
        with open(path, 'rb') as f:
            BUILT[(kind, content)] = f.read()
    with open(path, 'wb') as f:
        f.write(BUILT[(kind, content)])


def build_anew(kind, content, path):
    items = CONTENTS[content]
    if kind == 'ogg':
        if not items:
            raise Unsupported
        data = builders.build_ogg([(n, 'audio', i.data[:5000]) for n, i in enumerate(items)])[0]
    elif kind.startswith('single-'):
        data = compress(b''.join(i.data for i in items), kind[7:])
    elif kind == 'nested':
        data = archives.build_tar([F('before', b'b'), F('inner.tar', archives.build_tar(items)), F('z.tar.gz', compress(archives.build_tar(items), 'gz'))])
    else:
        FORMATS[kind].build(items, path + '.new')
        with open(path + '.new', 'rb') as f:
            data = f.read()
        os.unlink(path + '.new')
    with open(path, 'wb') as f:
        f.write(data)


def look(kind, path, **options):
    try:
        with mount(kind, path, **options) as source:
            return view_of(source)
    except Violation:
        raise
    except Exception as e:
        return type(e).__name__


def run(ctx, case):
    kind, steps, verify, place, form, variant = case
    folder = ctx.tmpdir()
    extension = FORMATS[kind].extension if kind in FORMATS else COMPRESSION_EXTENSION[kind[7:]] if kind.startswith('single') else ''
    path = os.path.join(folder, 'archive' + extension)
    options = {'beside': {'indexFolders': [''], 'indexMinimumFileCount': 0}, 'explicit': {'indexFilePath': os.path.join(folder, 'index')},
               'folder': {'indexFolders': ['', os.path.join(folder, 'cache')], 'indexMinimumFileCount': 0}}[place]
    options = dict(options, verifyModificationTime=verify)
    extra = {'hashes': {'hashes': ['crc32']}, 'recursive': {'recursive': True}, '': {}}[variant]
    known = []
    try:
        for n, (content, mtime) in enumerate(steps):
            try:
                build(kind, content, path)
            except Unsupported:
                ctx.count('unsupported')
                return
            os.utime(path, ns=(round((T + mtime) * 10**9),) * 2)
            state = (os.stat(path).st_size, mtime, content)
            if any(state != old and state[0] == old[0] and not (verify and state[1] != old[1]) for old in known):
                ctx.count('not distinguishable')
                return
            expected = look(kind, path, **extra, indexFilePath=':memory:', writeIndex=False)
            got = look(kind, path, **extra, **options, writeIndex=True)
            ctx.count('transitions')
            if got != expected:
                difference = got if isinstance(got, str) or isinstance(expected, str) else view.diff(got, expected)
                raise Violation('stale index served', f'{kind} {variant} {place} {form} verify={verify}, mount {n + 1} of {steps}: {difference}')
            known.append(state)
            if form == 'gz':
                for name in list(os.listdir(folder)):
                    if name.endswith('.index.sqlite') or name == 'index':
                        with open(os.path.join(folder, name), 'rb') as f:
                            data = f.read()
                        if data.startswith(b'SQLite'):
                            os.unlink(os.path.join(folder, name))
                            with open(os.path.join(folder, name + ('.gz' if place != 'explicit' else '')), 'wb') as f:
                                f.write(compress(data, 'gz'))
        ctx.state(case)
        ctx.sample({'archive': kind, 'states': steps, 'verify': verify, 'index': place})
        ctx.count('traces')
    finally:
        rmtree(folder)


# ---- appended TAR archives -------------------------------------------------------------------------------------------


def appended_members(kinds):
    m = tarwriter.Member
    members = []
    for n, kind in enumerate(kinds):
        name = f'{kind}{n}'.encode()
        members += {
            'new': [m(name, data=archives.pattern(700, n))], 'replace': [m(b'f005', data=b'replaced ' + name)], 'empty': [m(name)],
            'implied': [m(b'x/y/' + name, data=b'implied')], 'dir': [m(b'd', 'dir', mode=0o700 + n)], 'sym': [m(name, 'sym', link=b'f001')],
            'hard': [m(name, 'hard', link=b'f001')], 'hardnew': [m(name, data=b'target'), m(name + b'h', 'hard', link=name)],
            'xattr': [m(b'xa', data=b'x', xattrs=((b'user.k', name),), dialect='pax')],
            'long': [m(name * 20, data=b'long', dialect='gnu')], 'pax': [m(('ü' * 80).encode() + name, data=b'pax', dialect='pax')],
            'nested': [m(name + b'.tar', data=archives.build_tar([F('in/ner', b'inner'), F('f005', b'not the other')]))],
            'sparse': [m(name, 'sparse', b'\0' * 1024 + b'1' * 512 + b'\0' * 512, dialect='gnu', holes=((1024, 512),))],
            'file-over-dir': [m(b'i', data=b'file over implied folder')], 'dir-over-file': [m(b'f003', 'dir'), m(b'f003/x', data=b'below')],
        }[kind]
    return members


APPENDED = ['new', 'replace', 'empty', 'implied', 'dir', 'sym', 'hard', 'hardnew', 'xattr', 'long', 'pax', 'nested', 'sparse', 'file-over-dir',
            'dir-over-file']
COUNT = 110
BIG = 65 << 20


def sparse_write(path, parts):
    """parts: bytes, or numbers of zero bytes"""
    with open(path, 'wb') as f:
        for part in parts:
            if isinstance(part, int):
                f.seek(part, os.SEEK_CUR)
            else:
                f.write(part)
        f.truncate()


def encode_all(members):
    return b''.join(tarwriter.encode(member) for member in members)


def base_parts(where, last, change):
    m = tarwriter.Member
    members = [m(f'f{n:03}'.encode(), data=archives.pattern(n, n)) for n in range(COUNT)]
    members += [m(b'i/j', data=b'implied'), m(b'd', 'dir', mode=0o755)]
    if change == 'first':
        members[0] = m(b'g000', data=b'another file')
    elif change == 'last':
        members[COUNT - 1] = m(b'g109', data=b'another file')
    elif change == 'shorter':
        members = members[1:]
    if last:
        members += appended_members([last])
    big = tarwriter.header(b'big', size=BIG), BIG
    small = encode_all(members)
    return [*big, small] if where == 'first' else [small, *big]


def light_view(source):
    """All but the contents of large files."""
    result = {}
    folders = ['/']
    while folders:
        folder = folders.pop()
        for name in sorted(source.list(folder) or []):
            path = view.join(folder, name)
            entries = []
            for version in range(1, source.versions(path) + 1):
                info = source.lookup(path, version)
                entries.append(view.describe(source, info, content=info.size < 1 << 20))
            if not entries:
                raise Violation('listed entry has no versions', path)
            result[path] = tuple(entries)
            if entries[-1][0] == stat.S_IFDIR:
                folders.append(path)
    return result


def light_look(path, **options):
    from ratarmountcore.mountsource.factory import open_mount_source
    with open_mount_source(path, **options) as source:
        return light_view(source)


def run_append(ctx, case):
    where, last, change, appends, end, variant = case
    folder = ctx.tmpdir()
    path = os.path.join(folder, 'archive.tar')
    extra = {'hashes': {'hashes': ['crc32']}, 'recursive': {'recursive': True}, '': {}}[variant]
    options = {'indexFolders': [''], 'indexMinimumFileCount': 0}
    parts = base_parts(where, last, '')
    added = []
    try:
        for n in range(len(appends) + 1):
            if n:
                added.append(encode_all(appended_members(appends[n - 1])))
                if change:
                    parts = base_parts(where, last, change)
            tail = b'\0' * {'normal': 1024, 'record': 10240, 'none': 0, 'one': 512}[end]
            sparse_write(path, [*parts, *added, tail])
            os.utime(path, (T + n, T + n))
            expected = light_look(path, **extra, indexFilePath=':memory:', writeIndex=False)
            got = light_look(path, **extra, **options, writeIndex=True)
            if difference := view.diff(got, expected):
                raise Violation('stale index served after appending', f'{case}, mount {n + 1}: {difference}')
            again = light_look(path, **extra, **options, writeIndex=True)
            if difference := view.diff(again, expected):
                raise Violation('index differs after appending', f'{case}, mount {n + 1}: {difference}')
            ctx.count('transitions', 2)
        ctx.state(case)
        ctx.sample({'appended': appends, 'last': last, 'big member': where, 'end': end})
        ctx.count('traces')
    finally:
        rmtree(folder)


# ---- foreign, empty, and incomplete databases ------------------------------------------------------------------------


def run_foreign(ctx, case):
    kind, what, place = case
    folder = ctx.tmpdir()
    path = os.path.join(folder, 'archive' + FORMATS[kind].extension)
    build(kind, 'two', path)
    index = path + '.index.sqlite' if place == 'beside' else os.path.join(folder, 'index')
    options = {'indexFolders': [''], 'indexMinimumFileCount': 0} if place == 'beside' else {'indexFilePath': index}
    expected = look(kind, path, indexFilePath=':memory:')
    try:
        if what == 'empty':
            open(index, 'wb').close()
        elif what == 'no tables':
            connection = sqlite3.connect(index)
            connection.executescript('CREATE TABLE x (a INTEGER); DROP TABLE x; VACUUM;')
            connection.close()
        elif what == 'one column':
            connection = sqlite3.connect(index)
            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
            connection.close()
        else:
            other, content = ('zip' if kind.startswith('tar') else 'tar', 'bigger') if what == 'backend' else (kind, 'bigger' if what == 'larger' else 'one')
            otherPath = os.path.join(folder, 'other' + FORMATS[other].extension)
            build(other, content, otherPath)
            if what != 'backend' and os.path.getsize(otherPath) == os.path.getsize(path):
                ctx.count('skipped because of equal sizes')
                return
            look(other, otherPath, indexFilePath=index, writeIndex=True)
            if what in ('filestmp', 'parentfolders'):
                connection = sqlite3.connect(index)
                connection.executescript(f'CREATE TABLE {what} AS SELECT * FROM files WHERE 0;')
                connection.close()
        got = look(kind, path, **options, writeIndex=True)
        ctx.count('transitions')
        if what == 'backend':  # The archive may be refused or opened by yet another backend, which may show fewer attributes.
            if isinstance(got, str):
                got = expected
            got, expected = ({p: [(e[0], e[5], e[7]) for e in v] for p, v in x.items() if p != '/' and not p.endswith('?')} for x in (got, expected))
        if got != expected:
            difference = got if isinstance(got, str) else view.diff(got, expected)
            raise Violation('foreign index served', f'{case}: {difference}')
        ctx.state(case)
        ctx.count('traces')
    finally:
        rmtree(folder)


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    # Modification times may differ by less than a second.
    states = [(c, t) for c in CONTENTS for t in ((0, 0.001, -5, 5, 0.9, 1e-5) if thorough else (0, 0.001, -5))]
    first = [('one', 0), ('two', 0), ('many', 0)]
    for kind in KINDS:
        variants = [''] + (['hashes'] if kind in ('tar', 'zip', 'ar', 'tar.gz') or thorough else []) + (['recursive'] if kind == 'nested' else [])
        for variant in variants:
            for verify in (False, True):
                for place, form in (('beside', 'plain'), ('beside', 'gz'), ('explicit', 'plain'), ('explicit', 'gz'), ('folder', 'gz')):
                    if variant and (place, form) != ('beside', 'plain'):
                        continue
                    if not thorough and (place, form) in (('beside', 'gz'), ('explicit', 'plain')):
                        continue
                    cases += [(kind, (a, b), verify, place, form, variant) for a in (first if thorough else first[:2]) for b in states]
                    if (place, form) == ('beside', 'plain') and not variant:
                        third = states if thorough else states[::4]
                        cases += [(kind, (a, b, c), verify, place, form, variant) for a in first[thorough is False:2] for b in third for c in third]
    yield cases, run, {'limit': 60}
    cases = []
    for where in ('first', 'last'):
        for last in (None, 'empty', 'sym', 'hard', 'dir', 'sparse', 'nested', 'implied', 'long', 'xattr'):
            for a in APPENDED:
                if where == 'first' or a in ('new', 'replace') or thorough:
                    cases.append((where, last, '', ((a,),), 'normal', ''))
    for end in ('record', 'none', 'one'):
        cases += [('first', None, '', ((a,),), end, '') for a in APPENDED]
    cases += [('first', None, change, (('new',),), end, '') for change in ('first', 'last', 'shorter') for end in ('normal', 'record')]
    cases += [('first', None, '', ((a, b),), 'normal', v) for a in APPENDED for b in (APPENDED if thorough else ('new', 'replace', 'dir'))
              for v in ('', 'hashes', 'recursive')]
    cases += [('first', None, '', ((a,), (b,)), 'normal', '') for a in APPENDED for b in (APPENDED if thorough else ('new', 'replace'))]
    yield cases, run_append, {'limit': 120}
    yield [(kind, what, place) for kind in KINDS if kind in FORMATS for place in ('beside', 'explicit')
           for what in ('empty', 'no tables', 'one column', 'backend', 'larger', 'smaller', 'filestmp', 'parentfolders')], run_foreign, {'limit': 60}
