"""P18: committing an overlay into the archive."""
import builtins
import contextlib
import io
import os
import shutil
import stat
import time

from . import overlay
from .core import Violation
from .overlay import OPERATIONS, Mounted, archive_bytes, archive_model, compare, overlay_mount
from .p15_overlay import CORE, DEEP, FOLDERS
from .p16_remount import overlay_state
from .tarwriter import Member, write_tar

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'GNU tar is installed, which the commit requires.',
    'Modification times of folders are not compared, hard links become independent files or links with the same content.',
]


def commit(folder, archive, answer='commit'):
    from ratarmount.WriteOverlay import commit_overlay
    original = builtins.input
    builtins.input = lambda *args: answer
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            commit_overlay(folder, archive)
    finally:
        builtins.input = original


EXTRA = [
    ('symlink', '/n', 'd'), ('put', '/d/n', b'dn'), ('mkdir', '/n'), ('put', '/n/x', b'nx'), ('unlink', '/d/b'), ('rmdir', '/d/e'),
    ('rmdir', '/d'), ('put', '/d', b'd is a file'), ('put', '/-C', b'option'), ('put', '/a b', b'space'), ('put', '/*', b'star'),
    ('put', '/a\\tb', b'backslash'), ('put', '/new\nline', b'newline'), ('put', '/\u00fc\u20ac', b'unicode'),
    ('symlink', '/d/n', 'e'), ('unlink', '/a'), ('mkdir', '/a'), ('symlink', '/a', 's' * 150), ('put', '/\\', b'only backslash'),
    ('put', '/.hidden', b'h'), ('put', '/d/.ratarmount.overlay.sqlite', b'same name'), ('put', '/x*y[a]', b'pattern'), ('put', '/?', b'a'),
]
DELETIONS = [('put', '/--', b'a'), ('unlink', '/--'), ('unlink', '/*'), ('unlink', '/?'), ('unlink', '/[ab]'), ('unlink', '/a\\tb'),
             ('put', '/*', b'changed'), ('unlink', '/a'), ('unlink', '/\u00fc'), ('unlink', '/d/x y'), ('rename', '/?', '/q'),
             ('put', '/[ab]', b'changed'), ('rename', '/-x', '/d/-x')]


def odd_names():
    """An archive with names that could be mistaken for patterns, options, or escapes"""
    model = archive_model()
    for i, name in enumerate(['*', '?', '[ab]', 'b', 'a\\tb', 'a\tb', '-x', '--', '\u00fc', 'd/x y', 'd/*', 'b\udcff']):
        model.add('/' + name, overlay.Node(stat.S_IFREG, 0o600, 0, 0, 1234567895 + i, name.encode(errors='surrogateescape')))
    return model


VERSIONS = write_tar([
    Member(b'a', 'file', b'old a', mode=0o600, mtime=12), Member(b'./a', 'file', b'older a', mode=0o600, mtime=13),
    Member(b'd', 'file', b'd was a file', mode=0o600, mtime=14), Member(b'/d/b', 'file', b'old b', mode=0o600, mtime=15),
    Member(b'd/b/', 'dir', mode=0o700, mtime=16), Member(b'd/', 'dir', mode=0o755, mtime=17), Member(b'./d/b', 'file', b'b', mode=0o640, mtime=18),
    Member(b'd/e/f', 'file', b'f', mode=0o600, mtime=19), Member(b'a', 'file', b'a', mode=0o600, mtime=20), Member(b'l', 'sym', link=b'a', mtime=20),
])
LINKS = write_tar([
    Member(b'a', 'file', b'content of a', mode=0o640, mtime=20), Member(b'd/', 'dir', mode=0o755, mtime=21),
    Member(b'd/b', 'hard', link=b'a', mode=0o640, mtime=20), Member(b'h', 'hard', link=b'a', mode=0o640, mtime=20),
])
HARD_LINKS = '/a', '/d/b', '/h'  # It depends on the order of changes whether they are still linked, and attributes may then be shared.


def variants():
    yield 'plain', archive_bytes(archive_model())
    yield 'odd', archive_bytes(odd_names())
    yield 'dot', archive_bytes(archive_model(), b'./')
    yield 'versions', VERSIONS
    yield 'links', LINKS


def read_tree(folder, archive, overlayFolder=None):
    with overlay_mount(folder, archive, overlayFolder) as mount:
        return Mounted(mount).tree()


def explore(ctx, case):
    groups, variant, depth, answer = case
    folder = ctx.tmpdir()
    content = dict(variants())[variant]
    start = time.time()
    with open(os.path.join(folder, 'x.tar'), 'wb') as f:
        f.write(content)
    visited = set()
    for ops in groups:
        archive = os.path.join(folder, 'x.tar')
        overlayFolder = os.path.join(folder, 'overlay')
        with open(archive, 'wb') as f:
            f.write(content)
        try:
            with overlay_mount(folder, archive, overlayFolder) as mount:
                for op in ops:
                    Mounted(mount).do(op)
                    ctx.count('transitions')
                want = Mounted(mount).tree()
            state = overlay_state(overlayFolder)
            if state in visited:
                continue
            visited.add(state)
            ctx.state(variant, state)
            where = f'{variant} {list(ops)}'
            if answer != 'commit':
                commit(overlayFolder, archive, answer)
                with open(archive, 'rb') as f:
                    if f.read() != content:
                        raise Violation('archive changed without confirmation', f'{where} {answer!r}')
                continue
            commit(overlayFolder, archive)
            got = read_tree(folder, archive)
            compare(want, got, where, start - 1, ignore=((stat.S_IFDIR, 'modification time'),), linked=HARD_LINKS if variant == 'links' else (), tolerance=1)
            ctx.count('commits')
        except Violation as v:
            ctx.violation(v.sig, v.detail)
        finally:
            shutil.rmtree(overlayFolder)
    shutil.rmtree(folder)


def refuse(ctx, case):
    """What cannot be committed to has to be refused without changing anything."""
    kind, ops = case
    import bz2
    import gzip
    import lzma
    import zipfile
    from ratarmountcore.utils import RatarmountError
    folder = ctx.tmpdir()
    content = dict(variants())['plain']
    zipped = io.BytesIO()
    with zipfile.ZipFile(zipped, 'w') as z:
        z.writestr('a', b'content of a')
    contents = {'gz': gzip.compress(content), 'bz2': bz2.compress(content), 'xz': lzma.compress(content), 'zip': zipped.getvalue(),
                'garbage': b'garbage' * 300, 'empty': b'', 'tar': content}
    archive = os.path.join(folder, 'x.tar')
    if kind in contents:
        with open(archive, 'wb') as f:
            f.write(contents[kind])
    elif kind == 'folder':
        os.mkdir(archive)
        with open(os.path.join(archive, 'a'), 'wb') as f:
            f.write(b'content of a')
    overlayFolder = os.path.join(folder, 'overlay')
    if kind not in ('missing', 'garbage', 'empty', 'tar'):
        with overlay_mount(folder, archive, overlayFolder) as mount:
            for op in ops:
                Mounted(mount).do(op)
                ctx.count('transitions')
    elif kind != 'tar':
        os.mkdir(overlayFolder)
        with open(os.path.join(overlayFolder, 'n'), 'wb') as f:
            f.write(b'new')

    def snapshot():
        result = {}
        for base, folders, files in os.walk(folder):
            for name in folders + files:
                path = os.path.join(base, name)
                result[path] = open(path, 'rb').read() if stat.S_ISREG(os.lstat(path).st_mode) else os.lstat(path)[:6]
        return result

    before = snapshot()
    ctx.state(kind, ops)
    try:
        commit(overlayFolder, archive)
    except RatarmountError:
        pass
    else:
        if kind != 'empty':
            ctx.violation('unsupported commit not refused', f'{kind} {ops}')
    if kind != 'empty' and snapshot() != before:
        ctx.violation('refused commit changed files', f'{kind} {ops}')
    shutil.rmtree(folder)


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    for a in OPERATIONS:
        cases.append(([(a,)] + [(a, b) for b in (OPERATIONS if thorough else CORE)], 'plain', 0, 'commit'))
        cases.append(([(a,)], 'dot', 0, 'commit'))
        if 'e' not in a[1:]:
            cases.append(([(a,)] + [(a, b) for b in (OPERATIONS if thorough else CORE)], 'versions', 0, 'commit'))
            cases.append(([(a,)] + [(a, b) for b in (OPERATIONS if thorough else CORE)], 'links', 0, 'commit'))
    for a in EXTRA:
        cases.append(([(a,)] + [(a, b) for b in EXTRA], 'plain', 0, 'commit'))
        cases.append(([(a,)], 'dot', 0, 'commit'))
    for a in FOLDERS:
        cases.append(([(('mkdir', '/n'), a, b) for b in FOLDERS], 'plain', 0, 'commit'))
    for a in DEEP:
        cases.append(([(a, b, c) for b in DEEP for c in DEEP] if thorough else [(a, b) for b in DEEP], 'dot', 0, 'commit'))
    for a in DELETIONS:
        cases.append(([(a,)] + [(a, b) for b in DELETIONS], 'odd', 0, 'commit'))
    replace = [('unlink', '/d/b'), ('rmdir', '/d/e'), ('rmdir', '/d')]
    for a in EXTRA + CORE:
        cases.append(([(*replace, a), (*replace, ('mkdir', '/d'), a), (*replace, ('put', '/d', b'file'), a)], 'plain', 0, 'commit'))
    for answer in ('', 'no', 'Commit', 'commit ', 'y', 'commit\n'):
        cases.append(([(a,) for a in CORE], 'plain', 0, answer))
    yield cases, explore, {'limit': 900 if thorough else 120}
    yield [(kind, (op,)) for kind in ('gz', 'bz2', 'xz', 'zip', 'garbage', 'empty', 'folder', 'missing', 'tar') for op in CORE], refuse, {}
