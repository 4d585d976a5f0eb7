"""P15: the write overlay against an ordinary file system."""
import errno
import os
import shutil
import stat
import time

from . import overlay
from .core import Violation
from .overlay import OPERATIONS, Model, Mounted, Real, archive_bytes, archive_model, compare, overlay_mount

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'The callbacks are called in the order and with the arguments which Linux and libfuse use for these system calls.',
    'Hard links to files of the archive and renames of folders that exist in the archive may be refused with EXDEV '
    'like OverlayFS does; they must then change nothing.',
    'Files opened before another process changes them first may show the old content until they are opened again.',
    'Modification times of folders are only compared when set explicitly or unchanged.',
    'Relative symbolic links in the overlay folder that point outside of it are followed on purpose.',
]

CORE = [
    ('write', '/a', b'XY', 3), ('put', '/a', b''), ('put', '/n', b'new'), ('put', '/d/n', b'dn'), ('write', '/d/b', b'Q', 20),
    ('truncate', '/a', 4), ('truncate', '/d/b', 2), ('unlink', '/a'), ('unlink', '/d/b'), ('unlink', '/n'),
    ('mkdir', '/n'), ('mkdir', '/d'), ('mkdir', '/d/e/n'), ('rmdir', '/d/e'), ('rmdir', '/d'), ('rmdir', '/n'),
    ('rename', '/a', '/n'), ('rename', '/n', '/a'), ('rename', '/d/b', '/a'), ('rename', '/a', '/d/n'), ('rename', '/n', '/d'),
    ('rename', '/l', '/n'), ('symlink', '/n', 'd/b'), ('symlink', '/a', 'x'), ('link', '/a', '/n'), ('link', '/n', '/d/n'),
    ('chmod', '/a', 0o600), ('chmod', '/d', 0o700), ('chmod', '/n', 0o444), ('chown', '/a', 5, 6), ('utimens', '/a', 1000000000.25),
    ('utimens', '/n', 1000000002), ('create', '/a'), ('mknod', '/n'), ('readwrite', '/a', b'RW'),
]
DEEP = [
    ('write', '/a', b'XY', 3), ('put', '/n', b'new'), ('put', '/d/n', b'dn'), ('truncate', '/a', 4), ('unlink', '/a'), ('unlink', '/n'),
    ('unlink', '/d/b'), ('rmdir', '/d/e'), ('rmdir', '/d'), ('mkdir', '/d'), ('mkdir', '/n'), ('rename', '/a', '/n'),
    ('rename', '/n', '/a'), ('rename', '/d/b', '/n'), ('rename', '/n', '/d'), ('chmod', '/a', 0o600), ('utimens', '/n', 1000000002),
    ('symlink', '/a', 'd/b'),
]
FOLDERS = [
    ('mkdir', '/n'), ('mkdir', '/m'), ('put', '/n/x', b'nx'), ('put', '/m/y', b'my'), ('chmod', '/n/x', 0o4750), ('chown', '/m', 7, 8),
    ('utimens', '/n', 1000000002), ('rename', '/n', '/m'), ('rename', '/m', '/n'), ('rename', '/n', '/d/e/n'), ('unlink', '/n/x'),
    ('rmdir', '/n'), ('mkdir', '/n/s'), ('chown', '/n/s', 9, 9), ('put', '/n/s/t', b'nst'), ('unlink', '/d/e'), ('rmdir', '/d/e'),
]
OUTSIDE = [
    ('symlink', '/n', '@OUT'), ('utimens', '/n', 1000000002), ('chown', '/n', 5, 6), ('chmod', '/n', 0o600), ('rename', '/n', '/a'),
    ('rename', '/n', '/d/n'), ('link', '/n', '/d/n'), ('unlink', '/n'), ('put', '/n', b'new'), ('truncate', '/n', 1),
    ('utimens', '/d/n', 1000000001), ('utimens', '/a', 1000000001),
]


def allowed_to_fail(model, op, code):
    """Called before the operation is applied to the model."""
    if code != errno.EXDEV:
        return False
    if op[0] == 'link':
        node = model.node(model.resolve(op[1], False))
        return node.archived
    if op[0] == 'rename':
        old = model.resolve(op[1], False)
        node = model.node(old)
        if node.kind not in (stat.S_IFDIR,):
            return False
        # Only the ones which did exist in the archive or are renamed to something in the archive.
        return archive_model().node(old) is not None or archive_model().node(model.resolve(op[2], False)) is not None
    return False


def substitute(ops, outside):
    return [tuple(outside if x == '@OUT' else x for x in op) for op in ops]


class Checked:
    """Applies operations to a mount and the model at once and compares."""

    def __init__(self, ctx, mounted, model, where=''):
        self.ctx = ctx
        self.mounted = mounted
        self.model = model
        self.start = time.time()
        self.where = where
        self.history = []

    def step(self, op, compareTree=True):
        self.history.append(op)
        where = f'{self.where} after {self.history}'
        before = self.model.clone()
        expected = self.model.do(op)
        got = self.mounted.do(op)
        self.ctx.count('transitions')
        if expected[0] == 'ok' and got[0] == 'error' and allowed_to_fail(before, op, got[1]):
            self.model = before
            self.ctx.count('refused')
        elif expected[0] != got[0]:
            raise Violation(f'{op[0]} {"fails" if got[0] == "error" else "succeeds"}',
                            f'{where}: {got}, expected {expected}')
        elif expected[0] == 'ok' and expected[1] != got[1]:
            raise Violation(f'{op[0]} returns wrong data', f'{where}: {got} expected {expected}')
        if compareTree:
            self.compare(where)
        return got

    def compare(self, where):
        found = compare(self.model.tree(), self.mounted.tree(), where, self.start, linked=self.model.linked())
        if found:
            self.ctx.violation('attributes of hard links are not shared', found[0])


def snapshot_outside(path):
    st = os.lstat(path)
    with open(path, 'rb') as f:
        return f.read(), st.st_mode, st.st_uid, st.st_gid, st.st_mtime_ns


def conformance(ctx, case):
    """The model against a real folder for all sequences that start with the given ones."""
    prefix, alphabet, depth = case
    folder = ctx.tmpdir()

    def run(ops):
        root = os.path.join(folder, 'root')
        if os.path.lexists(root):
            shutil.rmtree(root)
        model = archive_model()
        model.root.uid, model.root.gid = os.getuid(), os.getgid()
        real = Real.from_model(model, root)
        start = time.time()
        for i, op in enumerate(ops):
            want, got = model.do(op), real.do(op)
            ctx.count('model_transitions')
            if want != got:
                raise Violation('model differs from the real file system', f'{ops[:i + 1]}: {want} != {got}')
        compare(model.tree(), real.tree(start), f'model after {ops}', start)
        if real.held is not None:
            os.close(real.held)
            real.held = None

    def extend(ops):
        run(ops)
        if len(ops) < depth:
            for op in alphabet:
                extend(ops + [op])

    extend(list(prefix))
    shutil.rmtree(folder)


def sequences(prefix, alphabet, depth):
    if len(prefix) >= depth:
        yield prefix
        return
    for op in alphabet:
        yield from sequences(prefix + [op], alphabet, depth)


def run_sequence(ctx, folder, archive, ops, fuse3, archiveContent, options):
    overlayFolder = os.path.join(folder, 'overlay')
    outside = os.path.join(folder, 'outside')
    with open(outside, 'wb') as f:
        f.write(b'outside of the overlay')
    os.utime(outside, (1111111111, 1111111111))
    before = snapshot_outside(outside)
    with overlay_mount(folder, archive, overlayFolder, **options) as mount:
        checked = Checked(ctx, Mounted(mount, fuse3), archive_model(), f'fuse{3 if fuse3 else 2}')
        ops = substitute(ops, outside)
        if any(op[0] == 'symlink' and op[2] == outside for op in ops) or ops[0][0] == 'hold':
            compareFrom = 0
        else:
            # Shorter sequences have been compared as the prefix of other ones.
            compareFrom = len(ops) - 1
        for i, op in enumerate(ops):
            checked.step(op, i >= compareFrom)
        if checked.mounted.held is not None:
            checked.mounted.end_hold()
            checked.compare(f'after closing the file held open by {ops}')
    if snapshot_outside(outside) != before:
        raise Violation('file outside of the overlay changed', f'{ops}')
    with open(archive, 'rb') as f:
        if f.read() != archiveContent:
            raise Violation('archive changed', f'{ops}')
    unknown = set(os.listdir(folder)) - {'x.tar', 'overlay', 'outside', 'mnt'}
    if unknown or os.listdir(os.path.join(folder, 'mnt')):
        raise Violation('files created outside of the overlay', f'{ops}: {unknown}')
    shutil.rmtree(overlayFolder)
    ctx.count('sequences')
    ctx.state(repr(sorted(checked.model.tree().items())))


def explore(ctx, case):
    prefix, alphabet, depth, fuse3, options = case
    folder = ctx.tmpdir()
    archive = os.path.join(folder, 'x.tar')
    content = archive_bytes(archive_model())
    with open(archive, 'wb') as f:
        f.write(content)
    for ops in sequences(list(prefix), alphabet, depth):
        try:
            run_sequence(ctx, folder, archive, ops, fuse3, content, options)
        except Violation as v:
            ctx.violation(v.sig, v.detail)
            shutil.rmtree(os.path.join(folder, 'overlay'), ignore_errors=True)
    shutil.rmtree(folder)


def stages(tier):
    thorough = tier == 'thorough'
    model = [((a,), OPERATIONS + [('heldwrite', b'HELD', 2)], 2) for a in OPERATIONS + [('hold', '/a'), ('hold', '/d/b')]]
    model += [((('hold', p), a), [('heldwrite', b'HELD', 2)], 3) for p in ('/a', '/d/b') for a in OPERATIONS]
    model += [((('mkdir', '/n'), a, b), FOLDERS, 5 if thorough else 3) for a in FOLDERS for b in FOLDERS]
    model += [((a, b), DEEP, 4 if thorough else 3) for a in DEEP for b in DEEP]
    yield model, conformance, {'limit': 600}
    cases = []
    for op in OPERATIONS:
        cases.append(((op,), OPERATIONS, 1, True, {}))
        cases.append(((op,), OPERATIONS, 2, True, {}))
        cases.append(((op,), OPERATIONS if thorough else DEEP, 2, False, {}))
        for path in ('/a', '/d/b'):
            cases.append(((('hold', path), op), [('heldwrite', b'HELD', 2)], 3, True, {}))
            cases.append(((('hold', path), ('heldwrite', b'HELD', 20), op), [('heldwrite', b'HELD', 2)], 4, False, {}))
        cases.append(((('put', '/n', b'new'), ('hold', '/n'), op), [('heldwrite', b'HELD', 2)], 4, True, {}))
    if thorough:
        cases += [((a, b), OPERATIONS, 3, True, {}) for a in OPERATIONS for b in OPERATIONS]
        cases += [((a, b, c), DEEP, 4, True, {}) for a in DEEP for b in DEEP for c in DEEP]
    else:
        cases += [((a, b), DEEP, 3, True, {}) for a in DEEP for b in DEEP]
    # Folders created in the overlay
    cases += [((('mkdir', '/n'), a, b), FOLDERS if thorough else FOLDERS[7:11] + FOLDERS[14:], 5 if thorough else 4, True, {})
              for a in FOLDERS for b in FOLDERS]
    cases += [((('mkdir', '/n'), ('put', '/n/x', b'nx'), ('chown', '/n/x', 3, 4), a, b), FOLDERS, 6, True, {})
              for a in FOLDERS[:9] for b in FOLDERS[7:10]]
    cases += [((OUTSIDE[0], b), OUTSIDE, 4 if thorough else 3, True, {}) for b in OUTSIDE]
    for options in ({'recursive': True, 'recursionDepth': 1}, {'enableControlInterface': True},
                    {'lazyMounting': True, 'recursive': True, 'recursionDepth': 1}):
        cases += [((op,), DEEP, 2, True, options) for op in DEEP]
    yield cases, explore, {'limit': 900 if thorough else 100}
