"""P17: the process dies at any point inside a change to a write overlay."""
import os
import shutil
import stat
import time

from . import crash
from .core import Violation
from .overlay import OPERATIONS, Failed, Model, Mounted, Node, archive_bytes, archive_model, compare, overlay_mount
from .p15_overlay import Checked
from .p16_remount import copy_overlay

crash.ensure_preloaded()

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'The process dies between or inside of its own system calls; what it gave to the kernel before stays (no power loss).',
    'Data given to a single write may be written partially, as on every file system.',
    'Modification times and owners of the involved paths are their old or new ones independently of the content.',
    'The callbacks are called in the order and with the arguments which Linux and libfuse use for these system calls.',
]

PREFIXES = [
    (),
    (('put', '/n', b'new'), ('chown', '/n', 3, 4)),
    (('write', '/a', b'XY', 3), ('unlink', '/d/b'), ('mkdir', '/d/n')),
    (('unlink', '/d/b'), ('rmdir', '/d/e'), ('rmdir', '/d'), ('unlink', '/a')),
    (('rename', '/a', '/n'), ('rename', '/d/b', '/a')),
    (('unlink', '/d/b'), ('rmdir', '/d/e'), ('rmdir', '/d'), ('mkdir', '/d'), ('link', '/n', '/d/n')),
    (('mkdir', '/n'), ('chmod', '/a', 0o600), ('put', '/d/n', b'dn')),
]
TEMPORARY_CALLS = ('put', 'write', 'readwrite', 'create')


def mixed(content, old, new):
    """A partially executed write"""
    if not min(len(old), len(new), 0) <= len(content) <= max(len(old), len(new)):
        return False
    return all(c in {old[i:i + 1], new[i:i + 1], b'\0'} for i, c in ((i, content[i:i + 1]) for i in range(len(content))))


def same(a, b):
    """Equal apart from things that say nothing, i.e., the time of folders."""
    if a[0] != b[0]:
        return False
    if a[0] == stat.S_IFDIR:
        return a[1:4] == b[1:4]
    return a[1:4] == b[1:4] and abs(a[4] - b[4]) < 1e-5 and a[5:] == b[5:]


def check_states(op, before, after, got, where):
    for path in sorted(set(before) | set(after) | set(got)):
        if path == '/':
            continue
        old, new, now = before.get(path), after.get(path), got.get(path)
        if old is not None and new is not None and same(old, new) or old is None and new is None:
            if now is None:
                raise Violation('path not involved lost', f'{where}: {path}')
            if old is None:
                raise Violation('path appeared', f'{where}: {path} {now}')
            if not same(old, now):
                raise Violation('path not involved changed', f'{where}: {path} {now} instead of {old}')
            continue
        if now is None:
            if old is not None and new is not None:
                raise Violation('path lost', f'{where}: {path}')
            continue
        states = [x for x in (old, new) if x is not None]
        if now[0] not in [x[0] for x in states]:
            raise Violation('type is neither old nor new', f'{where}: {path} {now} not {states}')
        if now[0] != stat.S_IFDIR and now[6] not in [x[6] for x in states if x[0] == now[0]]:
            partially = False
            if op[0] in TEMPORARY_CALLS and now[0] == stat.S_IFREG:
                a = old[6] if old and old[0] == stat.S_IFREG else b''
                b = new[6] if new and new[0] == stat.S_IFREG else b''
                partially = mixed(now[6], a, b)
            if not partially:
                raise Violation('content is neither old nor new', f'{where}: {path} {now} not {states}')
        for i in (1, 2, 3):
            if now[0] != stat.S_IFLNK and now[i] not in [x[i] for x in states]:
                # Only what a new file gets by default because nothing else about it is known yet
                if old is None and op[0] in TEMPORARY_CALLS + ('mkdir', 'mknod', 'symlink', 'link', 'rename'):
                    continue
                raise Violation('attributes are neither old nor new', f'{where}: {path} {now} not {states}')
    if op[0] == 'rename' and before != after:
        source = before.get(op[1])
        if source and not any(p in got and got[p][0] == source[0] and (source[0] == stat.S_IFDIR or got[p][6] == source[6])
                              for p in op[1:3]):
            raise Violation('renamed path lost', f'{where}: {got}')


def model_of(tree):
    model = Model()
    for path, (kind, mode, uid, gid, mtime, size, payload) in sorted(tree.items()):
        if path == '/':
            continue
        node = Node(kind, mode, uid, gid, mtime)
        node.archived = True
        if kind == stat.S_IFREG:
            node.data = payload
        elif kind == stat.S_IFLNK:
            node.link = payload
        model.add(path, node)
    return model


def explore(ctx, case):
    prefix, ops, torn, followups = case
    folder = ctx.tmpdir()
    archive = os.path.join(folder, 'x.tar')
    content = archive_bytes(archive_model())
    with open(archive, 'wb') as f:
        f.write(content)
    start = os.path.join(folder, 'start')
    os.mkdir(start)
    before = None
    if prefix != 'mount':
        with overlay_mount(folder, archive, start) as mount:
            for op in prefix:
                Mounted(mount).do(op)
            before = Mounted(mount).tree()
    else:
        before = archive_model().tree()
    number = 0
    for op in ops:
        def perform(arm):
            if op[0] == 'mount':
                arm()
                with overlay_mount(folder, archive, path) as mount:
                    tree = Mounted(mount).tree()
                return tree
            with overlay_mount(folder, archive, path) as mount:
                arm()
                Mounted(mount).do(op)
                crash.library().crash_disarm()
                return Mounted(mount).tree()

        def fresh():
            nonlocal number
            number += 1
            path = os.path.join(folder, f'overlay{number}')
            copy_overlay(start, path)
            return path

        path = fresh()
        _, (kinds, after) = crash.run_child(perform)
        shutil.rmtree(path)
        if isinstance(after, tuple):
            raise Violation('operation failed', f'{prefix} {op} {after[1]}')
        for n, t in crash.points(kinds, torn):
            where = f'{prefix} {op} crash at {n} of {len(kinds)} torn {t}'
            path = fresh()
            outcome, result = crash.run_child(perform, n, t)
            if outcome != 'crashed':
                raise Violation('not deterministic', f'{where}: {result}')
            ctx.count('crashes')
            ctx.count('transitions')
            try:
                with overlay_mount(folder, archive, path) as mount:
                    got = Mounted(mount).tree()
                    ctx.state(op, repr({p: x[:4] + x[5:] for p, x in got.items()}))
                    check_states(op, before, after, got, where)
                    if op[0] == 'mount':
                        continue
                    # The mount works: do it again and something else.
                    if op[0] == 'link' or op[0] == 'rename' and set(op[1:]) <= set(got):
                        continue  # The paths may be hard links to the same file, which cannot be seen from outside.
                    checked = Checked(ctx, Mounted(mount), model_of(got), where + ' then')
                    checked.start = time.time() - 100
                    for follow in (op, *followups):
                        checked.step(follow)
                with open(archive, 'rb') as f:
                    if f.read() != content:
                        raise Violation('archive changed', where)
            except (Violation, Failed) as v:
                ctx.violation(getattr(v, 'sig', str(v)), getattr(v, 'detail', where))
                break
            finally:
                shutil.rmtree(path)
    shutil.rmtree(folder)


def stages(tier):
    thorough = tier == 'thorough'
    followups = (('put', '/n', b'again'), ('unlink', '/n'), ('mkdir', '/n'))
    cases = [('mount', [('mount',)], 'all', ())]
    for i, prefix in enumerate(PREFIXES):
        for op in OPERATIONS:
            if i == 0 or thorough:
                cases.append((prefix, [op], 'all' if thorough else False, followups))
            elif op[0] not in ('create', 'readwrite', 'mknod') and (i + OPERATIONS.index(op)) % 2 == 0:
                cases.append((prefix, [op], False, followups[:1]))
    yield cases, explore, {'limit': 900 if thorough else 120}
