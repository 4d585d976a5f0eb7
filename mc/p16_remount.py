"""P16: changes through a write overlay persist across unmounts."""
import os
import shutil
import sqlite3
import stat
import time

from . import overlay
from .core import Violation
from .overlay import OPERATIONS, Mounted, archive_bytes, archive_model, overlay_mount
from .p15_overlay import ASSUMPTIONS as OVERLAY_ASSUMPTIONS
from .p15_overlay import CORE, DEEP, Checked

LEVEL = 'model_checking'
ASSUMPTIONS = OVERLAY_ASSUMPTIONS + [
    'The overlay folder is only changed through the mount. It may be copied or moved between mounts.',
]

FOLLOW = [('write', '/a', b'XY', 3), ('put', '/d/n', b'dn'), ('unlink', '/d/b'), ('mkdir', '/n'), ('rename', '/n', '/a'), ('rmdir', '/d/e')]


def overlay_state(folder):
    """Everything that determines the view: the files and the database."""
    result = []
    for root, dirs, files in os.walk(folder):
        dirs.sort()
        for name in sorted(files + dirs):
            path = os.path.join(root, name)
            if name.startswith('.ratarmount'):
                continue
            st = os.lstat(path)
            content = None
            if os.path.islink(path):
                content = os.readlink(path)
            elif os.path.isfile(path):
                with open(path, 'rb') as f:
                    content = f.read()
            result.append((os.path.relpath(path, folder), st.st_mode, st.st_nlink, content))
    for name in os.listdir(folder):
        if name.endswith('.sqlite'):
            connection = sqlite3.connect(os.path.join(folder, name))
            for (table,) in connection.execute("SELECT name FROM sqlite_master WHERE type == 'table' ORDER BY name"):
                result += sorted(map(repr, connection.execute(f'SELECT * FROM "{table}"')))
            connection.close()
    return repr(result)


def copy_overlay(source, target):
    """Exact copy including hard links and pipes"""
    inodes = {}

    def copy(a, b):
        st = os.lstat(a)
        if stat.S_ISDIR(st.st_mode):
            os.mkdir(b)
            for name in os.listdir(a):
                copy(os.path.join(a, name), os.path.join(b, name))
        elif st.st_ino in inodes:
            os.link(inodes[st.st_ino], b, follow_symlinks=False)
            return
        elif stat.S_ISLNK(st.st_mode):
            os.symlink(os.readlink(a), b)
        elif stat.S_ISREG(st.st_mode):
            with open(a, 'rb') as f, open(b, 'wb') as g:
                g.write(f.read())
        else:
            os.mknod(b, st.st_mode, st.st_rdev)
        inodes[st.st_ino] = b
        os.chown(b, st.st_uid, st.st_gid, follow_symlinks=False)
        if not stat.S_ISLNK(st.st_mode):
            os.chmod(b, stat.S_IMODE(st.st_mode))
        os.utime(b, ns=(st.st_mtime_ns, st.st_mtime_ns), follow_symlinks=False)

    copy(source, target)


class Explorer:
    def __init__(self, ctx, options):
        self.ctx = ctx
        self.options = options
        self.folder = ctx.tmpdir()
        self.archive = os.path.join(self.folder, 'x.tar')
        self.content = archive_bytes(archive_model())
        with open(self.archive, 'wb') as f:
            f.write(self.content)
        self.number = 0
        self.start = time.time()
        self.visited = set()

    def new_overlay(self, source=None):
        self.number += 1
        path = os.path.join(self.folder, f'overlay{self.number}')
        if source is None:
            os.mkdir(path)
        else:
            copy_overlay(source, path)
        return path

    def run(self, source, model, ops, history, depth, alphabet):
        """Remounts a copy of the overlay folder, applies the operations, remounts, compares, and continues from there."""
        path = self.new_overlay(source)
        try:
            where = f'{self.options} {history} (remount) {list(ops)}'
            with overlay_mount(self.folder, self.archive, path, **self.options) as mount:
                checked = Checked(self.ctx, Mounted(mount), model.clone(), where)
                checked.start = self.start
                for op in ops:
                    checked.step(op, False)
                before = Mounted(mount).tree()
            with overlay_mount(self.folder, self.archive, path, **self.options) as mount:
                checked.mounted = Mounted(mount)
                checked.compare(where + ' (remount)')
                after = checked.mounted.tree()
            changes = [p for p in set(before) | set(after) if p != '/' and before.get(p) != after.get(p)]
            if changes:
                p = min(changes)
                raise Violation('tree differs after the remount', f'{where}: {p} {before.get(p)} != {after.get(p)}')
            self.ctx.count('sequences')
            with open(self.archive, 'rb') as f:
                if f.read() != self.content:
                    raise Violation('archive changed', where)
            if depth:
                state = overlay_state(path)
                if (state, depth) in self.visited:
                    self.ctx.count('merged')
                    return
                self.visited.add((state, depth))
                self.ctx.state(state)
                for op in alphabet[0]:
                    self.run(path, checked.model, (op,), history + list(ops), depth - 1, alphabet[1:])
        except Violation as v:
            self.ctx.violation(v.sig, v.detail)
        finally:
            shutil.rmtree(path)


def explore(ctx, case):
    groups, depth, alphabet, options = case
    explorer = Explorer(ctx, options)
    for ops in groups:
        explorer.run(None, archive_model(), ops, [], depth, alphabet)
    shutil.rmtree(explorer.folder)


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    # a, b, remount, c, remount
    second = OPERATIONS if thorough else CORE
    cases += [([(a, b) for b in second], 1, [FOLLOW], {}) for a in (OPERATIONS if thorough else CORE)]
    # remounts after each operation
    if thorough:
        cases += [([(a,)], 3, [OPERATIONS, OPERATIONS, DEEP], {}) for a in OPERATIONS]
    else:
        cases += [([(a,)], 2, [DEEP, FOLLOW], {}) for a in DEEP]
        cases += [([(a,)], 1, [DEEP], {}) for a in OPERATIONS]
    for options in ({'indexFilePath': None}, {'recursive': True, 'recursionDepth': 1}, {'enableControlInterface': True}):
        cases += [([(a,)], 1, [DEEP], options) for a in DEEP]
    # three operations within one mount
    if thorough:
        cases += [([(a, b, c) for b in DEEP for c in DEEP], 0, [], {}) for a in DEEP]
    yield cases, explore, {'limit': 1800 if thorough else 150}
