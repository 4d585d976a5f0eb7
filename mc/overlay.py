"""A write overlay mount driven like the kernel does it, and a reference file system to compare it with.

'Model' is an in-memory file system with inodes. The same operations can be run on a real folder ('Real'), which is used to
validate the model, and on a FuseMount with a write overlay ('Mounted'), where path resolution and the checks of the kernel's
VFS layer are emulated on top of the answers of getattr and readlink.
"""
import contextlib
import errno
import os
import posixpath
import stat
import time

from . import view
from .core import Violation


HIDDEN = '.fuse_hidden'


class Failed(Exception):
    def __init__(self, code, origin='vfs'):
        super().__init__(errno.errorcode.get(code, code))
        self.code = code
        self.origin = origin


class Node:
    def __init__(self, kind, mode, uid=0, gid=0, mtime=None, data=b'', link=''):
        self.kind = kind
        self.mode = mode
        self.uid = uid
        self.gid = gid
        self.mtime = mtime  # None when unknown, i.e., set to the current time by some operation.
        self.data = data
        self.link = link
        self.children = {} if kind == stat.S_IFDIR else None
        self.archived = False  # Whether it already existed before the first change.


class Vfs:
    """Path resolution of the kernel and the operations in terms of primitives of the subclasses."""

    def attributes(self, path):
        """(kind, ...) of the node itself or None"""
        raise NotImplementedError

    def link_of(self, path):
        raise NotImplementedError

    def resolve(self, path, follow=True, depth=0):
        """Returns the path without links, raises if a parent does not exist. The last component may be missing."""
        if depth > 20:
            raise Failed(errno.ELOOP)
        current = '/'
        parts = [p for p in path.split('/') if p]
        for i, part in enumerate(parts):
            last = i + 1 == len(parts)
            if part == '..':
                current = posixpath.dirname(current)
                continue
            if part == '.':
                continue
            current = view.join(current, part)
            kind = self.kind(current)
            if kind is None:
                if not last:
                    raise Failed(errno.ENOENT)
            elif kind == stat.S_IFLNK and (follow or not last):
                target = self.link_of(current)
                if target.startswith('/'):
                    raise Failed(errno.EXDEV)  # Leaves the mount, must not be used by the sequences
                return self.resolve(posixpath.join(posixpath.dirname(current), target, *parts[i + 1:]), follow, depth + 1)
            elif not last and kind != stat.S_IFDIR:
                raise Failed(errno.ENOTDIR)
        return current

    def existing(self, path, follow=True):
        path = self.resolve(path, follow)
        kind = self.kind(path)
        if kind is None:
            raise Failed(errno.ENOENT)
        return path, kind

    def missing(self, path):
        path = self.resolve(path, False)
        if self.kind(path) is not None:
            raise Failed(errno.EEXIST)
        return path

    # Operations as processes use them

    def do(self, op):
        """Returns None on success or the error number. May return data."""
        try:
            result = getattr(self, 'do_' + op[0])(*op[1:])
            return ('ok', result)
        except Failed as e:
            return ('error', e.code)

    def opened_file(self, path, create=False, exclusive=False):
        path = self.resolve(path)
        kind = self.kind(path)
        if kind is None:
            if not create:
                raise Failed(errno.ENOENT)
            return path, False
        if exclusive:
            raise Failed(errno.EEXIST)
        if kind == stat.S_IFDIR:
            raise Failed(errno.EISDIR)
        if kind != stat.S_IFREG:
            raise Failed(errno.ENXIO)
        return path, True

    def do_unlink(self, path):
        path, kind = self.existing(path, False)
        if kind == stat.S_IFDIR:
            raise Failed(errno.EISDIR)
        self.unlink(path)

    def do_rmdir(self, path):
        path, kind = self.existing(path, False)
        if kind != stat.S_IFDIR:
            raise Failed(errno.ENOTDIR)
        self.rmdir(path)

    def do_mkdir(self, path, mode=0o755):
        self.mkdir(self.missing(path), mode)

    def do_symlink(self, path, target):
        self.symlink(self.missing(path), target)

    def do_mknod(self, path, mode=stat.S_IFIFO | 0o600):
        self.mknod(self.missing(path), mode)

    def do_link(self, old, new):
        old, kind = self.existing(old, False)
        new = self.missing(new)
        if kind == stat.S_IFDIR:
            raise Failed(errno.EPERM)
        self.link(old, new)

    def do_rename(self, old, new):
        old, kind = self.existing(old, False)
        new = self.resolve(new, False)
        other = self.kind(new)
        if old == new:
            return
        if (new + '/').startswith(old + '/'):
            raise Failed(errno.EINVAL)
        if (old + '/').startswith(new + '/'):
            raise Failed(errno.ENOTEMPTY)
        if other is not None:
            if kind == stat.S_IFDIR and other != stat.S_IFDIR:
                raise Failed(errno.ENOTDIR)
            if kind != stat.S_IFDIR and other == stat.S_IFDIR:
                raise Failed(errno.EISDIR)
        self.rename(old, new)

    def do_chmod(self, path, mode):
        path, kind = self.existing(path)
        self.chmod(path, mode)

    def do_chown(self, path, uid, gid):
        path, kind = self.existing(path, False)
        self.chown(path, uid, gid)

    def do_utimens(self, path, mtime):
        path, kind = self.existing(path, False)
        self.utimens(path, mtime)

    def do_truncate(self, path, size):
        path, kind = self.existing(path)
        if kind == stat.S_IFDIR:
            raise Failed(errno.EISDIR)
        if kind != stat.S_IFREG:
            raise Failed(errno.EINVAL)
        self.truncate(path, size)

    def do_create(self, path, mode=0o640):
        """open(O_CREAT|O_EXCL)"""
        path, exists = self.opened_file(path, True, True)
        self.create(path, mode, b'')

    def do_put(self, path, data, mode=0o644):
        """open(O_WRONLY|O_CREAT|O_TRUNC), write, close (cp, > redirection)"""
        path, exists = self.opened_file(path, True)
        if exists:
            self.rewrite(path, data)
        else:
            self.create(path, mode, data)

    def do_write(self, path, data, offset):
        path, _ = self.opened_file(path)
        self.write(path, data, offset)

    def do_hold(self, path):
        """Opens a file for reading and writing and keeps it open."""
        path, _ = self.opened_file(path)
        self.hold(path)

    def do_heldwrite(self, data, offset):
        """Writes to the file opened with hold, wherever that file is by now, and reads from it."""
        return self.heldwrite(data, offset)

    def do_readwrite(self, path, data):
        """Opens for reading and writing, reads, changes the start, and reads again through the same handle."""
        path, _ = self.opened_file(path)
        return self.readwrite(path, data)


class Model(Vfs):
    def __init__(self):
        self.root = Node(stat.S_IFDIR, 0o755)
        self.held = None

    def hold(self, path):
        self.held = self.node(path)

    def heldwrite(self, data, offset):
        if self.held is None:
            raise Failed(errno.EBADF)
        node = self.held
        old = node.data + b'\0' * (offset - len(node.data))
        node.data = old[:offset] + data + old[offset + len(data):]
        node.mtime = None
        return node.data

    # Building

    def add(self, path, node):
        parent = self.node(posixpath.dirname(path))
        parent.children[posixpath.basename(path)] = node

    def node(self, path):
        node = self.root
        for part in path.split('/'):
            if part:
                if node.kind != stat.S_IFDIR or part not in node.children:
                    return None
                node = node.children[part]
        return node

    def split(self, path):
        return self.node(posixpath.dirname(path)), posixpath.basename(path)

    def kind(self, path):
        node = self.node(path)
        return node.kind if node else None

    def link_of(self, path):
        return self.node(path).link

    def changed(self, path):
        self.node(posixpath.dirname(path)).mtime = None

    # Primitives

    def unlink(self, path):
        parent, name = self.split(path)
        del parent.children[name]
        parent.mtime = None

    def rmdir(self, path):
        if path == '/':
            raise Failed(errno.EBUSY)
        parent, name = self.split(path)
        if parent.children[name].children:
            raise Failed(errno.ENOTEMPTY)
        del parent.children[name]
        parent.mtime = None

    def mkdir(self, path, mode):
        self.add(path, Node(stat.S_IFDIR, mode))
        self.changed(path)

    def symlink(self, path, target):
        self.add(path, Node(stat.S_IFLNK, 0o777, link=target))
        self.changed(path)

    def mknod(self, path, mode):
        self.add(path, Node(stat.S_IFMT(mode), stat.S_IMODE(mode)))
        self.changed(path)

    def link(self, old, new):
        self.add(new, self.node(old))
        self.changed(new)

    def rename(self, old, new):
        node, other = self.node(old), self.node(new)
        if other is node:
            return
        if other is not None and other.kind == stat.S_IFDIR and other.children:
            raise Failed(errno.ENOTEMPTY)
        parent, name = self.split(old)
        del parent.children[name]
        parent.mtime = None
        self.add(new, node)
        self.changed(new)

    def chmod(self, path, mode):
        self.node(path).mode = mode

    def chown(self, path, uid, gid):
        node = self.node(path)
        if uid != -1:
            node.uid = uid
        if gid != -1:
            node.gid = gid
        # The kernel drops the bits for other users' rights.
        if node.kind == stat.S_IFREG:
            node.mode &= ~stat.S_ISUID
            if node.mode & stat.S_IXGRP:
                node.mode &= ~stat.S_ISGID

    def utimens(self, path, mtime):
        self.node(path).mtime = mtime

    def truncate(self, path, size):
        node = self.node(path)
        node.data = node.data[:size] + b'\0' * (size - len(node.data))
        node.mtime = None

    def create(self, path, mode, data):
        self.add(path, Node(stat.S_IFREG, mode, data=data))
        self.changed(path)

    def rewrite(self, path, data):
        node = self.node(path)
        node.data = data
        node.mtime = None

    def write(self, path, data, offset):
        node = self.node(path)
        old = node.data + b'\0' * (offset - len(node.data))
        node.data = old[:offset] + data + old[offset + len(data):]
        node.mtime = None

    def readwrite(self, path, data):
        node = self.node(path)
        before = node.data
        self.write(path, data, 0)
        return before, node.data

    # Comparison

    def linked(self):
        """All paths of nodes that have more than one name."""
        names = {}

        def walk(path, node):
            names.setdefault(id(node), []).append(path)
            for name, child in (node.children or {}).items():
                walk(view.join(path, name), child)

        walk('/', self.root)
        return {path for paths in names.values() if len(paths) > 1 for path in paths}

    def tree(self):
        """{path: (kind, mode, uid, gid, mtime or None, size, link or data or sorted children)}"""
        result = {}

        def walk(path, node):
            if node.kind == stat.S_IFDIR:
                payload = tuple(sorted(node.children))
            else:
                payload = node.link if node.kind == stat.S_IFLNK else node.data
            result[path] = (node.kind, node.mode, node.uid, node.gid, node.mtime,
                            len(node.data) if node.kind == stat.S_IFREG else None, payload)
            for name, child in sorted((node.children or {}).items()):
                walk(view.join(path, name), child)

        walk('/', self.root)
        return result

    def clone(self):
        import copy
        return copy.deepcopy(self)


class Real(Vfs):
    """The same operations on a real folder, to show that the model describes an ordinary file system."""

    def __init__(self, root):
        self.root_path = root

    def p(self, path):
        return os.path.join(self.root_path, path.lstrip('/')) if path != '/' else self.root_path

    @classmethod
    def from_model(cls, model, root):
        real = cls(root)
        os.makedirs(root, exist_ok=True)
        seen = {}

        def build(path, node):
            p = real.p(path)
            if id(node) in seen:
                os.link(seen[id(node)], p)
                return
            seen[id(node)] = p
            if node.kind == stat.S_IFDIR:
                os.makedirs(p, exist_ok=True)
                for name, child in node.children.items():
                    build(view.join(path, name), child)
            elif node.kind == stat.S_IFLNK:
                os.symlink(node.link, p)
            elif node.kind == stat.S_IFREG:
                with open(p, 'wb') as f:
                    f.write(node.data)
            else:
                os.mknod(p, node.kind | node.mode)
            os.chown(p, node.uid, node.gid, follow_symlinks=False)
            if node.kind != stat.S_IFLNK:
                os.chmod(p, node.mode)
            if node.mtime is not None:
                os.utime(p, (node.mtime, node.mtime), follow_symlinks=False)

        build('/', model.root)
        return real

    def do(self, op):
        old = os.umask(0)
        try:
            return ('ok', getattr(self, 'real_' + op[0])(*op[1:]))
        except OSError as e:
            return ('error', e.errno)
        finally:
            os.umask(old)

    def real_unlink(self, path):
        os.unlink(self.p(path))

    def real_rmdir(self, path):
        os.rmdir(self.p(path))

    def real_mkdir(self, path, mode=0o755):
        os.mkdir(self.p(path), mode)

    def real_symlink(self, path, target):
        os.symlink(target, self.p(path))

    def real_mknod(self, path, mode=stat.S_IFIFO | 0o600):
        os.mknod(self.p(path), mode)

    def real_link(self, old, new):
        os.link(self.p(old), self.p(new), follow_symlinks=False)

    def real_rename(self, old, new):
        os.rename(self.p(old), self.p(new))

    def real_chmod(self, path, mode):
        os.chmod(self.p(path), mode)

    def real_chown(self, path, uid, gid):
        os.chown(self.p(path), uid, gid, follow_symlinks=False)

    def real_utimens(self, path, mtime):
        os.utime(self.p(path), (mtime, mtime), follow_symlinks=False)

    def real_truncate(self, path, size):
        os.truncate(self.p(path), size)

    @contextlib.contextmanager
    def opened(self, path, flags, mode=0o777):
        fd = os.open(self.p(path), flags, mode)
        try:
            yield fd
        finally:
            os.close(fd)

    def real_create(self, path, mode=0o640):
        with self.opened(path, os.O_CREAT | os.O_EXCL | os.O_RDWR, mode):
            pass

    def real_put(self, path, data, mode=0o644):
        with self.opened(path, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_NONBLOCK, mode) as fd:
            os.write(fd, data)

    def real_write(self, path, data, offset):
        with self.opened(path, os.O_WRONLY | os.O_NONBLOCK) as fd:
            os.pwrite(fd, data, offset)

    held = None

    def real_hold(self, path):
        if self.held is not None:
            os.close(self.held)
            self.held = None
        if os.path.exists(self.p(path)) and not os.path.isfile(self.p(path)) and not os.path.isdir(self.p(path)):
            raise OSError(errno.ENXIO, '')
        self.held = os.open(self.p(path), os.O_RDWR)

    def real_heldwrite(self, data, offset):
        if self.held is None:
            raise OSError(errno.EBADF, '')
        os.pwrite(self.held, data, offset)
        return os.pread(self.held, 10000, 0)

    def real_readwrite(self, path, data):
        if os.path.exists(self.p(path)) and not os.path.isfile(self.p(path)) and not os.path.isdir(self.p(path)):
            raise OSError(errno.ENXIO, '')
        with self.opened(path, os.O_RDWR) as fd:
            before = os.pread(fd, 10000, 0)
            os.pwrite(fd, data, 0)
            return before, os.pread(fd, 10000, 0)

    def tree(self, now):
        result = {}

        def walk(path):
            p = self.p(path)
            st = os.lstat(p)
            kind = stat.S_IFMT(st.st_mode)
            if kind == stat.S_IFDIR:
                payload = tuple(sorted(os.listdir(p)))
            elif kind == stat.S_IFLNK:
                payload = os.readlink(p)
            elif kind == stat.S_IFREG:
                with open(p, 'rb') as f:
                    payload = f.read()
            else:
                payload = b''
            result[path] = (kind, stat.S_IMODE(st.st_mode), st.st_uid, st.st_gid, st.st_mtime,
                            st.st_size if kind == stat.S_IFREG else None, payload)
            if kind == stat.S_IFDIR:
                for name in payload:
                    walk(view.join(path, name))

        walk('/')
        return result


class Mounted(Vfs):
    """The operations on the callbacks of a FuseMount, as the kernel and libfuse issue them."""

    def __init__(self, mount, fuse3=True):
        self.mount = mount
        self.fuse3 = fuse3
        self.held = None  # [path, handle]

    # libfuse knows the current path of opened files and keeps deleted ones under another name until they are closed.

    def hold(self, path):
        self.end_hold()
        self.held = [path, self.handle(path, os.O_RDWR)]

    def heldwrite(self, data, offset):
        if self.held is None:
            raise Failed(errno.EBADF)
        path, fh = self.held
        self.write_handle(path, fh, data, offset)
        return self.call('read', path, 10000, 0, fh)

    def end_hold(self):
        if self.held is not None:
            (path, fh), self.held = self.held, None
            self.close(path, fh)
            if posixpath.basename(path).startswith(HIDDEN):
                self.call('unlink', path)

    def hide(self, path):
        """Returns true if the path was hidden instead of deleted because it is still opened."""
        if self.held is not None and self.held[0] == path:
            hidden = view.join(posixpath.dirname(path), HIDDEN + '0001')
            self.call('rename', path, hidden)
            self.held[0] = hidden
            return True
        return False

    def call(self, name, *args):
        try:
            return getattr(self.mount, name)(*args)
        except OSError as e:
            raise Failed(e.errno if e.errno is not None else errno.EINVAL, 'fuse') from e
        except NotImplementedError as e:
            raise Failed(errno.ENOSYS, 'fuse') from e

    def kind(self, path):
        try:
            return stat.S_IFMT(self.call('getattr', path)['st_mode'])
        except Failed as e:
            if e.code == errno.ENOENT:
                return None
            raise

    def link_of(self, path):
        return self.call('readlink', path)

    def unlink(self, path):
        if not self.hide(path):
            self.call('unlink', path)

    def rmdir(self, path):
        if path == '/':
            raise Failed(errno.EBUSY)
        self.call('rmdir', path)

    def mkdir(self, path, mode):
        self.call('mkdir', path, mode)

    def symlink(self, path, target):
        self.call('symlink', path, target)

    def mknod(self, path, mode):
        self.call('mknod', path, mode, 0)

    def link(self, old, new):
        self.call('link', new, old)

    def rename(self, old, new):
        self.hide(new)
        self.call('rename', old, new)
        if self.held is not None and (self.held[0] + '/').startswith(old + '/'):
            self.held[0] = new + self.held[0][len(old):]

    def chmod(self, path, mode):
        # The kernel sends the whole mode including the type.
        self.call('chmod', path, self.kind(path) | mode)

    def chown(self, path, uid, gid):
        # The kernel removes the set-user and set-group bits through a chmod of its own before it sends the chown.
        attributes = self.call('getattr', path)['st_mode']
        if stat.S_ISREG(attributes):
            mode = attributes & ~stat.S_ISUID
            if mode & stat.S_IXGRP:
                mode &= ~stat.S_ISGID
            if mode != attributes:
                self.call('chmod', path, mode)
        self.call('chown', path, uid, gid)

    def utimens(self, path, mtime):
        self.call('utimens', path, (int(mtime * 1e9), int(mtime * 1e9)))

    def truncate(self, path, size):
        self.call('truncate', path, size)

    def handle(self, path, flags):
        fh = self.call('open', path, flags if self.fuse3 else flags & ~os.O_TRUNC)
        if flags & os.O_TRUNC and not self.fuse3:
            try:
                self.call('truncate', path, 0, fh)
            except Failed:
                self.call('release', path, fh)
                raise
        return fh

    def close(self, path, fh):
        try:
            self.call('flush', path, fh)
        finally:
            self.call('release', path, fh)

    def create(self, path, mode, data):
        fh = self.call('create', path, stat.S_IFREG | mode, os.O_CREAT | os.O_RDWR)
        try:
            if data:
                self.write_handle(path, fh, data, 0)
        finally:
            self.close(path, fh)

    def write_handle(self, path, fh, data, offset):
        if self.call('write', path, data, offset, fh) != len(data):
            raise Violation('short write', f'{path} {data!r} {offset}')

    def rewrite(self, path, data):
        fh = self.handle(path, os.O_WRONLY | os.O_TRUNC)
        try:
            if data:
                self.write_handle(path, fh, data, 0)
        finally:
            self.close(path, fh)

    def write(self, path, data, offset):
        fh = self.handle(path, os.O_WRONLY)
        try:
            self.write_handle(path, fh, data, offset)
        finally:
            self.close(path, fh)

    def readwrite(self, path, data):
        fh = self.handle(path, os.O_RDWR)
        try:
            before = self.call('read', path, 10000, 0, fh)
            self.write_handle(path, fh, data, 0)
            return before, self.call('read', path, 10000, 0, fh)
        finally:
            self.close(path, fh)

    def tree(self):
        result = {}

        def walk(path, listedMode=None):
            attributes = self.call('getattr', path)
            mode = attributes['st_mode']
            kind = stat.S_IFMT(mode)
            if listedMode and stat.S_IFMT(listedMode) not in (kind, 0):
                raise Violation('type in listing differs', f'{path}: {listedMode:o} != {mode:o}')
            size = None
            if kind == stat.S_IFDIR:
                entries = {}
                for entry in self.call('readdir', path, 0):
                    name, m = (entry, None) if isinstance(entry, str) else entry[:2]
                    if name in entries:
                        raise Violation('name listed twice', f'{path} {name}')
                    entries[name] = m
                if not {'.', '..'} <= set(entries):
                    raise Violation('. or .. not listed', path)
                payload = tuple(sorted(name for name in set(entries) - {'.', '..'} if not name.startswith(HIDDEN)))
            elif kind == stat.S_IFLNK:
                payload = self.call('readlink', path)
            elif kind == stat.S_IFREG:
                size = attributes['st_size']
                fh = self.call('open', path, os.O_RDONLY)
                try:
                    payload = self.call('read', path, 100000, 0, fh)
                finally:
                    self.close(path, fh)
            else:
                payload = b''
            result[path] = (kind, stat.S_IMODE(mode), attributes['st_uid'], attributes['st_gid'],
                            attributes['st_mtime'] / 1e9, size, payload)
            if kind == stat.S_IFDIR:
                for name in payload:
                    walk(view.join(path, name), entries[name])

        walk('/')
        return result


FIELDS = ('type', 'permissions', 'owner', 'group', 'modification time', 'size', 'content')


def compare(want, got, where, start, *, rootAttributes=False, ignore=(), linked=(), tolerance=1e-5):
    """Raises for the first difference between the model tree and a real or mounted tree.

    Returns the differences of attributes of paths in 'linked'."""
    found = []
    for path in sorted(set(want) | set(got)):
        if path not in got:
            raise Violation('path lost', f'{where}: {path} missing, have {sorted(got)}')
        if path not in want:
            raise Violation('path appeared', f'{where}: {path} should not exist')
        a, b = want[path], got[path]
        if path == '/' and not rootAttributes:
            a, b = a[:1] + a[6:], b[:1] + b[6:]
            if a != b:
                raise Violation('listing differs', f'{where}: {path} {b[1]} != {a[1]}')
            continue
        for i, field in enumerate(FIELDS):
            x, y = a[i], b[i]
            if (a[0], field) in ignore or field in ignore:
                continue
            if field == 'permissions' and a[0] == stat.S_IFLNK:
                continue
            if field == 'modification time':
                if x is None:
                    if a[0] != stat.S_IFDIR and y < start - 2:
                        if path in linked:
                            found.append(f'{where}: {field} of {path} is old')
                            continue
                        raise Violation('modification time differs', f'{where}: {path} is old: {y}')
                    continue
                if abs(x - y) > tolerance:
                    if path in linked:
                        found.append(f'{where}: {field} of {path} {y!r} != {x!r}')
                        continue
                    raise Violation('modification time differs', f'{where}: {path} {y} != {x}')
            elif x != y:
                if path in linked and field in FIELDS[1:4]:
                    found.append(f'{where}: {field} of {path} {y!r} != {x!r}')
                    continue
                what = 'listing' if field == 'content' and a[0] == stat.S_IFDIR else field
                raise Violation(f'{what} differs', f'{where}: {path} {y!r} != {x!r}')
    return found


def archive_model():
    """The tree inside the archive that all overlay histories start with."""
    model = Model()
    model.add('/a', Node(stat.S_IFREG, 0o640, 1000, 1001, 1234567890, b'content of a'))
    model.add('/d', Node(stat.S_IFDIR, 0o751, 1000, 1001, 1234567891))
    model.add('/d/b', Node(stat.S_IFREG, 0o755, 1002, 1003, 1234567892, b'b inside of d'))
    model.add('/d/e', Node(stat.S_IFDIR, 0o700, 1000, 1001, 1234567893))
    model.add('/l', Node(stat.S_IFLNK, 0o777, 1000, 1001, 1234567894, link='a'))
    for path in model.tree():
        model.node(path).archived = True
    return model


def archive_bytes(model, prefix=b''):
    from .tarwriter import Member, write_tar
    members = []
    for path, (kind, mode, uid, gid, mtime, size, payload) in model.tree().items():
        if path == '/':
            continue
        name = prefix + path[1:].encode(errors='surrogateescape')
        common = {'mode': mode, 'uid': uid, 'gid': gid, 'mtime': mtime}
        if kind == stat.S_IFDIR:
            members.append(Member(name + b'/', 'dir', **common))
        elif kind == stat.S_IFLNK:
            members.append(Member(name, 'sym', link=payload.encode(), **common))
        else:
            members.append(Member(name, 'file', payload, **common))
    return write_tar(members)


@contextlib.contextmanager
def overlay_mount(folder, archive, overlay, **options):
    from ratarmount.FuseMount import FuseMount
    mountPoint = os.path.join(folder, 'mnt')
    os.makedirs(mountPoint, exist_ok=True)
    options.setdefault('indexFilePath', ':memory:')
    old = os.umask(0)  # As mfusepy processes usually run; the kernel applies the umask of the calling process.
    sync, os.fsync = os.fsync, lambda fd: None  # Only speed, there are no power losses here.
    mount = FuseMount([archive], mountPoint, writeOverlay=overlay, **options)
    if mount.writeOverlay and hasattr(mount.writeOverlay, 'sqlConnection'):
        mount.writeOverlay.sqlConnection.execute('PRAGMA synchronous = OFF')
    try:
        yield mount
    finally:
        os.umask(old)
        os.fsync = sync
        for _, opened in mount.openedFiles.values():
            with contextlib.suppress(Exception):
                os.close(opened) if isinstance(opened, int) else opened.close()
        mount.openedFiles.clear()
        mount._close()
        if mount.writeOverlay:
            with contextlib.suppress(Exception):
                mount.writeOverlay.sqlConnection.close()


OPERATIONS = [
    ('write', '/a', b'XY', 3), ('write', '/d/b', b'Q', 20), ('write', '/n', b'w', 2), ('write', '/l', b'via', 0),
    ('readwrite', '/a', b'RW'), ('readwrite', '/d/b', b'RW'),
    ('put', '/a', b'new a'), ('put', '/a', b''), ('put', '/d/b', b'nb'), ('put', '/n', b'new'), ('put', '/d/n', b'dn'),
    ('create', '/n'), ('create', '/d/e/n'), ('create', '/a'),
    ('truncate', '/a', 0), ('truncate', '/a', 4), ('truncate', '/a', 20), ('truncate', '/d/b', 2), ('truncate', '/n', 2),
    ('unlink', '/a'), ('unlink', '/d/b'), ('unlink', '/n'), ('unlink', '/l'), ('unlink', '/d/n'), ('unlink', '/d'),
    ('mkdir', '/n'), ('mkdir', '/d/e/n'), ('mkdir', '/d'), ('mkdir', '/a'),
    ('rmdir', '/d'), ('rmdir', '/d/e'), ('rmdir', '/n'), ('rmdir', '/d/e/n'),
    ('rename', '/a', '/n'), ('rename', '/n', '/a'), ('rename', '/a', '/d/n'), ('rename', '/d/b', '/a'), ('rename', '/d/b', '/n'),
    ('rename', '/n', '/d/b'), ('rename', '/d', '/n'), ('rename', '/n', '/d'), ('rename', '/d/e', '/n'), ('rename', '/l', '/n'),
    ('rename', '/a', '/l'), ('rename', '/d/e', '/d/n'),
    ('symlink', '/n', 'd/b'), ('symlink', '/d/n', '../a'), ('symlink', '/a', 'x'),
    ('link', '/a', '/n'), ('link', '/n', '/d/n'), ('link', '/l', '/n'),
    ('chmod', '/a', 0o600), ('chmod', '/d', 0o700), ('chmod', '/n', 0o444), ('chmod', '/d/b', 0o4711), ('chmod', '/d/b', 0),
    ('chown', '/a', 5, 6), ('chown', '/d', -1, 7), ('chown', '/n', 8, -1), ('chown', '/l', 5, 6), ('chown', '/d/b', 0, 0),
    ('utimens', '/a', 1000000000.25), ('utimens', '/d', 1000000001), ('utimens', '/n', 1000000002), ('utimens', '/l', 1000000003), ('utimens', '/d/b', 0),
    ('mknod', '/n'), ('mknod', '/d/n', stat.S_IFREG | 0o600),
]
