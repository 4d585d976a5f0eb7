"""A small reference mount source with full control over content, versions, mutability and kind of listing."""
import io
import posixpath
import stat

from ratarmountcore.mountsource import FileInfo, MountSource


def parents_of(path):
    result = []
    path = posixpath.dirname(path)
    while path != '/':
        result.append(path)
        path = posixpath.dirname(path)
    return result


class ModelSource(MountSource):
    """tree: path -> list of versions (kind, data), oldest first. Parents must be listed themselves."""

    def __init__(self, name, tree, *, immutable=True, listing='dict', closed=None):
        self.name = name
        self.tree = tree
        self.immutable = immutable
        self.listing = listing
        self.closed = closed if closed is not None else []

    @staticmethod
    def norm(path):
        return '/' + path.strip('/')

    def entry_versions(self, path):
        path = self.norm(path)
        return [('d', b'')] if path == '/' else self.tree.get(path, [])

    def info(self, path, index):
        index %= len(self.entry_versions(path))
        kind, data = self.entry_versions(path)[index]
        mode = {'d': stat.S_IFDIR | 0o755, 'f': stat.S_IFREG | 0o644, 'l': stat.S_IFLNK | 0o777}[kind]
        return FileInfo(size=len(data) if kind == 'f' else 0, mtime=1000 + index + 10 * len(self.name), mode=mode,
                        linkname=data.decode() if kind == 'l' else '', uid=7, gid=8,
                        userdata=[(self.name, self.norm(path), index)])

    def lookup(self, path, fileVersion=0):
        n = len(self.entry_versions(path))
        index = fileVersion - 1 if fileVersion > 0 else n - 1 + fileVersion
        return self.info(path, index) if 0 <= index < n else None

    def versions(self, path):
        return len(self.entry_versions(path))

    def list(self, path):
        path = self.norm(path)
        if path != '/' and not any(k == 'd' for k, _ in self.entry_versions(path)):
            return None
        names = [p.rsplit('/', 1)[1] for p in self.tree if p != '/' and posixpath.dirname(p) == path and self.tree[p]]
        if self.listing == 'names':
            return names
        return {name: self.info(posixpath.join(path, name), -1) for name in names}

    def token(self, fileInfo):
        name, path, index = fileInfo.userdata[-1]
        assert len(fileInfo.userdata) == 1 and name == self.name, (fileInfo, self.name)
        return path, index

    def open(self, fileInfo, buffering=-1):
        path, index = self.token(fileInfo)
        kind, data = self.entry_versions(path)[index]
        if kind != 'f':
            raise ValueError('not a file')
        return io.BytesIO(data)

    def list_xattr(self, fileInfo):
        path, index = self.token(fileInfo)
        return [f'user.{self.name}'] if path != '/' else []

    def get_xattr(self, fileInfo, key):
        path, index = self.token(fileInfo)
        return f'{path}#{index % max(1, len(self.entry_versions(path)))}'.encode() if key == f'user.{self.name}' else None

    def is_immutable(self):
        return self.immutable

    def __exit__(self, exception_type, exception_value, exception_traceback):
        self.closed.append(self.name)


def complete(tree):
    """Adds missing parent folders."""
    result = dict(tree)
    for path in tree:
        for parent in parents_of(path):
            if not any(k == 'd' for k, _ in result.get(parent, [])):
                result[parent] = result.get(parent, []) + [('d', b'')]
    return result
