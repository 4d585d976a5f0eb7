"""Observing a mount source completely, and comparing with a reference tree."""
import posixpath
import stat

from .core import Violation
from . import tarwriter


def join(folder, name):
    return ('' if folder == '/' else folder) + '/' + name


def names_of(listing):
    return None if listing is None else sorted(listing)


def read_all(source, info):
    with source.open(info) as f:
        return f.read()


def xattrs_of(source, info):
    return {key: source.get_xattr(info, key) for key in source.list_xattr(info)}


def describe(source, info, content=True, xattrs=True):
    """One version of one path as a comparable tuple."""
    kind = stat.S_IFMT(info.mode)
    data = None
    if content and kind == stat.S_IFREG:
        data = read_all(source, info)
    return (kind, stat.S_IMODE(info.mode), info.uid, info.gid, info.mtime, info.size, info.linkname, data,
            tuple(sorted(xattrs_of(source, info).items())) if xattrs else ())


def snapshot(source, root='/', versions=True, content=True, xattrs=True, maxEntries=5000, rootAttributes=False):
    """Everything observable: path -> tuple of versions, oldest first. The root's attributes are left out."""
    result = {}
    folders = [root]
    seen = 0
    while folders:
        folder = folders.pop()
        listing = source.list(folder)
        for name in sorted(listing or []):
            seen += 1
            if seen > maxEntries:
                raise Violation('endless tree', f'more than {maxEntries} entries below {root}')
            path = join(folder, name)
            newest = source.lookup(path)
            if newest is None:
                raise Violation('listed entry can not be looked up', path)
            n = source.versions(path) if versions else 1
            entries = []
            for version in range(1, n + 1):
                info = source.lookup(path, version) if versions else newest
                if info is None:
                    raise Violation('version missing', f'{path} version {version} of {n}')
                entries.append(describe(source, info, content, xattrs))
            if not entries:
                raise Violation('listed entry has no versions', path)
            result[path] = tuple(entries)
            if stat.S_ISDIR(newest.mode):
                folders.append(path)
    return result


def diff(a, b, nameA='got', nameB='expected'):
    """Human readable first difference of two snapshots or None."""
    for path in sorted(set(a) | set(b)):
        if path not in a:
            return f'{path!r} missing in {nameA} (has {sorted(a)[:20]})'
        if path not in b:
            return f'{path!r} only in {nameA}: {short(a[path])}'
        if a[path] != b[path]:
            return f'{path!r}: {nameA} {short(a[path])} != {nameB} {short(b[path])}'
    return None


def short(value):
    text = repr(value)
    return text if len(text) < 400 else text[:250] + '...' + text[-120:]


def check_entry(source, info, entry, where, *, content=True, mtimeStep=1, hardRaw=False, permMask=0o7777):
    """Compares a FileInfo with an expected tarwriter.Entry."""
    kind = stat.S_IFMT(info.mode)
    if entry.hard is not None and hardRaw:
        if info.linkname != entry.link:
            raise Violation('hard link target differs', f'{where}: {info.linkname!r} != {entry.link!r}')
    else:
        if kind != entry.kind:
            raise Violation('type differs', f'{where}: {kind:o} != {entry.kind:o}')
        if entry.kind == stat.S_IFLNK and info.linkname != entry.link:
            raise Violation('symbolic link target differs', f'{where}: {info.linkname!r} != {entry.link!r}')
    for name, got, want in (('permissions', stat.S_IMODE(info.mode), entry.perm), ('uid', info.uid, entry.uid),
                            ('gid', info.gid, entry.gid)):
        if name == 'permissions' and want is not None:
            got, want = got & permMask, want & permMask
        if want is not None and got != want:
            raise Violation(f'{name} differ', f'{where}: {got:o} != {want:o}' if name == 'permissions' else
                            f'{where}: {got} != {want}')
    if entry.mtime is not None and abs(info.mtime - entry.mtime) >= (1e-6 if mtimeStep == 1 else mtimeStep):
        raise Violation('modification time differs', f'{where}: {info.mtime} != {entry.mtime}')
    if kind == stat.S_IFREG and entry.data is not None:
        if info.size != len(entry.data):
            raise Violation('size differs', f'{where}: {info.size} != {len(entry.data)}')
        if content:
            data = read_all(source, info)
            if data != entry.data:
                raise Violation('content differs', f'{where}: {short(data)} != {short(entry.data)}')
            if entry.data:
                middle = len(entry.data) // 2
                part = source.read(info, len(entry.data), middle)
                if part != entry.data[middle:]:
                    raise Violation('positioned read differs', f'{where}: {short(part)} != {short(entry.data[middle:])}')
    if entry.xattrs is not None:
        got = xattrs_of(source, info)
        if got != entry.xattrs:
            raise Violation('extended attributes differ', f'{where}: {got} != {entry.xattrs}')


def expected_listing(tree, folder):
    prefix = '/' if folder == '/' else folder + '/'
    return sorted({p[len(prefix):].split('/')[0] for p in tree if p.startswith(prefix) and p != folder})


def check_tree(source, tree, *, where='', absent=(), hardRaw=False, versions=True, mtimeStep=1, prefix='', content=True,
               count=None, permMask=0o7777):
    """The source shows exactly this tree (path -> list of entries, oldest first) below prefix."""
    shown = tarwriter.visible(tree)
    for path in shown:
        entries = tree[path]
        at = f'{where} {path!r}'
        info = source.lookup(prefix + path)
        if info is None:
            raise Violation('member lost', at)
        check_entry(source, info, entries[-1], at, hardRaw=hardRaw, mtimeStep=mtimeStep, content=content,
                    permMask=permMask)
        if versions:
            n = source.versions(prefix + path)
            if n != len(entries):
                raise Violation('version count differs', f'{at}: {n} != {len(entries)}')
            for i, entry in enumerate(entries):
                for number in {i + 1, i + 1 - len(entries)} if len(entries) < 50 else {i + 1}:
                    info = source.lookup(prefix + path, number)
                    if info is None:
                        raise Violation('older version lost', f'{at} version {number}')
                    check_entry(source, info, entry, f'{at} version {number}', hardRaw=hardRaw, mtimeStep=mtimeStep,
                                content=content, permMask=permMask)
            if source.lookup(prefix + path, len(entries) + 1) is not None:
                raise Violation('invented version', f'{at} version {len(entries) + 1}')
        if count:
            count('checked_entries', len(entries))
    children = {}
    for path in tree:
        children.setdefault(posixpath.dirname(path), set()).add(posixpath.basename(path))
    for folder in ['/'] + [p for p in shown if tree[p][-1].kind == stat.S_IFDIR]:
        want = sorted(children.get(folder, ()))
        inside = prefix + folder if folder != '/' or not prefix else prefix
        got = names_of(source.list(inside)) or []
        if got != want:
            raise Violation('listing differs', f'{where} {folder!r}: {got} != {want}')
        modes = source.list_mode(inside)
        if (names_of(modes) or []) != want:
            raise Violation('type listing differs', f'{where} {folder!r}: {names_of(modes)} != {want}')
        for name in want:
            entry = tree[join(folder, name)][-1]
            if entry.hard is not None and hardRaw:
                continue
            if isinstance(modes, dict) and stat.S_IFMT(modes[name]) != entry.kind:
                raise Violation('type in listing differs', f'{where} {join(folder, name)!r}: {modes[name]:o} != '
                                f'{entry.kind:o}')
    for path in absent:
        if path in tree:
            continue
        if source.lookup(prefix + path) is not None or source.exists(prefix + path) or (
                versions and source.versions(prefix + path)):
            raise Violation('invented entry', f'{where} {path!r}')
