"""P12: hidden version folders and hard link resolution."""
import itertools
import os
import posixpath
import stat

from . import tarwriter, view
from .archives import pattern
from .core import Violation
from .p01_tar import open_tar, sparse_member
from .tarwriter import Member, expected_tree, write_tar

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'A hard link to another path resolves to the newest version of that path, to its own path to the preceding version.',
    'Cycles of hard links and links without target may be absent or unresolved but must end.',
    'A version number in the middle of a path is ignored because folder versions are merged.',
]

ALPHABET = {
    'Fa1': Member(b'a', 'file', b'first', mode=0o600, mtime=11), 'Fa2': Member(b'a', 'file', b'second', uid=5, mtime=12),
    'Xa': Member(b'a', 'file', b'x', xattrs=((b'user.k', b'v'),), dialect='pax'),
    'Ha': Member(b'a', 'hard', link=b'a'), 'Ha.': Member(b'./a', 'hard', link=b'./a'), 'Hab': Member(b'a', 'hard', link=b'b'),
    'Fb': Member(b'b', 'file', b'bee', gid=9), 'Hba': Member(b'b', 'hard', link=b'a'), 'Hc': Member(b'c', 'hard', link=b'b'),
    'Hd': Member(b'd/h', 'hard', link=b'd/f'), 'Fdf': Member(b'd/f', 'file', b'in d'), 'Hdd': Member(b'd/f', 'hard', link=b'd/f'),
    'Sa': Member(b'a', 'sym', link=b'b'), 'Da': Member(b'a/', 'dir', mode=0o711), 'Fab': Member(b'a/b', 'file', b'a b'),
    'Fav': Member(b'a.versions', 'file', b'real'), 'Dav': Member(b'a.versions/', 'dir'),
    'Fav1': Member(b'a.versions/1', 'file', b'real one'), 'Fav1b': Member(b'a.versions/1/b', 'file', b'real deep'),
    'Fv': Member(b'.versions', 'file', b'dot'), 'Fvv': Member(b'a.versions.versions', 'file', b'twice'),
}


def resolve(tree, path, index):
    """Entry shown for this version, None when there is none, or 'cycle'."""
    seen = set()
    while True:
        if path not in tree or not 0 <= index < len(tree[path]):
            return None
        if (path, index) in seen:
            return 'cycle'
        seen.add((path, index))
        entry = tree[path][index]
        if entry.hard is None:
            return entry
        if entry.hard == path:
            index -= 1
        else:
            path = entry.hard
            entries = tree.get(path, ())
            index = len(entries) - 1
            # There are no hard links to folders. Then, the file is meant that has been there before.
            if index > 0 and entries[-1].kind == stat.S_IFDIR and entries[-2].kind == stat.S_IFREG:
                index -= 1


def decode(tree, path):
    current, version, pending = '', 0, False
    for part in path.strip('/').split('/'):
        if pending:
            if not part.isascii() or not part.isdigit() or part != str(int(part)) or int(part) < 1:
                return None
            version = int(part)
            pending = False
            continue
        if current + '/' + part in tree:
            current += '/' + part
            version = 0
        elif part.endswith('.versions') and part != '.versions' and current + '/' + part[:-9] in tree:
            current += '/' + part[:-9]
            pending = True
            version = 0
        else:
            return None
    return current, pending, version


def queries(tree):
    base = set(tree) | {'/missing', '/a', '/b', '/a/b', '/d/missing', '/.versions'}
    result = set(base)
    for path in base:
        n = len(tree.get(path, ()))
        result.add(path + '.versions')
        for suffix in [str(i) for i in range(0, n + 2)] + ['-1', '01', '+1', 'x', '1 ']:
            result.add(path + '.versions/' + suffix)
        result.add(path + '.versions/1.versions')
        result.add(path + '.versions/1/b')
        result.add(path + '.versions/1/b.versions/1')
        result.add(path + '.versions.versions')
        result.add(path + '.versions.versions/1')
    for path in list(tree):
        parent, name = posixpath.split(path)
        if parent != '/':
            for v in ('1', '2'):
                result.add(f'{parent}.versions/{v}/{name}')
                result.add(f'{parent}.versions/{v}/{name}.versions')
                result.add(f'{parent}.versions/{v}/{name}.versions/1')
    return sorted(result)


def check_layer(ctx, layer, tree, where, content=True):
    for path in queries(tree):
        at = f'{where} query {path!r}'
        decoded = decode(tree, path)
        info = layer.lookup(path)
        ctx.count('transitions')
        if (info is not None) != layer.exists(path):
            raise Violation('exists differs from lookup', at)
        if decoded is None:
            if info is not None:
                raise Violation('invented path', f'{at}: {info}')
            listing = layer.list(path)
            if listing:
                raise Violation('listing of a missing path', f'{at}: {listing}')
            continue
        real, isFolder, version = decoded
        n = len(tree[real])
        if isFolder:
            if info is None or not stat.S_ISDIR(info.mode):
                raise Violation('versions folder missing', f'{at}: {info}')
            for listing in (layer.list(path), layer.list_mode(path)):
                if listing is None or sorted(listing, key=int) != [str(i + 1) for i in range(n)]:
                    raise Violation('versions folder lists wrong versions', f'{at}: {listing} expected {n}')
            if list(layer.list(path)) != [str(i + 1) for i in range(n)]:
                raise Violation('versions folder not in order', at)
            if layer.list_xattr(info) or layer.get_xattr(info, 'user.k') is not None:
                raise Violation('versions folder has attributes', at)
            layer.get_mount_source(info)
            continue
        index = version - 1 if version > 0 else n - 1
        entry = resolve(tree, real, index)
        if entry == 'cycle':
            continue
        if entry is None:
            if info is not None:
                raise Violation('invented version', f'{at}: {info}')
            continue
        if info is None:
            raise Violation('version can not be looked up', at)
        view.check_entry(layer, info, entry, at, content=content)
        _, source, inner = layer.get_mount_source(info)
        if entry.kind == stat.S_IFREG and source.read(inner, 100, 0) != entry.data[:100]:
            raise Violation('get_mount_source leads to another file', at)
        if entry.kind == stat.S_IFDIR:
            want = sorted({posixpath.basename(p) for p in tree if posixpath.dirname(p) == real})
            got = sorted(layer.list(path) or [])
            if got != want:
                raise Violation('listing differs', f'{at}: {got} != {want}')
    want = sorted({posixpath.basename(p) for p in tree if posixpath.dirname(p) == '/'})
    got = layer.list('/')
    if sorted(got or []) != want:
        raise Violation('root listing differs', f'{where}: {got} != {want}')
    for path in tree:
        if layer.versions(path) != len(tree[path]):
            raise Violation('version count differs', f'{where} {path}: {layer.versions(path)} != {len(tree[path])}')


def run_archive(ctx, keys):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    members = [ALPHABET[k] for k in keys]
    path = os.path.join(ctx.scratch, 'a.tar')
    with open(path, 'wb') as f:
        f.write(write_tar(members))
    tree = expected_tree(members)
    with FileVersionLayer(open_tar(path)) as layer:
        check_layer(ctx, layer, tree, str(keys))
    ctx.count('traces')
    ctx.state(keys)
    ctx.sample({'members': keys})


def run_union(ctx, case):
    """Versions through a union of two archives, and with more layers above."""
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    trees = []
    sources = []
    for i, keys in enumerate(case):
        members = [ALPHABET[k] for k in keys]
        path = os.path.join(ctx.scratch, f'u{i}.tar')
        with open(path, 'wb') as f:
            f.write(write_tar(members))
        trees.append(expected_tree(members))
        sources.append(open_tar(path))
    tree = {}
    for t in trees:
        for p, entries in t.items():
            tree.setdefault(p, []).extend(entries)
    with FileVersionLayer(UnionMountSource(sources)) as layer:
        check_layer(ctx, layer, tree, str(case))
    ctx.count('traces')
    ctx.state(case)


def stages(tier):
    thorough = tier == 'thorough'
    keys = list(ALPHABET)
    cases = [k for n in (1, 2, 3) for k in itertools.product(keys, repeat=n)]
    links = ['Fa1', 'Fa2', 'Ha', 'Ha.', 'Fb', 'Hba', 'Hab']
    cases += [k for n in ((4, 5, 6) if thorough else (4,)) for k in itertools.product(links, repeat=n)]
    if thorough:
        cases += [k for k in itertools.product(keys, repeat=4)]
    yield cases, run_archive, {'limit': 60}
    few = ['Fa1', 'Fa2', 'Fb', 'Da', 'Fab', 'Fav', 'Fav1']
    sides = [k for n in (1, 2) for k in itertools.product(few, repeat=n)]
    # Type conflicts between the sources are P11's, so keep each path one kind over both sides.
    kinds = lambda k: {(p, e.kind) for p, es in expected_tree([ALPHABET[x] for x in k]).items() for e in es}
    kind = {k: kinds(k) for k in sides}

    def compatible(a, b):
        names = {}
        for p, t in kind[a] | kind[b]:
            if names.setdefault(p, t) != t:
                return False
        return True

    yield [(a, b) for a in sides for b in sides if compatible(a, b)], run_union, {'limit': 60}
