"""P13: recursive mounting shows nested archives faithfully, eagerly or lazily."""
import bz2
import functools
import itertools
import lzma
import os
import posixpath
import re
import stat
import tempfile
import zlib

import zstandard

from . import archives, tarwriter, view
from .archives import FORMATS, D, F, S, Unsupported, compress
from .core import Violation, rmtree

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'What a mount of a single archive without recursion shows is decided by P01 and P03. Here, such mounts are composed to the expected tree.',
    'A compression around a TAR counts as one level of recursion, as documented by the existing tests.',
    'The extension alone decides whether mounting is tried. A file that can not be mounted stays a file.',
    'Stripped or renamed mount points that collide with other entries are documented to be undefined and are not explored.',
    'Attributes that stem from the file on disk (single compressed files) are not compared.',
    'Lazy mounting may show archives as files in listings of types before the archive has been accessed.',
]
INFINITE = 99
COMPRESSED_TAR = re.compile(r'\.(tar\.(gz|bz2|xz|zst)|tgz|tbz2|txz|tzst)$', re.I)
ARCHIVES = ('tar', 'zip', 'ar', 'asar', 'sqlar', 'squashfs', '7z', 'cpio', 'iso', 'xar', 'rar', 'ext4', 'img', 'tgz', 'gz', 'bz2', 'xz', 'zst', 'zz', 'lz4', 'fat')


def triggers(name, rules=None):
    """Own statement of the extension rules."""
    extension = name.lower().rsplit('.', 1)
    if rules == 'none':
        return False
    if rules == 'all':
        return len(extension) == 2
    if rules == 'nozip' and extension[-1] == 'zip':
        return False
    if rules == 'zip':
        return len(extension) == 2 and extension[1] == 'zip'
    return len(extension) == 2 and extension[1] in ARCHIVES


RULES = {'none': ['.none'], 'all': ['*'], 'nozip': ['/archive', '/compressed', '/disk', '.zip/-'], 'zip': ['.zip']}


def stripped(name, rules):
    """The longest recognised suffix is removed, but never the whole name."""
    rest = name[:-len(COMPRESSED_TAR.search(name).group())] if COMPRESSED_TAR.search(name) else ''
    if not rest:
        rest = name.rsplit('.', 1)[0] if triggers(name, rules) else name
    return rest


def options_of(depth, **extra):
    return {'indexFilePath': ':memory:', 'writeIndex': False, **extra, **({'recursive': True} if depth == INFINITE else {'recursionDepth': depth})}


def relaxed(versions):
    """Without what stems from the host file."""
    return tuple((v[0], None, None, None, None, v[5], v[6], v[7], ()) for v in versions)


@functools.lru_cache(4096)
def compressed_tar(data):
    # Possible garbage after the first part is of no importance.
    for magic, undo in ((b'\x1f\x8b', lambda d: zlib.decompressobj(31).decompress(d)), (b'BZh', lambda d: bz2.BZ2Decompressor().decompress(d)), (b'\xfd7zXZ', lambda d: lzma.LZMADecompressor().decompress(d)),
                        (b'\x28\xb5\x2f\xfd', lambda d: zstandard.ZstdDecompressor().stream_reader(d, read_across_frames=True).read())):
        if data.startswith(magic):
            return undo(data)[257:262] == b'ustar'
    return False


@functools.lru_cache(4096)
def alone(data, name, depth):
    """Tree of the archive mounted alone, or None. Second result: levels that were used up."""
    from ratarmountcore.mountsource.factory import open_mount_source
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, name)
        with open(path, 'wb') as f:
            f.write(data)
        used = 1 if depth and compressed_tar(data) else 0
        try:
            source = open_mount_source(path, recursionDepth=used, indexFilePath=':memory:', writeIndex=False)
        except Exception:
            return None, 0
        with source:
            tree = view.snapshot(source)
        single = re.search(r'\.(tgz|gz|bz2|xz|zst|zz|lz4)$', name, re.I) and len(tree) == 1
        if single:
            tree = {p: relaxed(v) for p, v in tree.items()}
        return tree, used
    finally:
        rmtree(folder)


@functools.lru_cache(4096)
def alone_resolved(data, name, depth):
    """The same through the layer that resolves hard links, only kinds and contents."""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    from ratarmountcore.mountsource.factory import open_mount_source
    folder = tempfile.mkdtemp()
    try:
        path = os.path.join(folder, name)
        with open(path, 'wb') as f:
            f.write(data)
        source = open_mount_source(path, recursionDepth=1 if depth and compressed_tar(data) else 0, indexFilePath=':memory:', writeIndex=False)
        with source:
            return resolved_view(FileVersionLayer(source))
    finally:
        rmtree(folder)


def resolved_view(source):
    result = {}
    folders = ['/']
    while folders:
        folder = folders.pop()
        for name in source.list(folder) or ():
            path = view.join(folder, name)
            info = source.lookup(path)
            if info is None:
                result[path] = None
                continue
            kind = stat.S_IFMT(info.mode)
            result[path] = (kind, info.linkname if kind == stat.S_IFLNK else '', view.read_all(source, info) if kind == stat.S_IFREG else None)
            if kind == stat.S_IFDIR:
                folders.append(path)
    return result


def folder_entry(entry):
    """The folder for an archive file has its owner and time, and can be entered by those who can read the file."""
    perm = entry[1]
    if perm is not None:
        perm |= (perm & 0o444) >> 2
    return (stat.S_IFDIR, perm, entry[2], entry[3], entry[4], entry[5], '', None, ())


def compose(tree, resolved, depth, naming, rules, prefix=''):
    """Adds the contents of nested archives to the tree. Yields (path, versions)."""
    result = dict(tree)
    plain = dict(resolved)
    if depth <= 0:
        return result, plain
    for path in sorted(tree):
        entry = tree[path][-1]
        name = posixpath.basename(path)
        if entry[0] != stat.S_IFREG or not triggers(name, rules) or entry[7] is None or entry[6]:
            continue
        if any(tree[p][-1][0] != stat.S_IFDIR for p in parents(path) if p in tree):
            continue
        inner, used = alone(entry[7], name, depth - 1)
        if inner is None:
            continue
        inner, innerPlain = compose(inner, alone_resolved(entry[7], name, depth - 1), depth - 1 - used, naming, rules)
        point = posixpath.join(posixpath.dirname(path), NAMINGS[naming][1](name, rules))
        shown = result[path] + (folder_entry(entry),) if point == path else (folder_entry(entry),)
        assert point == path or point not in tree, 'collision'
        result[point] = shown
        plain[point] = (stat.S_IFDIR, '', None)
        for p, v in inner.items():
            result[point + p] = v
        for p, v in innerPlain.items():
            plain[point + p] = v
    return result, plain


def parents(path):
    while (path := posixpath.dirname(path)) != '/':
        yield path


NAMINGS = {
    'plain': ({}, lambda name, rules: name),
    'strip': ({'stripRecursiveTarExtension': True}, stripped),
    'suffix': ({'transformRecursiveMountPoint': ('$', '.d')}, lambda name, rules: name + '.d'),
    'dots': ({'transformRecursiveMountPoint': (r'[.]([^./]*)$', r'_\1')}, lambda name, rules: re.sub(r'[.]([^./]*)$', r'_\1', name)),
    'both': ({'stripRecursiveTarExtension': True, 'transformRecursiveMountPoint': ('$', '!')}, lambda name, rules: stripped(name, rules) + '!'),
}


def masked(tree, want):
    """Leaves out from the tree what is not known from the expected one."""
    result = {}
    for path, versions in tree.items():
        if path in want and len(want[path]) == len(versions):
            # The targets of hard links are relative to something else. What they resolve to is compared elsewhere.
            versions = tuple(v[:6] + (w[6],) + v[7:] if v[0] == 0 == w[0] else v for v, w in zip(versions, want[path]))
            versions = tuple(tuple(None if w is None and n in (1, 2, 3, 4) else () if n == 8 and w == () and e[1] is None else g
                                   for n, (g, w) in enumerate(zip(v, e))) for v, e in zip(versions, want[path]))
            # The sizes of folders are of no importance.
            versions = tuple(v[:5] + (e[5],) + v[6:] if v[0] == stat.S_IFDIR == e[0] else v for v, e in zip(versions, want[path]))
        result[path] = versions
    return result


@functools.lru_cache(1024)
def built(kind, items):
    """(extension, bytes) of an archive of this kind with these items"""
    if kind.startswith('single'):
        if len(items) != 1 or items[0].kind != 'file':
            raise Unsupported
        how = kind[7:]
        return archives.COMPRESSION_EXTENSION[how], compress(items[0].data, how)
    if kind == 'hardlinks':
        members = [tarwriter.Member(i.path.encode(), 'file', i.data, uid=1000, gid=1001) for i in items if i.kind == 'file']
        if not members:
            raise Unsupported
        members.append(tarwriter.Member(b'hard', 'hard', link=members[0].name))
        members.append(tarwriter.Member(b'sub/hard', 'hard', link=members[-2].name))
        return '.tar', tarwriter.write_tar(members)
    if kind == 'sparse':
        members = []
        for i in items:
            if i.kind == 'file':
                data = i.data + b'\0' * (-len(i.data) % 512)
                content = data + b'\0' * 4096 + b'end' + b'\0' * 509
                members.append(tarwriter.Member(i.path.encode(), 'sparse', content, dialect='pax', sparse='1.0',
                                                holes=((0, len(data)), (len(data) + 4096, 512)) if data else ((4096, 512),)))
        return '.tar', tarwriter.write_tar(members)
    if kind == 'pax':
        return '.tar', tarwriter.write_tar([tarwriter.Member(i.path.encode(), 'file', i.data, dialect='pax', xattrs=((b'user.k', i.path.encode()),))
                                            for i in items if i.kind == 'file'])
    folder = tempfile.mkdtemp()
    # Libraries are not searched for in nested archives.
    extension = FORMATS[kind].extension if kind != 'ar' else '.ar'
    try:
        path = os.path.join(folder, 'x' + extension)
        if kind in FLAT:
            items = tuple(F(i.path.replace('/', '-'), i.data, i.mode) for i in items if i.kind == 'file')
        FORMATS[kind].build(items, path)
        with open(path, 'rb') as f:
            return extension, f.read()
    finally:
        rmtree(folder)


FLAT = ('ar', 'ar-bsd', 'fat')
INNER = ['tar', 'tar-gnu', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip-deflate', 'ar', 'asar', 'sqlar', 'squashfs', '7z', 'cpio', 'iso', 'xar', 'ext4',
         'single-gz', 'single-bz2', 'single-xz', 'single-zst', 'hardlinks', 'sparse', 'pax']
OUTER = ['folder', 'union', *[k for k in INNER if not k.startswith('single') and k not in ('hardlinks', 'pax')]]


def open_outer(kind, items, folder, **options):
    """Returns (source, path or None)"""
    from ratarmountcore.mountsource.compositing.union import UnionMountSource
    from ratarmountcore.mountsource.factory import open_mount_source
    if kind == 'folder':
        path = os.path.join(folder, 'folder')
        if not os.path.exists(path):
            archives.write_folder(archives.unique(items), path)
        return open_mount_source(path, **options)
    if kind == 'union':
        sources = []
        for n, part in enumerate((items[::2], items[1::2])):
            path = os.path.join(folder, f'part{n}.tar')
            if not os.path.exists(path):
                with open(path, 'wb') as f:
                    f.write(built('tar', tuple(part))[1])
            sources.append(open_mount_source(path, **options))
        return UnionMountSource(sources, **options)
    extension, data = built(kind, tuple(items))
    path = os.path.join(folder, 'outer' + extension)
    if not os.path.exists(path):
        with open(path, 'wb') as f:
            f.write(data)
    return open_mount_source(path, **options)


def automount(source, **options):
    from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
    return AutoMountLayer(source, **options)


def base_of(kind, items, folder, depth):
    """Snapshots without recursion, and the remaining levels"""
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    used = 1 if depth and kind.startswith('tar.') else 0
    with open_outer(kind, items, folder, recursionDepth=used, indexFilePath=':memory:', writeIndex=False) as source:
        return view.snapshot(source), resolved_view(FileVersionLayer(source)), depth - used


def verify(kind, items, depth, naming, rules, lazy, folder, where, accesses=(), writeIndex=False):
    from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
    tree, plain, levels = base_of(kind, items, folder, depth)
    want, wantPlain = compose(tree, plain, levels, naming, rules)
    extra = dict(NAMINGS[naming][0], lazyMounting=lazy)
    if rules:
        extra['recursiveExtensions'] = RULES[rules]
    if writeIndex:
        extra.update(indexFilePath=None, indexFolders=[os.path.join(folder, 'indexes')], writeIndex=True, indexMinimumFileCount=0)
    options = options_of(depth, **extra)
    outer = open_outer(kind, items, folder, **options)
    with automount(outer, **options) as source:
        for access, path in accesses:
            perform(source, access, path)
        if lazy:
            # Archives with another mount point appear only after they have been accessed.
            before = None
            while before != (before := sorted(view.snapshot(source, versions=False, content=False, xattrs=False))):
                pass
        got = view.snapshot(source)
        problem = view.diff(masked(got, want), want)
        if problem:
            raise Violation('wrong tree', f'{where}: {problem}')
        for path, versions in want.items():
            n = len(versions)
            if source.lookup(path, n + 1) is not None:
                raise Violation('invented version', f'{where}: {path!r} version {n + 1}')
            newest = source.lookup(path)
            if stat.S_IFMT(newest.mode) != versions[-1][0]:
                raise Violation('newest version has the wrong type', f'{where}: {path!r}')
            if versions[-1][0] == stat.S_IFDIR:
                listing, modes = source.list(path) or {}, source.list_mode(path) or {}
                names = sorted({p[len(path) + 1:].split('/')[0] for p in want if p.startswith(path + '/')})
                if sorted(listing) != names or sorted(modes) != names:
                    raise Violation('wrong listing', f'{where}: {path!r} {sorted(listing)} {sorted(modes)} != {names}')
                for name in names:
                    kindOf = want[path + '/' + name][-1][0]
                    for what in (modes.get(name) if isinstance(modes, dict) else None, listing[name].mode if isinstance(listing, dict) else None):
                        if what is not None and stat.S_IFMT(what) != kindOf:
                            raise Violation('wrong type in listing', f'{where}: {path!r}/{name}: {what:o}')
        for path in [p + q for p in want for q in ('/missing', 'x')]:
            if path not in want and (source.lookup(path) is not None or source.exists(path)):
                raise Violation('invented entry', f'{where}: {path!r}')
        gotPlain = resolved_view(FileVersionLayer(source))
        if gotPlain != wantPlain:
            differing = [p for p in sorted({*gotPlain, *wantPlain}) if gotPlain.get(p, 0) != wantPlain.get(p, 0)]
            raise Violation('links resolved differently', f'{where}: {differing[0]!r}: {view.short(gotPlain.get(differing[0], "absent"))} != {view.short(wantPlain.get(differing[0], "absent"))}')
        return len(want), got


def perform(source, access, path):
    if access == 'list':
        source.list(path)
    elif access == 'modes':
        source.list_mode(path)
    elif access == 'versions':
        source.versions(path)
    elif access == 'first':
        source.lookup(path, 1)
    else:
        info = source.lookup(path)
        if access == 'read' and info is not None and stat.S_ISREG(info.mode):
            view.read_all(source, info)


def finish(ctx, case, entries):
    ctx.count('transitions', entries)
    ctx.count('traces')
    ctx.state(case)


# ---- nestings --------------------------------------------------------------------------------------------------------

LEAVES = (F('a', b'inner a', 0o600), D('d', 0o711), F('d/b', archives.pattern(3000, 7), 0o640, 1234567892))


def nest(outer, chain):
    """Items of the archive with the given kinds of nested archives, outermost first"""
    items = LEAVES
    for n, kind in enumerate(reversed(chain)):
        if kind.endswith('zst') and (outer != 'folder' or n < len(chain) - 1):
            # The Zstandard backend needs a file on disk.
            raise Unsupported
        if kind.startswith('single'):
            extension, data = built(kind, (F('x', archives.pattern(5000, n)),))
            if items is not LEAVES:
                # Compress the archive below
                inner = items[-1]
                extension = posixpath.splitext(inner.path)[1] + extension
                data = compress(inner.data, kind[7:])
        else:
            extension, data = built(kind, tuple(items))
        items = (F(f'f{n}', b'beside %d' % n), F(f'n{n}' + extension, data, 0o640, 1234567896))
    return items


def run_nesting(ctx, case):
    outer, chain, depth, naming, lazy = case
    folder = ctx.tmpdir()
    try:
        try:
            items = nest(outer, chain)
            if outer == 'sparse' and ('single' in chain[0] or '.' in chain[0]):
                # The padding would be garbage after the compressed data.
                raise Unsupported
            if outer in FLAT or outer == 'sparse':
                items = tuple(i for i in items if i.kind == 'file')
            entries, _ = verify(outer, items, depth, naming, None, lazy, folder, str(case))
        except Unsupported:
            ctx.count('unsupported')
            return
        finish(ctx, case, entries)
        ctx.sample({'outer': outer, 'nested': chain, 'depth': depth, 'naming': naming, 'lazy': lazy, 'entries': entries})
    finally:
        rmtree(folder)


# ---- sets of members -------------------------------------------------------------------------------------------------

@functools.lru_cache(1)
def pool():
    small, other = (F('x', b'small'), F('a', b'same name')), (F('y', b'other'), F('x', b'newer x'))
    tar, tar2, zip_, gz = built('tar', small)[1], built('tar', other)[1], built('zip', small)[1], compress(b'just text', 'gz')
    deep = built('tar', (F('t.tar', tar), F('z.zip', zip_)))[1]
    return {
        'tar': F('a.tar', tar), 'tar2': F('a.tar', tar2, 0o400), 'upper': F('B.TAR', tar2), 'zip': F('b.zip', zip_, 0o644, 1234567898),
        'wrong-name': F('c.txt', tar), 'text': F('d.tar', b'this is no archive' * 100), 'empty': F('e.tar', b''), 'tar-as-zip': F('f.zip', tar),
        'dir': D('g.tar'), 'in-dir': F('g.tar/x', b'x'), 'sub': F('d/h.tar', tar), 'sub-zip': F('d/e/i.zip', zip_), 'gz': F('j.txt.gz', gz),
        'link': S('k.tar', 'a.tar'), 'deep': F('l.tar', deep), 'deep2': F('d/l2.tar', deep), 'hidden': F('.tar', tar), 'dots': F('m.tar.tar', tar2),
        'file': F('a', b'plain'), 'zeros': F('n.tar', b'\0' * 10240), 'half': F('o.tar', tar[:700]), 'tgz': F('p.tgz', compress(tar, 'gz')),
        'as-file': F('a.tar', b'now text'), 'space': F('q r%20.tar', tar), 'unicode': F('\u00fc.tar', tar), 'long': F('s' * 120 + '.tar', tar),
    }


# Stripped mount points collide for these.
COLLIDING = {'strip': ({'tar', 'file'}, {'tar2', 'file'}, {'as-file', 'file'})}


def run_members(ctx, case):
    outer, names, depth, naming, rules, lazy = case
    if outer in ('folder', 'union') and 'link' in names and {'tar', 'tar2', 'as-file'} & set(names):
        # Symbolic links to archives on disk are followed.
        ctx.count('unsupported')
        return
    folder = ctx.tmpdir()
    try:
        try:
            entries, _ = verify(outer, tuple(pool()[n] for n in names), depth, naming, rules, lazy, folder, str(case))
        except Unsupported:
            ctx.count('unsupported')
            return
        finish(ctx, case, entries)
        ctx.sample({'outer': outer, 'members': names, 'depth': depth, 'naming': naming, 'extensions': rules, 'lazy': lazy})
    finally:
        rmtree(folder)


# ---- orders of access ------------------------------------------------------------------------------------------------

ACCESSED = ['/', '/a.tar', '/a.tar/x', '/l.tar', '/l.tar/t.tar/x', '/l.tar/z.zip', '/b.zip/missing', '/d/l2.tar/t.tar', '/d']


def run_order(ctx, case):
    outer, accesses, depth, naming = case
    folder = ctx.tmpdir()
    try:
        items = tuple(pool()[n] for n in ('tar', 'deep', 'zip', 'deep2', 'text'))
        entries, _ = verify(outer, items, depth, naming, None, True, folder, str(case), accesses)
        finish(ctx, case, entries)
    finally:
        rmtree(folder)


def run_indexes(ctx, case):
    outer, names, depth, naming, lazy = case
    folder = ctx.tmpdir()
    try:
        os.mkdir(os.path.join(folder, 'indexes'))
        for attempt in range(2):
            entries, _ = verify(outer, tuple(pool()[n] for n in names), depth, naming, None, lazy, folder, f'{case}, mount {attempt + 1}', writeIndex=True)
        finish(ctx, case, entries)
    except Unsupported:
        ctx.count('unsupported')
    finally:
        rmtree(folder)


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    few = ['tar', 'zip', 'tar.gz', 'single-gz']
    for outer in OUTER:
        chains = [(k,) for k in INNER] + [(a, b) for a in (INNER if thorough or outer in ('tar', 'folder') else few) for b in (INNER if thorough else few)]
        if thorough or outer in ('tar', 'zip'):
            chains += itertools.product(few, repeat=3)
        for chain in chains:
            for depth in [*range(len(chain) + 3), INFINITE] if thorough or outer in ('tar', 'zip', 'folder') and len(chain) == 1 else [len(chain), INFINITE] if len(chain) < 3 else [2, INFINITE]:
                for naming in NAMINGS if thorough and len(chain) < 3 else ('plain', 'strip') if depth == INFINITE and len(chain) < 2 else ('plain',):
                    for lazy in (False, True) if thorough or len(chain) == 1 and depth == INFINITE else (len(cases) % 2 == 1,):
                        cases.append((outer, chain, depth, naming, lazy))
    yield cases, run_nesting, {'limit': 120}
    cases = []
    for outer in ('tar', 'zip', 'folder', 'tar.gz', 'union', 'squashfs') if thorough else ('tar', 'folder', 'zip'):
        for n in (1, 2, 3) if thorough or outer == 'tar' else (1, 2):
            for names in itertools.permutations(sorted({*pool()} - ({'zeros'} if outer.startswith('tar') else set())), n) if n < 3 else itertools.permutations(list(pool())[:18] if thorough else ['tar', 'tar2', 'text', 'deep', 'as-file', 'sub'], n):
                for naming in NAMINGS if n == 1 or thorough else ('plain',):
                    if naming in ('strip', 'both') and (len({NAMINGS[naming][1](pool()[m].path, None) for m in names}) < n or 'hidden' in names) or naming == 'strip' and any(c <= set(names) for c in COLLIDING['strip']):
                        continue
                    for rules in (None, *RULES) if n == 1 or thorough and n == 2 else (None,):
                        if rules == 'all' and naming in ('strip', 'both'):
                            continue
                        for depth in (1, 2, INFINITE) if thorough and n < 3 or n == 1 and rules is None else (INFINITE,):
                            for lazy in (False, True) if n < 2 and rules is None or thorough else (len(cases) % 2 == 1,):
                                cases.append((outer, names, depth, naming, rules, lazy))
    yield cases, run_members, {'limit': 120}
    accesses = [(a, p) for p in ACCESSED for a in ('lookup', 'list', 'modes', 'versions', 'first', 'read')]
    cases = []
    for outer in ('tar', 'folder', 'zip') if thorough else ('folder', 'tar'):
        for naming in ('plain', 'strip', 'suffix') if thorough else ('plain', 'strip'):
            for depth in (1, INFINITE):
                for n in (0, 1, 2) if thorough else (0, 1):
                    for sequence in itertools.product(accesses, repeat=n):
                        cases.append((outer, sequence, depth, naming))
                if not thorough:
                    for sequence in itertools.permutations([a for a in accesses if a[0] == 'lookup'], 2):
                        cases.append((outer, sequence, depth, naming))
    yield cases, run_order, {'limit': 120}
    cases = [(outer, names, depth, naming, lazy) for outer in ('folder', 'tar', 'zip', 'tar.gz') for n in (1, 2) for names in itertools.permutations(('tar', 'zip', 'deep', 'tgz', 'gz', 'sub'), n)
             for depth in ((1, INFINITE) if thorough else (INFINITE,)) for naming in (('plain', 'strip') if thorough else ('plain',)) for lazy in (False, True)]
    yield cases, run_indexes, {'limit': 120}
