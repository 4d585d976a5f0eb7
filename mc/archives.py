"""Builders for small archives of every format that can be written offline, and the trees they must show.

The logical content is a list of Items in storage order. 'expected' folds it into the tree a mount must show for the
given format (what the format cannot store is None = not compared).
"""
import bz2
import contextlib
import ctypes
import dataclasses
import gzip
import io
import json
import lzma
import os
import posixpath
import shutil
import sqlite3
import stat
import struct
import subprocess
import tempfile
import zipfile
import zlib
from typing import Optional

import zstandard

from . import builders, tarwriter
from .tarwriter import Entry, Member, norm


@dataclasses.dataclass(frozen=True)
class Item:
    path: str  # as stored
    kind: str = 'file'  # file, dir, sym
    data: bytes = b''
    link: str = ''
    mode: int = 0o644
    mtime: int = 1234567890


def F(path, data=b'', mode=0o644, mtime=1234567890):
    return Item(path, 'file', data, '', mode, mtime)


def D(path, mode=0o755, mtime=1234567890):
    return Item(path, 'dir', b'', '', mode, mtime)


def S(path, link, mtime=1234567890):
    return Item(path, 'sym', b'', link, 0o777, mtime)


class Unsupported(Exception):
    """The format cannot represent this content."""


def fold(items, *, owner=None, mtimeStep=1, mode=True, mtime=True, versions=True, dirMode=True):
    """Items -> path -> [Entry], parents added. Last one wins; earlier ones are kept when versions."""
    tree = {}
    implied = {}
    kinds = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}
    for n, i in enumerate(items):
        path = norm(i.path)
        entry = Entry(kinds[i.kind], (i.mode if mode and (i.kind == 'file' or i.kind == 'dir' and dirMode) else None),
                      owner[0] if owner else None, owner[1] if owner else None,
                      (i.mtime // mtimeStep * mtimeStep) if mtime else None,
                      len(i.data) if i.kind == 'file' else None, i.link, i.data if i.kind == 'file' else None, order=n)
        if versions:
            tree.setdefault(path, []).append(entry)
        else:
            tree[path] = [entry]
        parent = posixpath.dirname(path)
        while parent != '/':
            implied.setdefault(parent, n)
            parent = posixpath.dirname(parent)
    for path, n in implied.items():
        if not any(e.kind == stat.S_IFDIR for e in tree.get(path, [])):
            tree.setdefault(path, []).append(Entry(stat.S_IFDIR, order=n - 0.5))
            tree[path].sort(key=lambda e: e.order)
    tree.pop('/', None)
    return tree


# ---- compressions ----------------------------------------------------------------------------------------------------


def gzip_members(data, parts=1, name=b''):
    result = b''
    step = max(1, -(-len(data) // parts))
    for i in range(parts):
        buffer = io.BytesIO()
        with gzip.GzipFile(filename=name.decode(), mode='wb', fileobj=buffer, mtime=0) as f:
            f.write(data[i * step:(i + 1) * step])
        result += buffer.getvalue()
    return result


def xz_blocks(data, blockSize, streams=1):
    """Multi-block xz through the xz tool, one or several streams."""
    step = max(1, -(-len(data) // streams))
    result = b''
    for i in range(streams):
        args = ['xz', '-c', '-T1', '-0', '--check=crc32']
        if blockSize:
            args.append(f'--block-size={blockSize}')
        result += subprocess.run(args, input=data[i * step:(i + 1) * step], stdout=subprocess.PIPE, check=True).stdout
    return result


def zstd_frames(data, frameSize):
    compressor = zstandard.ZstdCompressor(level=1, write_content_size=True)
    if not frameSize:
        return compressor.compress(data)
    return b''.join(compressor.compress(data[i:i + frameSize]) for i in range(0, max(1, len(data)), frameSize))


def compress(data, how):
    if how in (None, ''):
        return data
    if how == 'gz':
        return gzip_members(data)
    if how == 'gz2':
        return gzip_members(data, 3)
    if how == 'bz2':
        return bz2.compress(data)
    if how == 'bz2multi':
        step = max(1, len(data) // 3 + 1)
        return b''.join(bz2.compress(data[i:i + step], 1) for i in range(0, max(1, len(data)), step))
    if how == 'xz':
        return lzma.compress(data)
    if how == 'xzblocks':
        return xz_blocks(data, 4096)
    if how == 'zst':
        return zstd_frames(data, 0)
    if how == 'zstframes':
        return zstd_frames(data, 4096)
    if how == 'zlib':
        return zlib.compress(data)
    if how == 'lz4':
        return subprocess.run(['lz4', '-c', '-'], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                              check=True).stdout
    raise AssertionError(how)


COMPRESSION_EXTENSION = {'gz': '.gz', 'gz2': '.gz', 'bz2': '.bz2', 'bz2multi': '.bz2', 'xz': '.xz', 'xzblocks': '.xz',
                         'zst': '.zst', 'zstframes': '.zst', 'zlib': '.zlib', 'lz4': '.lz4', '': '', None: ''}


# ---- formats ---------------------------------------------------------------------------------------------------------


def build_tar(items, dialect='pax'):
    members = []
    for i in items:
        members.append(Member(i.path.encode() + (b'/' if i.kind == 'dir' and not i.path.endswith('/') else b''), i.kind,
                              i.data, i.mode, 1000, 1001, i.mtime, i.link.encode(), dialect=dialect))
    if not all(tarwriter.encodable(member) for member in members):
        raise Unsupported
    return tarwriter.write_tar(members)


def build_zip(items, method=zipfile.ZIP_STORED):
    import warnings
    buffer = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with zipfile.ZipFile(buffer, 'w') as z:
            for i in items:
                import time
                path = i.path + ('/' if i.kind == 'dir' and not i.path.endswith('/') else '')
                info = zipfile.ZipInfo(path, date_time=time.gmtime(i.mtime)[:6])
                info.create_system = 3
                kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[i.kind]
                info.external_attr = (kind | i.mode) << 16 | (0x10 if i.kind == 'dir' else 0)
                info.compress_type = method if i.kind == 'file' else zipfile.ZIP_STORED
                z.writestr(info, i.data if i.kind == 'file' else i.link.encode())
    return buffer.getvalue()


def build_ar(items, style='gnu'):
    """style: gnu (long name table), bsd (#1/ names), plain (16 byte names)"""
    result = b'!<arch>\n'
    longNames = b''
    references = {}
    for i in items:
        if i.kind != 'file':
            raise Unsupported
        name = i.path.encode()
        if style == 'gnu' and (len(name) > 15 or b' ' in name or b'/' in name):
            if name not in references:
                references[name] = len(longNames)
                longNames += name + b'/\n'
        elif style == 'plain' and len(name) > 16:
            raise Unsupported

    def entry(name, data, mtime=0, uid=0, gid=0, mode=0, extra=b''):
        h = b'%-16s%-12d%-6d%-6d%-8o%-10d`\n' % (name, mtime, uid, gid, mode, len(data) + len(extra))
        assert len(h) == 60
        body = extra + data
        return h + body + (b'\n' if len(body) % 2 else b'')

    if longNames:
        result += entry(b'//', longNames)
    for i in items:
        name = i.path.encode()
        extra = b''
        if style == 'gnu':
            stored = b'/%d' % references[name] if name in references else name + b'/'
        elif style == 'bsd' and (len(name) > 16 or b' ' in name):
            stored, extra = b'#1/%d' % len(name), name
        else:
            stored = name
        result += entry(stored, i.data, i.mtime, 1000, 1001, i.mode | stat.S_IFREG, extra)
    return result


def build_asar(items):
    root = {'files': {}}
    body = b''
    seen = set()
    for i in items:
        parts = [p for p in i.path.split('/') if p]
        if tuple(parts) in seen or '..' in parts or posixpath.normpath(i.path) != i.path.strip('/'):
            raise Unsupported
        seen.add(tuple(parts))
        folder = root
        for p in parts[:-1]:
            folder = folder['files'].setdefault(p, {'files': {}})
            if 'files' not in folder:
                raise Unsupported
        if i.kind == 'dir':
            if not isinstance(folder['files'].setdefault(parts[-1], {'files': {}}).get('files'), dict):
                raise Unsupported
        elif i.kind == 'file':
            if parts[-1] in folder['files']:
                raise Unsupported
            entry = {'size': len(i.data), 'offset': str(len(body))}
            if i.mode & 0o111:
                entry['executable'] = True
            folder['files'][parts[-1]] = entry
            body += i.data
        else:
            raise Unsupported
    header = json.dumps(root).encode()
    padded = header + b'\0' * (-len(header) % 4)
    # Pickle: uint32 4 | uint32 headerPickleSize | uint32 payloadSize | uint32 stringLength | string padded to 4
    payload = struct.pack('<I', len(header)) + padded
    pickled = struct.pack('<I', len(payload)) + payload
    return struct.pack('<II', 4, len(pickled)) + pickled + body


def build_sqlar(items, path, compressed=True):
    plain = {norm(i.path) for i in items if i.kind != 'dir'}
    for i in items:
        parent = posixpath.dirname(norm(i.path))
        while parent != '/':
            if parent in plain:
                raise Unsupported  # The archiver creates each path once, a file can not have children.
            parent = posixpath.dirname(parent)
    connection = sqlite3.connect(path)
    connection.execute('CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB)')
    for i in items:
        mode = i.mode | {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[i.kind]
        if i.kind == 'dir':
            row = (i.path, mode, i.mtime, 0, None)
        elif i.kind == 'sym':
            row = (i.path, mode, i.mtime, -1, i.link)
        else:
            data = zlib.compress(i.data) if compressed else i.data
            if len(data) >= len(i.data):
                data = i.data
            row = (i.path, mode, i.mtime, len(i.data), data)
        try:
            connection.execute('INSERT INTO sqlar VALUES (?,?,?,?,?)', row)
        except sqlite3.IntegrityError as e:
            raise Unsupported from e
    connection.commit()
    connection.close()


def write_folder(items, folder):
    """Creates the items in a real directory, later ones replace earlier ones."""
    os.makedirs(folder, exist_ok=True)
    for i in items:
        path = os.path.join(folder, norm(i.path)[1:])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if i.kind == 'dir':
            os.makedirs(path, exist_ok=True)
        else:
            if os.path.isdir(path) and not os.path.islink(path):
                raise Unsupported
            if os.path.lexists(path):
                os.unlink(path)
            if i.kind == 'sym':
                os.symlink(i.link, path)
            else:
                with open(path, 'wb') as f:
                    f.write(i.data)
        if i.kind != 'sym':
            os.chmod(path, i.mode)
    for i in reversed(items):
        path = os.path.join(folder, norm(i.path)[1:])
        os.utime(path, (i.mtime, i.mtime), follow_symlinks=False)


def unique(items):
    """Later items replace earlier ones with the same path (for formats that hold each path once)."""
    if any(norm(i.path) == '/' for i in items):
        raise Unsupported
    kept = {}
    for i in items:
        kept.pop(norm(i.path), None)
        kept[norm(i.path)] = i
    for path in kept:
        parent = posixpath.dirname(path)
        while parent != '/':
            if parent in kept and kept[parent].kind != 'dir':
                raise Unsupported
            parent = posixpath.dirname(parent)
    return list(kept.values())


def build_squashfs(items, path, compression='gzip', block=4096):
    with tempfile.TemporaryDirectory() as folder:
        root = os.path.join(folder, 'root')
        write_folder(unique(items), root)
        subprocess.run(['mksquashfs', root, path, '-noappend', '-quiet', '-no-progress', '-comp', compression, '-b',
                        str(block), '-all-root', '-processors', '1'], check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)


def build_7z(items, path, args=()):
    with tempfile.TemporaryDirectory() as folder:
        root = os.path.join(folder, 'root')
        write_folder(unique(items), root)
        subprocess.run(['7z', 'a', '-bd', '-snl', *args, path, '.'], cwd=root, check=True, stdout=subprocess.DEVNULL)


def build_cpio(items):
    """newc format"""
    result = b''
    for n, i in enumerate(list(items) + [Item('TRAILER!!!')]):
        name = i.path.encode() + b'\0'
        data = i.data if i.kind == 'file' else i.link.encode()
        kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[i.kind]
        fields = [n + 1, kind | i.mode, 1000, 1001, 1, i.mtime, len(data), 0, 0, 0, 0, len(name), 0]
        if i.path == 'TRAILER!!!':
            fields = [0] * 4 + [1] + [0] * 6 + [len(name), 0]
        h = b'070701' + b''.join(b'%08X' % f for f in fields) + name
        h += b'\0' * (-len(h) % 4)
        result += h + data + b'\0' * (-len(data) % 4)
    return result + b'\0' * (-len(result) % 512)


def build_libarchive(items, path, formatName):
    """iso9660, xar and so on through libarchive's writer."""
    import libarchive
    with libarchive.file_writer(path, formatName) as writer:
        for i in unique(items):
            kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[i.kind]
            from libarchive import entry as E
            path = i.path.strip('/') if formatName == 'iso9660' else i.path
            entry = E.ArchiveEntry(pathname=path, size=len(i.data), filetype=kind, perm=i.mode, uid=1000, gid=1001, mtime=i.mtime)
            if i.kind == 'sym':
                E.ffi.libarchive.archive_entry_copy_symlink(ctypes.c_void_p(entry._entry_p), i.link.encode())
            E.ffi.write_header(writer._pointer, entry._entry_p)
            if i.data:
                E.ffi.write_data(writer._pointer, i.data, len(i.data))
            E.ffi.write_finish_entry(writer._pointer)


def build_git(items, folder):
    import pygit2
    write_folder(unique(items), folder)
    env = dict(os.environ, GIT_AUTHOR_DATE='1234567890 +0000', GIT_COMMITTER_DATE='1234567890 +0000',
               GIT_AUTHOR_NAME='n', GIT_AUTHOR_EMAIL='e', GIT_COMMITTER_NAME='n', GIT_COMMITTER_EMAIL='e',
               GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null')
    for args in (['init', '-q', '-b', 'main'], ['add', '-A'], ['commit', '-q', '--allow-empty', '-m', 'c']):
        subprocess.run(['git', *args], cwd=folder, env=env, check=True, stdout=subprocess.DEVNULL)


class Format:
    def __init__(self, name, extension, build, **expectation):
        self.name = name
        self.extension = extension
        self._build = build
        self.expectation = expectation

    def build(self, items, path):
        """Writes the archive to the path and returns the expected tree."""
        items = list(items)
        if self.expectation.get('uniquePaths'):
            items = unique(items)
        if not self.expectation.get('emptyOk', True) and not items:
            raise Unsupported
        if self.expectation.get('noSymlinks') and any(i.kind == 'sym' for i in items):
            raise Unsupported
        result = self._build(items, path)
        if isinstance(result, bytes):
            with open(path, 'wb') as f:
                f.write(result)
        return self.expected(items)

    def expected(self, items):
        keys = ('owner', 'mtimeStep', 'mode', 'mtime', 'versions', 'dirMode')
        if self.expectation.get('filesOnly'):
            # Folders are not stored themselves, only implied.
            items = [i for i in items if i.kind != 'dir']
        if suffix := self.expectation.get('suffix'):
            items = [dataclasses.replace(i, path=i.path if i.path.endswith(suffix) else i.path + suffix) for i in items]
        tree = fold(items, **{k: v for k, v in self.expectation.items() if k in keys})
        for path in self.expectation.get('also', ()):
            tree.setdefault(path, [Entry(stat.S_IFDIR)])
        return tree


def build_html(items, style):
    if style == 'plain' and any(b >= 128 for i in items for b in i.data):
        raise Unsupported
    return builders.build_html(items, Unsupported, style, filler=3)[0]


def _compressed_tar(how):
    return lambda items, path: compress(build_tar(items), how)


FORMATS = {f.name: f for f in [
    Format('tar', '.tar', lambda items, path: build_tar(items), owner=(1000, 1001)),
    Format('tar-ustar', '.tar', lambda items, path: build_tar(items, 'ustar'), owner=(1000, 1001)),
    Format('tar-gnu', '.tar', lambda items, path: build_tar(items, 'gnu'), owner=(1000, 1001)),
    Format('tar.gz', '.tar.gz', _compressed_tar('gz'), owner=(1000, 1001)),
    Format('tar.bz2', '.tar.bz2', _compressed_tar('bz2'), owner=(1000, 1001)),
    Format('tar.xz', '.tar.xz', _compressed_tar('xz'), owner=(1000, 1001)),
    Format('tar.zst', '.tar.zst', _compressed_tar('zst'), owner=(1000, 1001)),
    Format('zip', '.zip', lambda items, path: build_zip(items), mtimeStep=2, permMask=0o777),
    Format('zip-deflate', '.zip', lambda items, path: build_zip(items, zipfile.ZIP_DEFLATED), mtimeStep=2, permMask=0o777),
    Format('ar', '.a', lambda items, path: build_ar(items), owner=(1000, 1001), emptyOk=False),
    Format('ar-bsd', '.a', lambda items, path: build_ar(items, 'bsd'), owner=(1000, 1001), emptyOk=False),
    Format('asar', '.asar', lambda items, path: build_asar(items), mode=False, mtime=False),
    Format('sqlar', '.sqlar', lambda items, path: build_sqlar(items, path), emptyOk=False, versions=False),
    Format('sqlar-plain', '.sqlar', lambda items, path: build_sqlar(items, path, False), emptyOk=False, versions=False),
    Format('squashfs', '.squashfs', build_squashfs, owner=(0, 0), uniquePaths=True),
    Format('7z', '.7z', build_7z, uniquePaths=True, emptyOk=False, permMask=0o777),
    Format('cpio', '.cpio', lambda items, path: build_cpio(items), emptyOk=False, permMask=0o777),
    Format('iso', '.iso', lambda items, path: build_libarchive(items, path, 'iso9660'), uniquePaths=True, mode=False,
           emptyOk=False),
    Format('xar', '.xar', lambda items, path: build_libarchive(items, path, 'xar'), uniquePaths=True, emptyOk=False,
           permMask=0o777),
    Format('rar', '.rar', lambda items, path: builders.build_rar(items), uniquePaths=True),
    Format('ext4', '.ext4', lambda items, path: builders.build_ext4(items, path, unique, write_folder), owner=(0, 0),
           uniquePaths=True, emptyOk=False, also=('/lost+found',)),
    Format('fat', '.img', lambda items, path: builders.build_fat12(items, Unsupported), mode=False, mtimeStep=2, emptyOk=False),
    *[Format(f'html-{style}', '.html', lambda items, path, style=style: build_html(items, style), mode=False, mtime=False,
             suffix='.txt') for style in builders.HTML_STYLES],
    Format('pdf', '.pdf', lambda items, path: builders.build_pdf(unique(items), path, Unsupported), uniquePaths=True, mode=False, mtime=False),
    Format('indexed-folder', '', lambda items, path: write_folder(unique(items), path), uniquePaths=True),
    Format('folder', '', lambda items, path: write_folder(unique(items), path), uniquePaths=True),
    Format('git', '', build_git, uniquePaths=True, filesOnly=True, mode=False, mtime=False),
]}


def open_format(name, path, **options):
    """Mounts a built archive without leaving an index behind."""
    from ratarmountcore.mountsource.factory import open_mount_source
    options.setdefault('indexFilePath', ':memory:')
    options.setdefault('writeIndex', False)
    if name == 'indexed-folder':
        from ratarmountcore.mountsource.formats.folder import IndexedFolderMountSource
        return IndexedFolderMountSource(path, **options)
    if name == 'git':
        from ratarmountcore.mountsource.formats.git import GitMountSource
        return GitMountSource(path)
    return open_mount_source(path, **options)


# ---- members for the file behaviour check ----------------------------------------------------------------------------


def pattern(size, seed=1):
    """Bytes without short repetition, so that misplaced reads are visible."""
    result = bytearray()
    value = seed * 2654435761 % 2 ** 32
    while len(result) < size:
        value = (value * 1103515245 + 12345) % 2 ** 31
        result += value.to_bytes(4, 'little')[1:3]
    return bytes(result[:size])


UNKNOWN_SIZE = set()
FILE_MOUNTS = ['tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'zip-deflate', 'ar', 'asar', 'sqlar',
               'sqlar-plain', 'squashfs', 'squashfs-xz', 'squashfs-plain', '7z', 'cpio', 'iso', 'folder', 'git',
               'sparse-gnu', 'sparse-0.0', 'sparse-0.1', 'sparse-1.0', 'split', 'split-tar', 'single-gz', 'single-bz2',
               'single-xz', 'single-zst', 'single-zlib', 'single-lz4', 'indexed-folder', 'nested', 'stack',
               'fat', 'ext4', 'rar', 'pdf', 'xar', 'html-double', 'html-css', 'nested-libarchive']
LARGE_MOUNTS = ['tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip-deflate', 'ar', 'sqlar', 'squashfs', '7z', 'cpio', 'iso', 'xar',
                'ext4', 'rar', 'git', 'folder']


@contextlib.contextmanager
def mount_for_files(what, scratch):
    """Yields (mount source, {path: content}, lenient)."""
    from ratarmountcore.mountsource.factory import open_mount_source
    path = os.path.join(scratch, 'archive')
    data = {'/a': pattern(3), '/d/b': pattern(9001, 2), '/c': pattern(1024, 3), '/e': b''}
    items = [F(p[1:], d) for p, d in data.items()]
    lenient = what in ('7z', 'cpio', 'iso', 'xar', 'zip', 'zip-deflate', 'nested') or what.startswith('squashfs')
    options = {'indexFilePath': ':memory:', 'writeIndex': False}
    if what.startswith('sparse-'):
        how = what[7:]
        dialect = 'gnu' if how == 'gnu' else 'pax'
        members = []
        data = {}

        def sparse(name, size, ranges, seed):
            content = bytearray(size)
            for o, s in ranges:
                content[o:o + s] = pattern(s, seed + o)
            data['/' + name] = bytes(content)
            members.append(Member(name.encode(), 'sparse', bytes(content), dialect=dialect, holes=tuple(ranges),
                                  sparse=how))

        sparse('s1', 5000, ((512, 512), (2048, 1024), (4608, 392)), 1)
        sparse('s2', 4096, ((0, 512), (3584, 512)), 2)
        sparse('s3', 3000, ((1024, 512),), 3)
        if how != '0.0':
            sparse('hole', 2000, (), 4)
        sparse('full', 1024, ((0, 1024),), 7)
        sparse('many', 30 * 1024, [(i * 1024, 512) for i in range(30)], 5)
        data['/plain'] = pattern(700, 6)
        members.append(Member(b'plain', 'file', data['/plain'], dialect=dialect))
        with open(path + '.tar', 'wb') as f:
            f.write(tarwriter.write_tar(members))
        source = open_mount_source(path + '.tar', **options)
    elif what == 'split':
        content = pattern(9001, 2)
        os.makedirs(os.path.join(scratch, 's'))
        for n, (a, b) in enumerate(((0, 3000), (3000, 3001), (3001, 7000), (7000, 9001))):
            with open(os.path.join(scratch, 's', f'data.{n + 1:03}'), 'wb') as f:
                f.write(content[a:b])
        data = {'/data': content}
        source = open_mount_source(os.path.join(scratch, 's', 'data.001'), **options)
    elif what == 'split-tar':
        content = build_tar(items)
        os.makedirs(os.path.join(scratch, 's'))
        for n in range(0, len(content), 5000):
            with open(os.path.join(scratch, 's', f'x.tar.{n // 5000 + 1:03}'), 'wb') as f:
                f.write(content[n:n + 5000])
        source = open_mount_source(os.path.join(scratch, 's', 'x.tar.001'), **options)
    elif what.startswith('single-'):
        how = what[7:]
        content = pattern(9001, 2)
        path += COMPRESSION_EXTENSION[how]
        with open(path, 'wb') as f:
            f.write(compress(content, how))
        data = {'/archive': content}
        lenient = True
        source = open_mount_source(path, **options)
    elif what == 'indexed-folder':
        write_folder(items, path)
        from ratarmountcore.mountsource.formats.folder import IndexedFolderMountSource
        source = IndexedFolderMountSource(path, **options)
    elif what == 'nested':
        from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
        outer = [F('t.tar', build_tar(items)), F('z.zip', build_zip(items, zipfile.ZIP_DEFLATED)),
                 F('g.tar.gz', compress(build_tar(items), 'gz'))]
        with open(path + '.tar', 'wb') as f:
            f.write(build_tar(outer))
        source = AutoMountLayer(open_mount_source(path + '.tar', recursive=True, **options), recursive=True, **options)
        data = {p + q: d for p in ('/t.tar', '/z.zip', '/g.tar.gz') for q, d in data.items()}
    elif what == 'nested-libarchive':
        from ratarmountcore.mountsource.compositing.automount import AutoMountLayer
        outer = []
        for name in ('7z', 'cpio', 'iso'):
            FORMATS[name].build([i for i in items if i.data], os.path.join(scratch, 'x.' + name))
            with open(os.path.join(scratch, 'x.' + name), 'rb') as f:
                outer.append(F('x.' + name, f.read()))
        with open(path + '.tar', 'wb') as f:
            f.write(build_tar(outer))
        source = AutoMountLayer(open_mount_source(path + '.tar', recursive=True, **options), recursive=True, **options)
        data = {p + q: d for p in ('/x.7z', '/x.cpio', '/x.iso') for q, d in data.items() if d}
        lenient = True
    elif what == 'stack':
        from ratarmountcore.mountsource.compositing.union import UnionMountSource
        from ratarmountcore.mountsource.compositing.versioning import FileVersionLayer
        from ratarmountcore.mountsource.compositing.subvolumes import SubvolumesMountSource
        from ratarmountcore.mountsource.compositing.removeprefix import RemovePrefixMountSource
        for n, (a, b) in enumerate((('/a', '/c'), ('/d/b', '/e'))):
            with open(path + f'{n}.tar', 'wb') as f:
                f.write(build_tar([F(a, data[a]), F(b, data[b])]))
        union = UnionMountSource([open_mount_source(path + f'{n}.tar', **options) for n in range(2)])
        source = FileVersionLayer(SubvolumesMountSource({'u': union, 'p': RemovePrefixMountSource(
            '/pre', open_mount_source(path + '1.tar', **options))}))
        data = {**{'/u' + p: d for p, d in data.items()}, '/p/pre/d/b': data['/d/b']}
    elif what.startswith('squashfs-'):
        build_squashfs(items, path + '.squashfs', *({'squashfs-xz': ('xz',), 'squashfs-plain': ('gzip',)}[what]))
        if what == 'squashfs-plain':
            os.unlink(path + '.squashfs')
            with tempfile.TemporaryDirectory() as folder:
                write_folder(items, os.path.join(folder, 'root'))
                subprocess.run(['mksquashfs', os.path.join(folder, 'root'), path + '.squashfs', '-noappend', '-quiet',
                                '-no-progress', '-b', '4096', '-noD', '-noF', '-all-root'], check=True,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        source = open_mount_source(path + '.squashfs', **options)
    else:
        fmt = FORMATS[what]
        if what in ('fat', 'ext4', 'rar', 'xar') or what.startswith('html'):
            lenient = True
        if what.startswith('html') or what == 'pdf':
            items = [i for i in items if i.data and '/' not in i.path]
            data = {'/' + i.path + ('.txt' if what != 'pdf' else ''): i.data for i in items}
        fmt.build(items, path + fmt.extension)
        source = open_format(what, path + fmt.extension)
    try:
        yield source, data, lenient
    finally:
        with contextlib.suppress(Exception):
            source.__exit__(None, None, None)
