"""Own TAR writer (v7, ustar, GNU, pax) and the tree a mount of the written archive must show.

Independent of Python's tarfile module, which the code under test uses for reading.
"""
import dataclasses
import posixpath
import stat
from typing import Optional

BLOCK = 512
TYPEFLAGS = {'file': b'0', 'hard': b'1', 'sym': b'2', 'chr': b'3', 'blk': b'4', 'dir': b'5', 'fifo': b'6',
             'cont': b'7', 'oldfile': b'\0'}
IFMT = {'file': stat.S_IFREG, 'oldfile': stat.S_IFREG, 'cont': stat.S_IFREG, 'sparse': stat.S_IFREG,
        'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK, 'chr': stat.S_IFCHR, 'blk': stat.S_IFBLK, 'fifo': stat.S_IFIFO,
        'hard': 0}


@dataclasses.dataclass(frozen=True)
class Member:
    name: bytes
    type: str = 'file'
    data: bytes = b''  # for sparse members the expanded content
    mode: int = 0o644
    uid: int = 1000
    gid: int = 1001
    mtime: float = 1234567890
    link: bytes = b''
    xattrs: tuple = ()  # ((key bytes, value bytes), ...)
    dialect: str = 'ustar'
    holes: Optional[tuple] = None  # data ranges ((offset, size), ...) of sparse members
    sparse: str = 'gnu'  # gnu (old GNU), 0.0, 0.1, 1.0
    libarchive: bool = False  # additionally store xattrs in the LIBARCHIVE.xattr encoding
    paxsize: bool = False  # store the size only in the pax header
    base256: bool = False


def octal(value, width):
    text = b'%0*o' % (width - 1, value)
    assert len(text) < width
    return text + b'\0'


def number(value, width, base256=False):
    if base256 or value < 0 or value >= 8 ** (width - 1):
        if value < 0:
            value += 256 ** (width)
            return value.to_bytes(width, 'big')
        return b'\x80' + value.to_bytes(width - 1, 'big')
    return octal(value, width)


def header(name, *, mode=0o644, uid=0, gid=0, size=0, mtime=0, typeflag=b'0', link=b'', magic=b'ustar\x0000',
           prefix=b'', uname=b'user', gname=b'group', base256=False, tail=None):
    h = bytearray(BLOCK)
    h[0:len(name)] = name
    assert len(name) <= 100 and len(link) <= 100
    h[100:108] = number(mode, 8)
    h[108:116] = number(uid, 8, base256)
    h[116:124] = number(gid, 8, base256)
    h[124:136] = number(size, 12, base256)
    h[136:148] = number(int(mtime), 12, base256)
    h[148:156] = b' ' * 8
    h[156:157] = typeflag
    h[157:157 + len(link)] = link
    if magic:
        h[257:257 + len(magic)] = magic
        h[265:265 + len(uname)] = uname
        h[297:297 + len(gname)] = gname
        if typeflag in (b'3', b'4'):
            h[329:337] = octal(1, 8)
            h[337:345] = octal(3, 8)
        assert len(prefix) <= 155
        h[345:345 + len(prefix)] = prefix
    if tail is not None:  # GNU specific area starting at offset 345
        h[345:345 + len(tail)] = tail
    h[148:156] = b'%06o\0 ' % sum(h)
    return bytes(h)


def pad(data):
    return data + b'\0' * (-len(data) % BLOCK)


def pax_record(key, value):
    body = b' ' + key + b'=' + value + b'\n'
    n = len(body)
    while True:
        total = len(b'%d' % n) + len(body)
        if total == n:
            return b'%d' % n + body
        n = total


def pax_header(records, typeflag=b'x'):
    data = b''.join(pax_record(k, v) for k, v in records)
    return header(b'PaxHeaders/x', size=len(data), typeflag=typeflag) + pad(data)


def long_entry(data, typeflag):
    data = data + b'\0'
    return header(b'././@LongLink', mode=0, size=len(data), typeflag=typeflag, magic=b'ustar  \0',
                  uname=b'root', gname=b'root') + pad(data)


def split_ustar(name):
    """Returns (prefix, name) or None when the name does not fit."""
    if len(name) <= 100:
        return b'', name
    for i in range(len(name) - 1, 0, -1):
        if name[i:i + 1] == b'/' and i <= 155 and 0 < len(name) - i - 1 <= 100:
            return name[:i], name[i + 1:]
    return None


def encodable(m):
    """Whether this dialect can store the member."""
    if m.dialect == 'v7':
        return (len(m.name) <= 100 and len(m.link) <= 100 and not m.xattrs and m.type in ('file', 'oldfile', 'hard', 'sym')
                and float(m.mtime).is_integer() and 0 <= m.mtime < 8 ** 11 and max(m.uid, m.gid) < 8 ** 7)
    if m.dialect == 'ustar':
        return (split_ustar(m.name) is not None and len(m.link) <= 100 and not m.xattrs and m.type != 'sparse'
                and float(m.mtime).is_integer() and 0 <= m.mtime < 8 ** 11 and max(m.uid, m.gid) < 8 ** 7
                and not m.base256)
    if m.dialect == 'gnu':
        return not m.xattrs and float(m.mtime).is_integer() and (m.type != 'sparse' or m.sparse == 'gnu')
    if m.dialect == 'pax':
        try:
            m.name.decode()
            m.link.decode()
        except UnicodeDecodeError:
            return False
        return m.type != 'sparse' or m.sparse != 'gnu'
    return False


def sparse_map(m):
    """Like GNU tar, an empty range marks the end of files ending with a hole."""
    ranges = list(m.holes)
    if not ranges or ranges[-1][0] + ranges[-1][1] < len(m.data):
        ranges.append((len(m.data), 0))
    return ranges


def encode(m):
    """All blocks of one member."""
    assert encodable(m), m
    typeflag = TYPEFLAGS.get(m.type, b'0')
    size = len(m.data)
    common = {'mode': m.mode, 'uid': m.uid, 'gid': m.gid, 'mtime': m.mtime, 'typeflag': typeflag}
    if m.dialect == 'v7':
        return header(m.name, link=m.link, size=size, magic=b'', **common) + pad(m.data)

    if m.dialect == 'ustar':
        prefix, name = split_ustar(m.name)
        return header(name, prefix=prefix, link=m.link, size=size, **common) + pad(m.data)

    if m.dialect == 'gnu':
        result = b''
        if len(m.link) > 100:
            result += long_entry(m.link, b'K')
        if len(m.name) > 100:
            result += long_entry(m.name, b'L')
        common |= {'magic': b'ustar  \0', 'base256': m.base256}
        if m.type != 'sparse':
            return result + header(m.name[:100], link=m.link[:100], size=size, **common) + pad(m.data)
        # Old GNU sparse: up to 4 ranges in the header, 21 in each extension block
        ranges = sparse_map(m)
        stored = b''.join(m.data[o:o + s] for o, s in ranges)
        entries = b''.join(octal(o, 12) + octal(s, 12) for o, s in ranges[:4])
        tail = bytearray(167)
        tail[386 - 345:386 - 345 + len(entries)] = entries
        tail[482 - 345] = 1 if len(ranges) > 4 else 0
        tail += b'\0' * 0
        tail[483 - 345:483 - 345 + 12] = octal(len(m.data), 12)
        common['typeflag'] = b'S'
        result += header(m.name[:100], link=m.link[:100], size=len(stored), tail=bytes(tail), **common)
        rest = ranges[4:]
        while rest:
            block = bytearray(BLOCK)
            part = b''.join(octal(o, 12) + octal(s, 12) for o, s in rest[:21])
            block[:len(part)] = part
            rest = rest[21:]
            block[504] = 1 if rest else 0
            result += bytes(block)
        return result + pad(stored)

    # pax
    records = []
    name, link = m.name, m.link
    if len(name) > 100 or any(c > 127 for c in name):
        if m.type != 'sparse':
            records.append((b'path', name))
    if len(link) > 100 or any(c > 127 for c in link):
        records.append((b'linkpath', link))
    if not float(m.mtime).is_integer() or not 0 <= m.mtime < 8 ** 11:
        records.append((b'mtime', repr(m.mtime).encode()))
    for key, value in ((b'uid', m.uid), (b'gid', m.gid)):
        if value >= 8 ** 7:
            records.append((key, b'%d' % value))
    for key, value in m.xattrs:
        if m.libarchive:
            import base64
            import urllib.parse
            encoded = base64.b64encode(value).rstrip(b'=')
            records.append((b'LIBARCHIVE.xattr.' + urllib.parse.quote(key.decode()).encode(), encoded))
        else:
            records.append((b'SCHILY.xattr.' + key, value))
    stored = m.data
    shortName = name.decode('utf-8').encode('ascii', 'replace')[:100]
    if m.type == 'sparse':
        ranges = sparse_map(m)
        stored = b''.join(m.data[o:o + s] for o, s in ranges)
        realsize = b'%d' % len(m.data)
        if m.sparse == '0.0':
            records += [(b'path', name)] if len(name) > 100 or any(c > 127 for c in name) else []
            records += [(b'GNU.sparse.size', realsize), (b'GNU.sparse.numblocks', b'%d' % len(ranges))]
            for o, s in ranges:
                records += [(b'GNU.sparse.offset', b'%d' % o), (b'GNU.sparse.numbytes', b'%d' % s)]
        elif m.sparse == '0.1':
            records += [(b'GNU.sparse.size', realsize), (b'GNU.sparse.numblocks', b'%d' % len(ranges)),
                        (b'GNU.sparse.map', b','.join(b'%d,%d' % r for r in ranges)), (b'GNU.sparse.name', name)]
            shortName = b'GNUSparseFile.1/x'
        else:
            records += [(b'GNU.sparse.major', b'1'), (b'GNU.sparse.minor', b'0'), (b'GNU.sparse.name', name),
                        (b'GNU.sparse.realsize', realsize)]
            table = b'%d\n' % len(ranges) + b''.join(b'%d\n%d\n' % r for r in ranges)
            stored = pad(table) + stored
            shortName = b'GNUSparseFile.1/x'
    size = len(stored)
    if m.paxsize:
        records.append((b'size', b'%d' % size))
    result = pax_header(records) if records else b''
    common |= {'uid': m.uid if m.uid < 8 ** 7 else 0, 'gid': m.gid if m.gid < 8 ** 7 else 0,
               'mtime': int(m.mtime) if 0 <= m.mtime < 8 ** 11 else 0}
    return result + header(shortName, link=link.decode().encode('ascii', 'replace')[:100],
                           size=0 if m.paxsize and m.type != 'sparse' else size, **common) + pad(stored)


def write_tar(members, end='normal', offsets=None):
    """end: normal (padded to 10 KiB), short (two zero blocks), none, one (one zero block)"""
    result = b''
    for m in members:
        if offsets is not None:
            offsets.append(len(result))
        result += m if isinstance(m, bytes) else encode(m)
    if offsets is not None:
        offsets.append(len(result))
    if end == 'normal':
        result += b'\0' * 1024
        result += b'\0' * (-len(result) % 10240)
    elif end == 'short':
        result += b'\0' * 1024
    elif end == 'one':
        result += b'\0' * 512
    return result


# ---- expected view ---------------------------------------------------------------------------------------------------


@dataclasses.dataclass
class Entry:
    kind: int  # S_IFMT bits
    perm: Optional[int] = None  # None: not specified
    uid: Optional[int] = None
    gid: Optional[int] = None
    mtime: Optional[float] = None
    size: int = 0
    link: str = ''
    data: Optional[bytes] = None
    xattrs: Optional[dict] = None
    hard: Optional[str] = None  # unresolved hard link target path
    order: int = 0


def norm(name):
    return '/' + posixpath.normpath('/' + name).lstrip('/')


def decode(name):
    try:
        return name.decode('utf-8')
    except UnicodeDecodeError:
        # Names which are not valid in the chosen encoding are shown with the offending bytes escaped.
        return name.decode('utf-8', 'surrogateescape').encode('utf-8', 'surrogateescape').decode('utf-8', 'backslashreplace')


def expected_tree(members):
    """Returns path -> list of Entry, oldest version first. The root folder is only there implicitly."""
    tree = {}
    order = 0
    implied = {}
    for m in members:
        if isinstance(m, bytes):
            continue
        order += 1
        path = norm(decode(m.name))
        kind = IFMT[m.type]
        isFile = kind == stat.S_IFREG
        entry = Entry(kind, m.mode & 0o7777, m.uid, m.gid, m.mtime, len(m.data) if isFile else 0,
                      decode(m.link) if m.type in ('sym', 'hard') else '', m.data if isFile else None,
                      {k.decode(): v for k, v in m.xattrs}, norm(decode(m.link)) if m.type == 'hard' else None, order)
        if m.type == 'oldfile' and m.name.endswith(b'/'):
            entry.kind = stat.S_IFDIR
            entry.data = None
        tree.setdefault(path, []).append(entry)
        parent = path
        while True:
            parent = posixpath.dirname(parent)
            if parent == '/':
                break
            implied.setdefault(parent, order)
    for path, n in implied.items():
        if not any(e.kind == stat.S_IFDIR for e in tree.get(path, [])):
            versions = tree.setdefault(path, [])
            versions.append(Entry(stat.S_IFDIR, order=n - 0.5))
            versions.sort(key=lambda e: e.order)
    tree.pop('/', None)
    return tree


def visible(tree):
    """Paths all of whose parents are (in their newest version) folders."""
    result = []
    for path in tree:
        parent = posixpath.dirname(path)
        while parent != '/':
            if tree[parent][-1].kind != stat.S_IFDIR:
                break
            parent = posixpath.dirname(parent)
        else:
            result.append(path)
    return result
