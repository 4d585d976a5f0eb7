"""Writers for RAR 5, ext4, FAT 12, HTML, PDF and OGG files, used by mc/archives.py."""
import base64
import html
import os
import posixpath
import stat
import struct
import subprocess
import tempfile
import zlib


# ---- RAR 5, stored members only --------------------------------------------------------------------------------------


def _vint(n):
    result = bytearray()
    while True:
        result.append(n & 0x7F | (0x80 if n > 0x7F else 0))
        n >>= 7
        if not n:
            return bytes(result)


def _rar_block(kind, body, extra=b'', data=b''):
    flags = (1 if extra else 0) | (2 if data else 0)
    header = _vint(kind) + _vint(flags) + (_vint(len(extra)) if extra else b'') + (_vint(len(data)) if data else b'')
    header += body + extra
    header = _vint(len(header)) + header
    return struct.pack('<I', zlib.crc32(header)) + header + data


def build_rar(items):
    result = b'Rar!\x1a\x07\x01\x00' + _rar_block(1, _vint(0))
    for i in items:
        kind = {'file': stat.S_IFREG, 'dir': stat.S_IFDIR, 'sym': stat.S_IFLNK}[i.kind]
        data = i.data if i.kind == 'file' else b''
        name = i.path.rstrip('/').encode() if i.kind == 'dir' else i.path.encode()
        extra = b''
        if i.kind == 'sym':
            link = i.link.encode()
            record = _vint(5) + _vint(1) + _vint(0) + _vint(len(link)) + link
            extra = _vint(len(record)) + record
        body = _vint(2 | 4 | (1 if i.kind == 'dir' else 0)) + _vint(len(data)) + _vint(kind | i.mode)
        body += struct.pack('<II', i.mtime, zlib.crc32(data)) + _vint(0) + _vint(1) + _vint(len(name)) + name
        result += _rar_block(2, body, extra, data)
    return result + _rar_block(5, _vint(0))


# ---- ext4 ------------------------------------------------------------------------------------------------------------


def build_ext4(items, path, unique, write_folder, blockSize=1024):
    with tempfile.TemporaryDirectory() as folder:
        root = os.path.join(folder, 'root')
        write_folder(unique(items), root)
        size = 1024 + sum(len(i.data) for i in items) // 512
        subprocess.run(['mke2fs', '-q', '-t', 'ext4', '-O', '^has_journal', '-b', str(blockSize), '-d', root, path, f'{size}k'],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=dict(os.environ, PATH=os.environ.get('PATH', '') + ':/usr/sbin:/sbin'))


# ---- FAT 12 ----------------------------------------------------------------------------------------------------------

FAT_FORBIDDEN = set('"*/:<>?\\|') | {chr(i) for i in range(32)}


def _fat_checksum(short):
    result = 0
    for c in short:
        result = ((result >> 1) + ((result & 1) << 7) + c) & 0xFF
    return result


def _fat_entries(name, number, isDir, cluster, size, mtime):
    """Long name entries followed by the short entry."""
    short = f'F{number:07d}'.encode() + b'   '
    t = mtime
    import time
    local = time.gmtime(t)
    date = (local.tm_year - 1980) << 9 | local.tm_mon << 5 | local.tm_mday
    clock = local.tm_hour << 11 | local.tm_min << 5 | local.tm_sec // 2
    encoded = name.encode('utf-16-le')
    units = [encoded[i:i + 2] for i in range(0, len(encoded), 2)]
    if len(units) % 13:
        units.append(b'\0\0')
        units += [b'\xff\xff'] * (-len(units) % 13)
    result = b''
    count = len(units) // 13
    for n in range(count, 0, -1):
        part = units[(n - 1) * 13:n * 13]
        result += struct.pack('<B10sBBB12sH4s', n | (0x40 if n == count else 0), b''.join(part[:5]), 0x0F, 0,
                              _fat_checksum(short), b''.join(part[5:11]), 0, b''.join(part[11:]))
    return result + _fat_short(short, isDir, cluster, size, date, clock)


def _fat_short(short, isDir, cluster, size, date, clock):
    return struct.pack('<11sBBBHHHHHHHI', short, 0x10 if isDir else 0x20, 0, 0, clock, date, date, 0, clock, date, cluster,
                       0 if isDir else size)


def build_fat12(items, unsupported, clusterSize=512):
    """Files get interleaved clusters, so that cluster chains are really followed."""
    root = {}
    folders = {}
    seen = set()
    for i in items:
        parts = [p for p in posixpath.normpath('/' + i.path).split('/') if p]
        if not parts or i.kind == 'sym':
            raise unsupported
        folder = root
        for n, p in enumerate(parts):
            if set(p) & FAT_FORBIDDEN or p.endswith(('.', ' ')) or p.startswith(' ') or len(p) > 200:
                raise unsupported
            last = n + 1 == len(parts)
            key = '/'.join(parts[:n + 1])
            clash = [k for k in folder if k.lower() == p.lower()]
            if clash and clash != [p]:
                raise unsupported
            if last and i.kind == 'file':
                if p in folder:
                    raise unsupported
                folder[p] = i
            else:
                if p in folder and not isinstance(folder[p], dict):
                    raise unsupported
                if last:
                    folders[key] = i
                folder = folder.setdefault(p, {})
    fat = [0xFF8, 0xFFF]
    clusters = {}
    pending = []

    def allocate(data, chains):
        parts = [data[k:k + clusterSize] for k in range(0, len(data), clusterSize)]
        chains.append((parts, []))
        return chains[-1][1]

    # Lay out the folders first (their sizes are known), then the files round-robin.
    number = [0]
    jobs = []

    def size_of(children, isRoot):
        return sum((len(n.encode('utf-16-le')) // 2 + 12) // 13 + 1 for n in children) * 32 + (0 if isRoot else 64)

    def reserve(children, path, isRoot):
        numbers = []
        if not isRoot:
            for _ in range(max(1, -(-size_of(children, False) // clusterSize))):
                numbers.append(len(fat))
                fat.append(0xFFF)
            for a, b in zip(numbers, numbers[1:]):
                fat[a] = b
        inner = {}
        for name, child in children.items():
            if isinstance(child, dict):
                inner[name] = reserve(child, path + [name], False)
            else:
                inner[name] = [child, []]
                pending.append(inner[name])
        return {'numbers': numbers, 'children': inner, 'path': path}

    layout = reserve(root, [], True)
    rest = [(p, [p[0].data[k:k + clusterSize] for k in range(0, len(p[0].data), clusterSize)]) for p in pending]
    while any(parts for _, parts in rest):
        for p, parts in rest:
            if parts:
                n = len(fat)
                fat.append(0xFFF)
                if p[1]:
                    fat[p[1][-1]] = n
                p[1].append(n)
                clusters[n] = parts.pop(0)

    def emit(node, parentCluster, isRoot):
        data = b''
        if not isRoot:
            own = node['numbers'][0]
            data += _fat_short(b'.          ', True, own, 0, 33, 0) + _fat_short(b'..         ', True, parentCluster, 0, 33, 0)
        for name, child in node['children'].items():
            number[0] += 1
            if isinstance(child, dict):
                info = folders.get('/'.join(node['path'] + [name]))
                data += _fat_entries(name, number[0], True, child['numbers'][0], 0, info.mtime if info else 1234567890)
                emit(child, 0 if isRoot else node['numbers'][0], False)
            else:
                item, chain = child
                data += _fat_entries(name, number[0], False, chain[0] if chain else 0, len(item.data), item.mtime)
        if isRoot:
            return data
        for k, n in enumerate(node['numbers']):
            clusters[n] = data[k * clusterSize:(k + 1) * clusterSize]
        return None

    rootData = emit(layout, 0, True)
    rootEntries = 512
    if len(rootData) > rootEntries * 32 or len(fat) > 4000:
        raise unsupported
    total = max(len(fat) + 10, 60)
    fat += [0] * (total - len(fat))
    packed = bytearray()
    for a, b in zip(fat[::2], (fat + [0])[1::2]):
        packed += bytes((a & 0xFF, a >> 8 | (b & 0xF) << 4, b >> 4))
    fatSectors = -(-len(packed) // 512)
    fatBytes = bytes(packed).ljust(fatSectors * 512, b'\0')
    sectors = 1 + 2 * fatSectors + rootEntries * 32 // 512 + (total - 2) * (clusterSize // 512)
    boot = struct.pack('<3s8sHBHBHHBHHHIIBBBI11s8s', b'\xeb\x3c\x90', b'mkfs.fat', 512, clusterSize // 512, 1, 2, rootEntries,
                       sectors, 0xF8, fatSectors, 32, 2, 0, 0, 0x80, 0, 0x29, 0x12345678, b'NO NAME    ', b'FAT12   ')
    image = boot.ljust(510, b'\0') + b'\x55\xaa' + fatBytes * 2 + rootData.ljust(rootEntries * 32, b'\0')
    return image + b''.join(clusters.get(n, b'').ljust(clusterSize, b'\0') for n in range(2, total))


# ---- HTML ------------------------------------------------------------------------------------------------------------

HTML_STYLES = ('double', 'single', 'plain', 'css', 'percent', 'crlf', 'unicode')


def build_html(items, unsupported, style='double', filler=0):
    """Every file as a data URL with its path in the attribute of SavePageWE. Returns the bytes and shown paths."""
    result = '<!DOCTYPE html>\n<html><head><title>\u00fc</title></head><body>' + '<p>\u20ac filler</p>\n' * filler
    shown = []
    for i in items:
        if i.kind != 'file' or not i.data or set(i.path) & set('\'"\n*<>&'):
            raise unsupported
        path = i.path if i.path.endswith('.txt') else i.path + '.txt'
        shown.append(path)
        url = 'data:text/plain;base64,' + base64.b64encode(i.data).decode()
        if style == 'double':
            result += f'<img alt="\u00fc" data-savepage-src="{html.escape(i.path)}" src="{url}">text\n'
        elif style == 'single':
            result += f"<img src='{url}' data-savepage-src='{html.escape(i.path)}'/>"
        elif style == 'plain':
            result += f'<a data-savepage-href="{html.escape(i.path)}" href="data:text/plain,' + \
                ''.join(f'%{b:02x}' for b in i.data if b < 128) + '">\n'
        elif style == 'percent':
            result += f'<a data-savepage-href="{html.escape(i.path)}" href="data:text/plain,' + \
                ''.join(f'%{b:02X}' for b in i.data) + '">\u20ac</a>\n'
        elif style == 'crlf':
            result += f'<img\r\nalt="\u00fc"\r\ndata-savepage-src="{html.escape(i.path)}"\r\nsrc="{url}">\r\ntext\r'
        elif style == 'unicode':
            try:
                text = i.data.decode()
            except UnicodeDecodeError:
                raise unsupported from None
            if any(c in text for c in '%"') or not text.isprintable():
                raise unsupported
            result += f'<img src="data:text/plain;charset=utf-8,{html.escape(text)}" data-savepage-src="{html.escape(i.path)}">'
        else:
            result += f'<style>\n\u20ac /*savepage-url={i.path}*/url({url}) </style>'
    return (result + '</body></html>\n').encode(), shown


# ---- PDF -------------------------------------------------------------------------------------------------------------


def build_pdf(items, path, unsupported):
    import pypdf
    writer = pypdf.PdfWriter()
    writer.add_blank_page(width=72, height=72)
    for i in items:
        if i.kind != 'file':
            raise unsupported
        writer.add_attachment(i.path, i.data)
    with open(path, 'wb') as f:
        writer.write(f)


# ---- OGG -------------------------------------------------------------------------------------------------------------

OGG_MAGIC = {'audio': b'\x01vorbis', 'video': b'\x80theora', 'text': b'CMML\0\0\0\0', 'unknown': b'nothing'}
OGG_EXTENSIONS = {'audio': '.oga', 'video': '.ogv', 'text': '.ogg', 'unknown': '.ogg'}


def build_ogg(pages):
    """pages: sequence of (stream ID, kind, data). The expected streams are their pages one after the other."""
    streams = {}
    result = b''
    last = {stream: n for n, (stream, _, _) in enumerate(pages)}
    for n, (stream, kind, data) in enumerate(pages):
        name = f'/{kind}_{stream:08x}{OGG_EXTENSIONS[kind]}'
        first = stream not in streams
        if first:
            streams[stream] = [name, b'', 0]
            data = OGG_MAGIC[kind] + data
        segments = [255] * (len(data) // 255) + [len(data) % 255]
        assert len(segments) < 256
        flags = (2 if first else 0) | (4 if last[stream] == n else 0)
        page = struct.pack('<4sBBQIIIB', b'OggS', 0, flags, n, stream, streams[stream][2], 0, len(segments)) + bytes(segments) + data
        streams[stream][2] += 1
        streams[stream][1] += page
        result += page
    return result, {name: data for name, data, _ in streams.values()}
