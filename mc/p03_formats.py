"""P03: every archive format serves the member content that was stored."""
import itertools
import os
import shutil
import stat
import struct
import zipfile

from . import archives, builders, tarwriter, view
from .archives import FORMATS, D, F, S, Unsupported, open_format
from .core import Violation

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Attributes that a format or its Python reader does not provide (owner for ZIP, times for ASAR, ...) are not compared.',
    'Formats for which archives can be written offline are covered: ZIP, AR, ASAR, SQLAR, SquashFS, 7z, cpio, ISO, xar, RAR (stored), '
    'ext4, FAT12, HTML, PDF attachments, folders, and git repositories; TAR in more depth by P01.',
]
BIG = archives.pattern(9000, 5)
COMMON = {
    'a1': F('a', b'first a', 0o600), 'a2': F('a', b'second, longer a', 0o755, 1234567892), 'a0': F('a', b'', 0o444),
    'b': F('b.txt', BIG), 'Da': D('a', 0o700), 'Sa': S('a', 'b.txt'), 'D': D('d', 0o711, 1234567894), 'da': F('d/a', b'd/a', 0o4755),
    'def': F('d/e/f', b'd/e/f'), 'De': D('d/e', 0o750), 'Sd': S('d/s', '../a'), 'd': F('d', b'd is a file'),
}
ODD = {
    'dot': F('./a', b'./a'), 'abs': F('/a', b'/a'), 'double': F('d//a', b'd//a'), 'inner': F('d/./a', b'd/./a'),
    'parent': F('d/../a', b'd/../a'), 'above': F('../a', b'../a'), 'space': F('a b', b'space'), 'unicode': F('\u00fc\u20ac', b'unicode'),
    'long': F('n' * 120, b'long'), 'longpath': F('p' * 90 + '/' + 'q' * 120, b'long path'), 'quote': F("a'\"b", b'quotes'),
    'percent': F('a%b_', b'percent'), 'newline': F('a\nb', b'newline'), 'back': F('a\\b', b'backslash'), 'star': F('*', b'star'),
    'Ddot': D('./d/', 0o711), 'Slong': S('s', 't' * 150), 'Sabs': S('s', '/a'), 'Suni': S('s', '\u00fc'), 'trail': F('a ', b'trailing'),
    'hidden': F('.hidden', b'hidden'), 'dots': F('...', b'dots'), 'a1': COMMON['a1'], 'da': COMMON['da'], 'D': COMMON['D'],
}
SIZES = {f'z{n}': F(f'z{n}', archives.pattern(n, n)) for n in (0, 1, 2, 3, 59, 60, 511, 512, 513, 4095, 4096, 4097, 8192, 40000, 140000)}
SIZES['text'] = F('text', '\u00fc\u20ac <&> \U0001f600'.encode())
SIZES['text2'] = F('text2', '\u20ac'.encode() * 50000)
SIZES['zeros'] = F('zeros', b'\0' * 70000)
SIZES['D'] = D('d')


def read_interleaved(source, tree, where):
    """All files opened at once, read in turns in both orders and then closed in between."""
    for order in (1, -1):
        opened = []
        paths = [p for p in tree if tree[p][-1].kind == stat.S_IFREG and p in view_visible(tree)][::order]
        for path in paths:
            opened.append((path, source.open(source.lookup(path)), tree[path][-1].data, [0]))
        for size in (1, 3, 4096, 200000, *[300_000 for _ in opened[:1]] * (max(len(o[2]) for o in opened) // 300_000 if opened else 0)):
            for path, f, data, position in opened:
                got = f.read(size)
                want = data[position[0]:position[0] + size]
                position[0] += len(want)
                if got != want:
                    raise Violation('interleaved read differs', f'{where} {path!r} {view.short(got)} != {view.short(want)}')
        for path, f, data, _ in opened:
            f.seek(len(data) // 2)
            if f.read() != data[len(data) // 2:]:
                raise Violation('read after seek differs', f'{where} {path!r}')
            f.close()


def view_visible(tree):
    from . import tarwriter
    return set(tarwriter.visible(tree))


ABSENT = ('/x', '/a/x', '/d/x', '/a ', '/A', '/d/e/f/g', '/.', '/b')


def run(ctx, case):
    name, items, how = case
    folder = ctx.tmpdir()
    form = FORMATS[name]
    path = os.path.join(folder, 'x' + form.extension)
    try:
        tree = form.build(items, path)
    except Unsupported:
        ctx.count('unsupported')
        shutil.rmtree(folder)
        return
    where = f'{name} {[(i.kind, i.path) for i in items]}'
    options = {}
    if how == 'fileobject':
        from ratarmountcore.mountsource.factory import open_mount_source
        opened = open(path, 'rb')
        source = open_mount_source(opened, indexFilePath=':memory:', writeIndex=False)
    else:
        source = open_format(name, path, **options)
    with source:
        absent = [p for p in ABSENT if p not in tree and not (p == '/.')]
        view.check_tree(source, tree, where=where, absent=absent, hardRaw=False,
                        versions=name not in ('folder', 'git', 'sqlar', 'sqlar-plain', 'fat'),
                        permMask=form.expectation.get('permMask', 0o7777),
                        mtimeStep=form.expectation.get('mtimeStep', 1), count=ctx.count)
        read_interleaved(source, tree, where)
    ctx.count('transitions', len(items))
    ctx.state(name, items)
    shutil.rmtree(folder)


def run_git(ctx, case):
    """Each commit of a repository shows its own tree and time when it is chosen as reference."""
    from ratarmountcore.mountsource.formats.git import GitMountSource
    import subprocess
    folder = ctx.tmpdir()
    worktree = os.path.join(folder, 'worktree')
    trees = []
    os.mkdir(worktree)
    for n in range(len(case) + 1):
        env = dict(os.environ, GIT_AUTHOR_DATE=f'{1500000000 + n} +0000', GIT_COMMITTER_DATE=f'{1600000000 + n} +0000',
                   GIT_AUTHOR_NAME='n', GIT_AUTHOR_EMAIL='e', GIT_COMMITTER_NAME='n', GIT_COMMITTER_EMAIL='e',
                   GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null')
        archives.write_folder(case[:n], worktree)
        commands = ([['init', '-q', '-b', 'main']] if n == 0 else []) + [
            ['add', '-A'], ['commit', '-q', '--allow-empty', '-m', 'c'], ['branch', f'state{n}']]
        for args in commands:
            subprocess.run(['git', *args], cwd=worktree, env=env, check=True, stdout=subprocess.DEVNULL)
        items = [i for i in case[:n] if i.kind != 'dir']
        last = {}
        for i in items:
            last[archives.norm(i.path)] = i
        trees.append(archives.fold(list(last.values()), mode=False, mtime=False))
    for n, tree in list(enumerate(trees)) + [(len(trees) - 1, trees[-1])]:
        for reference in [f'state{n}'] + ([None, 'main'] if n == len(trees) - 1 else []):
            where = f'git {reference} of {[(i.kind, i.path) for i in case]}'
            with GitMountSource(worktree, reference) as source:
                view.check_tree(source, tree, where=where, absent=[p for p in ABSENT if p not in tree and p != '/.'],
                                versions=False, count=ctx.count)
                for path in tree:
                    if source.lookup(path).mtime != 1600000000 + n:
                        raise Violation('commit time differs', f'{where} {path!r}: {source.lookup(path).mtime}')
            ctx.count('transitions')
    shutil.rmtree(folder)


def run_ogg(ctx, case):
    """The pages of each logical stream are concatenated into one file."""
    pages, how = case
    folder = ctx.tmpdir()
    path = os.path.join(folder, 'x.ogg')
    data, streams = builders.build_ogg(pages)
    with open(path, 'wb') as f:
        f.write(data)
    from ratarmountcore.mountsource.factory import open_mount_source
    where = f'OGG pages {[(s, k, len(d)) for s, k, d in pages]}'
    with open_mount_source(open(path, 'rb') if how == 'fileobject' else path, indexFilePath=':memory:', writeIndex=False) as source:
        tree = {}
        for name, content in streams.items():
            tree[name] = [tarwriter.Entry(stat.S_IFREG, size=len(content), data=content)]
        view.check_tree(source, tree, where=where, absent=('/x', '/audio', '/a/b'), versions=True, count=ctx.count)
        read_interleaved(source, tree, where)
    ctx.count('transitions', len(pages))
    ctx.state('ogg', pages)
    shutil.rmtree(folder)


def run_large(ctx, case):
    """Files larger than all buffers read in turns."""
    run(ctx, (case[0], LARGE[:case[2]], case[1]))


LARGE = tuple(F(f'{n}', archives.pattern(size, n)) for n, size in enumerate((1_200_000, 1_000_001, 150_000, 600_000)))
MEMORY = ['zip', 'zip-deflate', 'ar', 'ar-bsd', 'asar', 'sqlar', 'sqlar-plain', 'cpio', 'rar', 'fat', 'html-double', 'html-single',
          'html-plain', 'html-css', 'html-percent', 'html-crlf', 'html-unicode']
TOOLS = ['squashfs', '7z', 'iso', 'xar', 'folder', 'git', 'pdf', 'ext4', 'indexed-folder']


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    for name in MEMORY + TOOLS:
        cases.append((name, (), 'path'))
        for alphabet in (COMMON, ODD, SIZES):
            items = list(alphabet.values())
            depth = 3 if alphabet is COMMON and name in MEMORY and not name.startswith('html') else 2
            if thorough:
                depth = 4 if alphabet is COMMON and name in MEMORY else 3 if name in MEMORY or alphabet is COMMON else 2
            elif name in TOOLS and alphabet is SIZES and name not in ('folder', 'git'):
                cases += [(name, (i,), 'path') for i in items]
                cases += [(name, tuple(items), 'path'), (name, tuple(items[::-1]), 'path')]
                continue
            elif name in TOOLS and alphabet is ODD:
                depth = 1
            for n in range(1, depth + 1):
                cases += [(name, sequence, 'path') for sequence in itertools.product(items, repeat=n)]
        if name not in ('folder', 'git', 'indexed-folder'):
            cases += [(name, sequence, 'fileobject') for n in (1, 2) for sequence in itertools.product(COMMON.values(), repeat=n)]
    commits = [COMMON[k] for k in ('a1', 'a2', 'b', 'da', 'def', 'Sa', 'Sd')]
    depth = 3 if thorough else 2
    yield [c for n in range(1, depth + 1) for c in itertools.product(commits, repeat=n)], run_git, {'limit': 60}
    yield cases, run, {'limit': 120}
    yield [(name, how, n) for name in FORMATS if name not in ('html-plain', 'html-unicode') for n in ((2, 3, 4) if thorough else (2, 4))
           for how in (('path', 'fileobject') if name not in ('git', 'folder', 'indexed-folder') else ('path',))], run_large, {'limit': 120}
    kinds = {1: 'audio', 2: 'video', 0xfedcba98: 'text', 4: 'unknown'}
    pages = [(s, k, archives.pattern(size, s % 97 + size)) for s, k in kinds.items() for size in (0, 1, 240, 255, 256, 5000)]
    few = [p for p in pages if len(p[2]) in (0, 240, 255) and p[0] != 4]
    cases = [c for n in (1, 2) for c in itertools.product(pages, repeat=n)] + list(itertools.product(few, repeat=3))
    if thorough:
        cases += list(itertools.product(few, repeat=4)) + list(itertools.product(pages, repeat=3))
    yield [(c, how) for c in cases for how in ('path', 'fileobject')], run_ogg, {'limit': 60}
