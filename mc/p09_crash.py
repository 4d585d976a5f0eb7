"""P09: the process dies at any point while it writes an index."""
import os
import shutil

from . import archives, crash, tarwriter, view
from .archives import F, D, S
from .core import Violation, rmtree
from .p07_index import mount, view_of
from .p08_stale import T, base_parts, appended_members, build_anew, encode_all, light_view, sparse_write

crash.ensure_preloaded()

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'The process dies between or inside of its own system calls; what it gave to the kernel before stays (no power loss).',
    'Data given to a single write may be written partially, as on every file system.',
]
HASHES = {'hashes': ['crc32', 'md5']}
# Enough long names for a database of several levels.
MEMBERS = [F('a', b'first a', 0o600), D('d', 0o711), *[F(f'd/{i:02}' + 'n' * 90, archives.pattern(300 + i, i)) for i in range(45)],
           F('implied/x/y', b'implied'), S('s', 'a'), F('a', b'second a')]
FEW = MEMBERS[:5]


def write_state(scenario, state, path):
    """state 0 is the archive before, 1 that when the index is written, 2 a later one"""
    kind, operation = scenario[:2]
    if operation == 'append':
        members = [] if state == 0 else appended_members(('new', 'implied', 'replace', 'xattr'))
        if state == 2:
            members += appended_members(('dir', 'empty', 'replace', 'implied'))
        sparse_write(path, [*base_parts('first', None, ''), encode_all(members), b'\0' * 1024])
    else:
        items = (MEMBERS if operation != 'stale' or state else FEW)
        if state == 2:
            items = [F('b', b'new file'), *items[1:30], *items[2:20:2], F('last', archives.pattern(77_777, 7))]
        if kind == 'html-double':
            items = [i for i in items if i.kind == 'file'][::4]
        if kind == 'ar':
            items = [F(i.path.replace('/', '-'), i.data) for i in items if i.kind == 'file']
        archives.FORMATS[kind].build(items, path)
    os.utime(path, (T + state, T + state))


def options_of(scenario, folder):
    _, operation, place, variant = scenario
    options = {'beside': {'indexFolders': [''], 'indexMinimumFileCount': 0}, 'folder': {'indexFolders': [os.path.join(folder, 'c', 'cache')], 'indexMinimumFileCount': 0},
               'explicit': {'indexFilePath': os.path.join(folder, 'index')}, 'threshold': {'indexFolders': [''], 'indexMinimumFileCount': 30}}[place]
    return dict(options, writeIndex=True, **(HASHES if variant == 'hashes' else {}))


def look(scenario, path, **options):
    light = scenario[1] == 'append'
    try:
        with mount(scenario[0], path, **options) as source:
            return light_view(source) if light else view_of(source)
    except Violation:
        raise
    except Exception as e:
        return type(e).__name__


EXPECTED = {}


def copy_tree(source, target):
    """Archives are only read, so that they are linked."""
    shutil.copytree(source, target, copy_function=lambda a, b: (os.link if os.path.basename(a).startswith('archive') and 'sqlite' not in a else shutil.copy2)(a, b))


def run(ctx, case):
    scenario, share, shares, torn = case
    kind, operation, place, variant = scenario
    folder = ctx.tmpdir()
    extension = archives.FORMATS[kind].extension
    folders = 0

    def prepare():
        nonlocal folders
        folders += 1
        new = os.path.join(folder, str(folders))
        copy_tree(start, new)
        return new, os.path.join(new, 'archive' + extension), options_of(scenario, new)

    start = os.path.join(folder, 'start')
    os.mkdir(start)
    path = os.path.join(start, 'archive' + extension)
    # Built only once because some times may be those of the build.
    later = os.path.join(folder, 'later' + extension)
    write_state(scenario, 2, later)
    expectedLater = look(scenario, later, indexFilePath=':memory:', **(HASHES if variant == 'hashes' else {}))
    if operation in ('stale', 'append', 'rehash', 'compressed'):
        write_state(scenario, 0, path)
        first = dict(options_of(scenario, start))
        if operation == 'rehash':
            first.pop('hashes')
        look(scenario, path, **first)
    if operation in ('stale', 'append') or operation == 'create':
        write_state(scenario, 1, path)
    if operation == 'compressed':
        index = path + '.index.sqlite'
        with open(index, 'rb') as f, open(index + '.gz', 'wb') as g:
            g.write(archives.compress(f.read(), 'gz'))
        os.unlink(index)
    expected = look(scenario, path, indexFilePath=':memory:', **(HASHES if variant == 'hashes' else {}))
    temporary = os.path.join(folder, 'tmp')
    os.mkdir(temporary)

    def child(archive, options):
        def perform(arm):
            os.environ['RATARMOUNT_INDEX_TMPDIR'] = temporary
            arm()
            result = look(scenario, archive, **options)
            crash.library().crash_disarm()
            return result
        return perform

    copy, archive, options = prepare()
    state, (kinds, result) = crash.run_child(child(archive, options))
    assert state == 'done'
    if result != expected:
        raise Violation('mount that writes the index differs', f'{scenario}: {view.short(result) if isinstance(result, str) else view.diff(result, expected)}')
    if not kinds:
        raise Violation('nothing was written', str(scenario))
    rmtree(copy)

    def check(got, want, what, n, part):
        ctx.count('transitions')
        if got != want:
            difference = got if isinstance(got, str) or isinstance(want, str) else view.diff(got, want)
            raise Violation(what, f'{scenario} stopped at change {n} ({kinds[n:n + 1].decode()}) of {len(kinds)}, partially {part}: {difference}')

    for number, (n, part) in enumerate(crash.points(kinds, torn)):
        if number % shares != share:
            continue
        copy, archive, options = prepare()
        state, result = crash.run_child(child(archive, options), n, part)
        for name in os.listdir(temporary):
            os.unlink(os.path.join(temporary, name))
        if state != 'crashed':
            rmtree(copy)
            continue
        second = copy + '-changed'
        copy_tree(copy, second)
        # Only existing indexes: the index may be refused
        readOnly = look(scenario, archive, **dict(options, writeIndex=False, readOnlyIndex=True))
        if not isinstance(readOnly, str) and operation not in ('stale', 'append') and variant != 'hashes':
            check(readOnly, expected, 'partial index used read-only', n, part)
        check(look(scenario, archive, **options), expected, 'wrong view after a crash', n, part)
        if ctx.thorough or not part:
            check(look(scenario, archive, **options), expected, 'wrong view at the second mount after a crash', n, part)
        # The archive changes after the crash. Indexes with explicit locations move along.
        changed = os.path.join(second, 'archive' + extension)
        os.unlink(changed)
        os.link(later, changed)
        options = options_of(scenario, second)
        if place == 'folder':
            old = os.path.join(second, 'c', 'cache')
            for name in os.listdir(old) if os.path.isdir(old) else ():
                new = changed + '.index.sqlite' + ('-journal' if name.endswith('-journal') else '')
                os.rename(os.path.join(old, name), os.path.join(old, new.replace('/', '_')))
        check(look(scenario, changed, **options), expectedLater, 'stale index after a crash', n, part)
        if ctx.thorough:
            check(look(scenario, changed, **options), expectedLater, 'stale index at the second mount after a crash', n, part)
        ctx.state(scenario, n, part)
        ctx.count('traces')
        rmtree(copy)
        rmtree(second)
    ctx.sample({'scenario': scenario, 'crash points': len(kinds)})
    ctx.count('crash points', len(kinds) // shares)
    rmtree(folder)


def stages(tier):
    thorough = tier == 'thorough'
    scenarios = [('tar', 'create', 'folder', 'hashes'), ('tar.gz', 'create', 'beside', ''), ('zip', 'create', 'threshold', ''), ('ar', 'create', 'explicit', ''),
                 ('zip', 'stale', 'explicit', ''), ('zip', 'rehash', 'beside', 'hashes'), ('tar', 'rehash', 'explicit', 'hashes'),
                 ('tar', 'append', 'explicit', ''), ('tar', 'compressed', 'beside', '')]
    if thorough:
        scenarios += [('tar', 'create', 'beside', ''), ('tar', 'create', 'folder', 'hashes'), ('tar.gz', 'create', 'beside', ''), ('tar.bz2', 'create', 'explicit', ''),
                      ('zip', 'create', 'beside', 'hashes'), ('zip', 'create', 'explicit', ''), ('ar', 'create', 'beside', ''), ('html-double', 'create', 'beside', ''),
                      ('tar', 'create', 'threshold', 'hashes'), ('zip', 'create', 'threshold', ''), ('tar', 'stale', 'beside', ''), ('zip', 'stale', 'explicit', 'hashes'),
                      ('tar', 'rehash', 'beside', 'hashes'), ('zip', 'rehash', 'beside', 'hashes'), ('tar.gz', 'rehash', 'explicit', 'hashes'),
                      ('tar', 'append', 'beside', ''), ('tar', 'append', 'explicit', 'hashes'), ('tar', 'compressed', 'beside', '')]
        scenarios += [(k, 'create', p, v) for k in ('tar', 'tar.gz', 'tar.bz2', 'tar.xz', 'tar.zst', 'zip', 'ar', 'asar', 'squashfs', 'html-double')
                      for p in ('beside', 'folder', 'explicit', 'threshold') for v in ('', 'hashes')]
        scenarios += [(k, o, p, 'hashes') for k in ('tar', 'tar.gz', 'tar.bz2', 'tar.zst', 'zip', 'ar', 'squashfs') for o in ('stale', 'rehash')
                      for p in ('beside', 'folder', 'explicit')]
        scenarios += [('tar', 'append', p, v) for p in ('beside', 'folder', 'explicit') for v in ('', 'hashes')]
        scenarios = list(dict.fromkeys(scenarios))
    shares = 24 if thorough else 8
    yield [(s, i, shares, 'all' if thorough else True) for s in scenarios for i in range(shares)], run, {'limit': 900}
