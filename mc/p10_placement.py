"""P10: mounting only creates what the index placement options say and changes nothing else."""
import gzip
import hashlib
import itertools
import os
import shutil
import sqlite3
import stat

from . import archives, builders, view
from .archives import F, D, S
from .core import Violation, rmtree
from .p07_index import mount, view_of

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'The process runs as root, so that locations that cannot be written to are ones below regular files or below /dev/null.',
    'Times of folders and access times are not compared.',
]
T = 1_400_000_000
ITEMS = [F('a', b'first a', 0o600), D('d', 0o711), *[F(f'd/{i}', archives.pattern(300 + i, i)) for i in range(6)], S('s', 'a')]
FLAT = [F('a', b'first a'), F('b', archives.pattern(700, 3))]
OTHER = [F('x', b'other archive'), F('y', archives.pattern(2_000, 4)), F('z', archives.pattern(20_000, 4))]
INDEXED = ['tar', 'tar.gz', 'tar.bz2', 'tar.zst', 'zip', 'ar', 'squashfs', 'html-double', 'single-gz', 'tar-big']
UNINDEXED = ['sqlar', 'sqlar-wal', '7z', 'iso', 'ext4', 'broken-tar', 'broken-zip', 'text', 'broken-gz']
KINDS = INDEXED + UNINDEXED
STATES = ['absent', 'valid', 'stale', 'text', 'database', 'empty', 'zeros', 'folder', 'gz', 'foreign-gz', 'dangling', 'link-text', 'link-valid', 'torn',
          'archive', 'link-archive', 'sqlar']
PLACES = {
    'beside': ['beside'], 'c1': ['c1'], 'beside,c1': ['beside', 'c1'], 'c1,beside': ['c1', 'beside'], 'c1,c2': ['c1', 'c2'], 'bad,c1': ['bad', 'c1'],
    'bad': ['bad'], 'default': ['beside', 'xdg', 'home'], 'explicit': ['explicit'], 'explicit-new': ['explicit-new'], 'explicit-bad': ['explicit-bad'],
    'memory': [],
}
FLAGS = ['', 'readonly', 'nowrite', 'clear', 'threshold', 'verify', 'clear-threshold']
BUILT = {}


def is_indexed(kind):
    return kind in INDEXED


def build(kind, items, path):
    key = kind, len(items)
    if key not in BUILT:
        if kind in ('sqlar-wal', 'broken-tar', 'broken-zip'):
            base = {'sqlar-wal': 'sqlar', 'broken-tar': 'tar', 'broken-zip': 'zip'}[kind]
            archives.FORMATS[base].build(items, path)
            if kind == 'sqlar-wal':
                connection = sqlite3.connect(path)
                connection.executescript('PRAGMA JOURNAL_MODE = WAL; UPDATE sqlar SET mtime = mtime;')
                connection.close()
            else:
                with open(path, 'rb') as f:
                    data = f.read()
                with open(path, 'wb') as f:  # 'broken-tar' ends inside of a header, 'broken-zip' has no directory
                    f.write(data[:512 * 3 + 100] if kind == 'broken-tar' else data[:len(data) // 2])
        elif kind == 'single-gz':
            with open(path, 'wb') as f:
                f.write(archives.compress(b''.join(i.data for i in items if i.kind == 'file'), 'gz'))
        elif kind == 'broken-gz':
            with open(path, 'wb') as f:
                f.write(archives.compress(archives.build_tar(items), 'gz')[:150])
        elif kind == 'text':
            with open(path, 'wb') as f:
                f.write(b'This is no archive ' * 100)
        elif kind == 'tar-big':
            with open(path, 'wb') as f:
                f.write(archives.build_tar([F(f'f{i:04}', b'') for i in range(1100)] if len(items) != len(OTHER) else OTHER))
        else:
            if kind in ('ar', 'html-double'):
                items = [F(i.path.replace('/', '-'), i.data) for i in items if i.kind == 'file']
            archives.FORMATS[kind].build(items, path)
        with open(path, 'rb') as f:
            BUILT[key] = f.read()
    with open(path, 'wb') as f:
        f.write(BUILT[key])
    os.utime(path, (T, T))


EXTENSION = {'single-gz': '.gz', 'sqlar-wal': '.sqlar', 'broken-tar': '.tar', 'broken-zip': '.zip', 'text': '.txt', 'tar-big': '.tar', 'broken-gz': '.tar.gz'}


def extension_of(kind):
    return EXTENSION.get(kind) or archives.FORMATS[kind].extension


def snapshot(root):
    result = {}
    for folder, folders, files in os.walk(root):
        for name in folders + files:
            path = os.path.join(folder, name)
            s = os.lstat(path)
            relative = os.path.relpath(path, root)
            if stat.S_ISDIR(s.st_mode):
                result[relative] = ('folder', s.st_mode)
            elif stat.S_ISLNK(s.st_mode):
                result[relative] = ('link', os.readlink(path))
            else:
                with open(path, 'rb') as f:
                    result[relative] = ('file', s.st_mode, s.st_mtime_ns, s.st_ino, s.st_size, hashlib.sha1(f.read()).hexdigest())
    return result


def look(kind, path, **options):
    try:
        with mount('tar', path, **options) as source:
            return view_of(source)
    except Violation:
        raise
    except Exception as e:
        return type(e).__name__


INDEXES = {}


def index_of(ctx, kind, path, items, folder):
    """The bytes of an index written for the given archive"""
    key = kind, len(items)
    if key not in INDEXES:
        scratch = os.path.join(folder, 'scratch')
        os.mkdir(scratch)
        archive = os.path.join(scratch, 'archive' + extension_of(kind))
        build(kind, items, archive)
        look(kind, archive, indexFilePath=os.path.join(scratch, 'index'), writeIndex=True)
        with open(os.path.join(scratch, 'index'), 'rb') as f:
            INDEXES[key] = f.read()
        rmtree(scratch)
    return INDEXES[key]


def put(state, target, kind, archive, ctx, world, folder):
    """Creates the given state. Returns (is it foreign, can it be used, may it be replaced)"""
    if state == 'absent':
        return
    os.makedirs(os.path.dirname(target), exist_ok=True)
    indexKind = kind if is_indexed(kind) else 'tar'
    content = None
    if state in ('valid', 'torn'):
        content = index_of(ctx, indexKind, archive, ITEMS, folder)
        if state == 'torn':
            content = content[:len(content) // 2]
    elif state == 'stale':
        content = index_of(ctx, indexKind, archive, OTHER, folder)
    elif state == 'text':
        content = b'Some precious text\n' * 200
    elif state == 'archive':
        content = archives.build_tar([F('precious', b'data')])
    elif state == 'empty':
        content = b''
    elif state == 'zeros':
        content = b'\0' * (1 << 20)
    elif state == 'foreign-gz':
        content = gzip.compress(b'precious ' * 100)
    elif state in ('database', 'sqlar'):
        connection = sqlite3.connect(target)
        connection.executescript('CREATE TABLE precious (a INTEGER); INSERT INTO precious VALUES (42);' if state == 'database' else
                                 'CREATE TABLE sqlar(name TEXT PRIMARY KEY, mode INT, mtime INT, sz INT, data BLOB); INSERT INTO sqlar VALUES ("a", 33188, 1, 1, "a");'
                                 .replace('"', "'"))
        connection.close()
    elif state == 'folder':
        os.makedirs(os.path.join(target, 'inside'))
    elif state == 'dangling':
        os.symlink(os.path.join(world, 'elsewhere', 'missing'), target)
    elif state == 'link-text':
        os.symlink(os.path.join(world, 'elsewhere', 'text'), target)
    elif state == 'link-archive':
        os.symlink(archive, target)
    elif state == 'link-valid':
        with open(os.path.join(world, 'elsewhere', 'index'), 'wb') as f:
            f.write(index_of(ctx, indexKind, archive, ITEMS, folder))
        os.symlink(os.path.join(world, 'elsewhere', 'index'), target)
    elif state == 'gz':
        with open(target + ('.gz' if target.endswith('.sqlite') and os.path.dirname(target) == os.path.dirname(archive) else ''), 'wb') as f:
            f.write(gzip.compress(index_of(ctx, indexKind, archive, ITEMS, folder)))
    if content is not None:
        with open(target, 'wb') as f:
            f.write(content)


USED = ('valid', 'gz', 'link-valid')
INDEXLIKE = ('valid', 'stale', 'gz', 'torn', 'empty', 'zeros')
FREE = ('absent', 'stale', 'torn', 'empty', 'zeros', 'dangling')


def run(ctx, case):
    kind, place, states, flag = case
    folder = ctx.tmpdir()
    world = os.path.join(folder, 'world')
    for name in ('in', 'elsewhere', 'home/.cache', 'tmp', 'cwd'):
        os.makedirs(os.path.join(world, name))
    archive = os.path.join(world, 'in', 'archive' + extension_of(kind))
    build(kind, ITEMS, archive)
    for name in ('in/neighbour.index.sqlite', 'elsewhere/text', 'in/archive', 'cwd/index.sqlite', 'bad', 'tmp/other'):
        with open(os.path.join(world, name), 'w') as f:
            f.write('foreign ' + name)
    flat = (archive + '.index.sqlite').replace('/', '_')
    locations = {
        'beside': archive + '.index.sqlite', 'c1': os.path.join(world, 'c1', flat), 'c2': os.path.join(world, 'deep', 'er', 'c2', flat),
        'bad': os.path.join(world, 'bad', 'below', flat), 'xdg': os.path.join(world, 'home', '.cache', 'ratarmount', flat),
        'home': os.path.join(world, 'home', '.ratarmount', flat), 'explicit': os.path.join(world, 'elsewhere', 'an index'),
        'explicit-new': os.path.join(world, 'new', 'er', 'index'), 'explicit-bad': os.path.join(world, 'bad', 'index'),
    }
    candidates = PLACES[place]
    folders = {'beside': '', 'c1': os.path.dirname(locations['c1']), 'c2': os.path.dirname(locations['c2']), 'bad': os.path.dirname(locations['bad'])}
    if place == 'memory':
        options = {'indexFilePath': ':memory:'}
    elif place.startswith('explicit'):
        options = {'indexFilePath': locations[place]}
    elif place == 'default':
        options = {}
    else:
        options = {'indexFolders': [folders[c] for c in candidates]}
    options['writeIndex'] = flag not in ('nowrite', 'readonly')
    options['indexMinimumFileCount'] = 1000 if 'threshold' in flag else 0
    options['clearIndexCache'] = 'clear' in flag
    options['readOnlyIndex'] = flag == 'readonly'
    options['verifyModificationTime'] = flag == 'verify'

    saved = {name: os.environ.get(name) for name in ('HOME', 'TMPDIR', 'XDG_CACHE_HOME')}
    cwd = os.getcwd()
    import tempfile
    os.environ.update(HOME=os.path.join(world, 'home'), TMPDIR=os.path.join(world, 'tmp'), XDG_CACHE_HOME=os.path.join(world, 'home', '.cache'))
    tempfile.tempdir = None
    os.chdir(os.path.join(world, 'cwd'))
    try:
        expected = look(kind, archive, indexFilePath=':memory:')
        states = dict(zip(candidates, states))
        for candidate, state in states.items():
            if 'bad' not in candidate:
                put(state, locations[candidate], kind, archive, ctx, world, folder)
        before = snapshot(world)
        got = look(kind, archive, **options)
        after = snapshot(world)
        check(ctx, case, world, archive, candidates, states, locations, options, before, after, got, expected)
        if flag != 'readonly' and is_indexed(kind):
            again = look(kind, archive, **dict(options, clearIndexCache=False))
            last = snapshot(world)
            if again != got:
                raise Violation('second mount differs', f'{case}: {again if isinstance(again, str) else view.diff(again, got)}')
            if differences := changes(after, last):
                raise Violation('second mount changed files', f'{case}: {differences}')
        ctx.count('transitions', 3)
        ctx.state(case)
        ctx.count('traces')
        ctx.sample({'archive': kind, 'placement': place, 'present': states, 'flag': flag, 'changes': [str(c) for c in changes(before, after)]})
    finally:
        os.chdir(cwd)
        for name, value in saved.items():
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value
        tempfile.tempdir = None
        rmtree(folder)


def changes(before, after):
    result = []
    for path in sorted(before.keys() | after.keys()):
        if before.get(path) != after.get(path):
            result.append(('removed' if path not in after else 'created' if path not in before else 'changed', path))
    return result


def check(ctx, case, world, archive, candidates, states, locations, options, before, after, got, expected):
    kind, place, _, flag = case
    differences = changes(before, after)
    relative = {c: os.path.relpath(locations[c], world) for c in candidates}

    def fail(what):
        raise Violation(what, f'{case}: {differences}, view: {got if isinstance(got, str) else "same" if got == expected else view.diff(got, expected) if not isinstance(expected, str) else "more"}')

    if not is_indexed(kind) or not candidates or flag == 'readonly':
        # Index-like files may be removed because of an explicit request or because they do not fit.
        allowed = set()
        if flag != 'readonly':
            allowed = {relative[c] for c in candidates if states[c] in INDEXLIKE or states[c] == 'link-valid'} | {relative[c] + '.gz' for c in candidates if states[c] == 'gz'}
        if any(path not in allowed and not (what == 'created' and os.path.join(world, path) in possible_folders(candidates, locations)
                                            and flag != 'readonly') for what, path in differences):
            # An archive for which the index creation failed may leave its index behind
            if not (kind.startswith('broken') and flag not in ('readonly', 'nowrite') and all(p in relative.values() or p == 'elsewhere/missing' and 'dangling' in states.values() for w, p in differences if w == 'created' and after[p][0] == 'file')
                    and not any(w == 'changed' and p not in allowed for w, p in differences)):
                fail('files changed by a mount that should not change any')
        # Even broken archives might be opened before their index can not be stored anywhere.
        if flag != 'readonly' and got != expected and not kind.startswith('broken') and not any(states[c] not in ('absent', 'stale') for c in candidates):
            fail('view differs')
        return

    # Which index is used?
    used = None
    removable = set()
    for c in candidates:
        if 'bad' in c:
            continue
        state = states[c]
        names = {relative[c], relative[c] + '.gz'}
        if options['clearIndexCache']:
            if state in INDEXLIKE:
                removable |= names
            if state == 'link-valid':
                removable |= {relative[c], 'elsewhere/index'}
            continue
        if state in USED:
            used = c
            break
        if state in INDEXLIKE:
            removable |= names
    # Indexes with seek points are written for all compressed archives.
    large = kind == 'tar-big' or kind.endswith(('gz', 'bz2', 'zst'))
    create = used is None and options['writeIndex'] and (large or not options['indexMinimumFileCount'] or place.startswith('explicit'))
    target = None
    if create:
        for c in candidates:
            if 'bad' in c:
                continue
            state = states[c]
            if state in FREE or options['clearIndexCache'] and state in ('valid', 'gz', 'link-valid'):
                target = c
                break
    # Links to nothing are followed.
    targetPath = target and ('elsewhere/missing' if states[target] == 'dangling' else relative[target])
    folders = possible_folders(candidates, locations)
    for what, path in differences:
        if what == 'created' and after[path][0] == 'folder':
            if os.path.join(world, path) not in folders or not options['writeIndex']:
                fail('stray folder created')
        elif what == 'removed':
            if path not in removable:
                fail('file removed')
        elif target and path == targetPath:
            if what == 'changed' and path not in removable:
                fail('file replaced')
        elif what == 'changed' and path in removable and create and after[path][0] == 'file':
            fail('other index location written to')
        else:
            fail('file ' + what)
    if target:
        if targetPath not in after or after[targetPath][0] != 'file' or not after[targetPath][4]:
            fail('index was not stored at the first usable location')
    if used and used in candidates and any(w != 'removed' for w, p in differences):
        fail('something was written although there is an index')
    # Mounting fails only if there is no place for the index at all.
    if got != expected and not (create and target is None):
        fail('view differs')
    ctx.count('created' if target else 'used' if used else 'in memory' if got == expected else 'refused')


def possible_folders(candidates, locations):
    result = set()
    for c in candidates:
        path = os.path.dirname(locations[c])
        while len(path) > 1:
            result.add(path)
            path = os.path.dirname(path)
    return result


def stages(tier):
    thorough = tier == 'thorough'
    cases = []
    for kind in KINDS:
        for place, candidates in PLACES.items():
            for flag in FLAGS:
                if kind == 'tar-big' and 'threshold' not in flag:
                    continue
                real = [c for c in candidates if 'bad' not in c]
                if not real:
                    choices = [tuple('absent' for _ in candidates)]
                elif len(real) == 1:
                    choices = [tuple(s if 'bad' not in c else 'absent' for c in candidates) for s in STATES]
                else:
                    choices = [(a, b, *('absent' for _ in real[2:])) for a in STATES for b in (STATES if thorough else ('absent', 'valid', 'text'))]
                    if len(real) > 2:
                        choices += [('absent', 'text', 'valid'), ('text', 'text', 'absent'), ('absent', 'absent', 'valid'), ('stale', 'stale', 'stale')]
                if not thorough and kind not in ('tar', 'tar.gz', 'zip') or not thorough and len(real) > 1:
                    step = 5 if is_indexed(kind) else 9
                    choices = choices[(len(cases) + len(flag)) % min(step, len(choices))::step]
                for c in choices:
                    if 'gz' in c and place == 'default':
                        continue
                    cases.append((kind, place, c, flag))
    yield cases, run, {'limit': 60}
