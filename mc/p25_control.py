"""P25: control interface."""
import itertools
import os
import stat
import sys

from . import view
from .archives import F, FORMATS
from .core import Violation

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'Writes arrive in order, as the kernel sends them for one open file description.',
    'With spaces as separators, one trailing newline, as appended by echo, is not part of the command.',
    'Started processes are replaced by a recorder.',
]

COMMAND = '/.ratarmount-control/command'
OUTPUT = '/.ratarmount-control/output'


class Fuse:
    """A mount with control interface whose commands are recorded instead of run."""

    def __init__(self, ctx, paths=(), record=True, **options):
        from ratarmount import FuseMount as module
        self.scratch = ctx.tmpdir()
        self.mountPoint = os.path.join(self.scratch, 'mnt')
        os.mkdir(self.mountPoint)
        self.ran = []
        self.started = []
        outer = self

        class Process:
            def __init__(self, args, **kwargs):
                outer.started.append(list(args))

            def poll(self):
                return 0

            def wait(self, timeout=None):
                return 0

            terminate = kill = poll

        class Recorder:
            Popen = Process
            PIPE = -1

        self.module = module
        self.original = module.subprocess
        module.subprocess = Recorder
        options.setdefault('controlInterface', True)
        self.mount = module.FuseMount(list(paths), self.mountPoint, indexFilePath=':memory:', **options)
        if record:
            self.mount._parse_command = lambda args: self.ran.append(list(args))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.mount._close()
        self.module.subprocess = self.original

    def working(self):
        names = [e if isinstance(e, str) else e[0] for e in self.mount.readdir('/.ratarmount-control', 0)]
        if sorted(names) != ['.', '..', 'command', 'output']:
            raise Violation('control folder differs', repr(names))
        if not stat.S_ISREG(self.mount.getattr(COMMAND)['st_mode']):
            raise Violation('command file has wrong type')


ARGUMENTS = ['a', '-u', 'ü', '--help', '/x y', "q'\"", 'b\nc', '\t', '0']


def parse(data):
    """Definition of a command line. Returns the arguments or None."""
    name = b'ratarmount'
    if data == name:
        return []
    if not data.startswith(name) or data[10:11] not in (b' ', b'\n', b'\0'):
        return None
    rest = data[11:]
    if data[10:11] == b' ' and rest.endswith(b'\n'):
        rest = rest[:-1]
    try:
        return [p.decode() for p in rest.split(data[10:11])]
    except UnicodeDecodeError:
        return None


def commands(thorough):
    result = []
    for n in (1, 2, 3):
        for args in itertools.product(ARGUMENTS if n < 3 else ARGUMENTS[:4], repeat=n):
            for separator in (' ', '\n', '\0'):
                if not any(separator in a for a in args):
                    line = ('ratarmount' + separator + separator.join(args)).encode()
                    result.append(line)
                    if separator == ' ':
                        result.append(line + b'\n')
    result += [b'ratarmount a\n\n', b'ratarmount\na\n\nb', b'ratarmount\0\0a', b'ratarmount', b'ratarmoun', b'Ratarmount a',
               b'ratarmounta b', b'ratarmount\ta', b' ratarmount a', b'\nratarmount a', b'', b'\0', b'x', b'ratarmount-x a',
               b'ratarmount \xff', b'ratarmount\0\xfe\xff', b'rm -rf x', b'ratarmount;a', b'ratarmount\r\na',
               b'a ratarmount b', b'ratarmount ' + b'x' * 5000, b'ratarmount\0' + b'y\0' * 2000 + b'z']
    return result


def splits(data, thorough):
    n = len(data)
    if n <= 15 and (thorough or n <= 13):
        for mask in range(2 ** max(0, n - 1)):
            cuts = [0] + [i for i in range(1, n) if mask >> (i - 1) & 1] + [n]
            yield [data[a:b] for a, b in zip(cuts, cuts[1:])]
        return
    for step in sorted({1, 2, 3, 7, 9, 10, 11, 12, 4096, n}) if n else []:
        if n // step < 600:
            yield [data[i:i + step] for i in range(0, n, step)]
    limit = min(n, 40)
    for a in range(1, limit):
        yield [data[:a], data[a:]]
        for b in range(a + 1, limit, 1 if thorough else 3):
            yield [data[:a], data[a:b], data[b:]]


def one_command(f, pieces, data, where, flush=False):
    mount = f.mount
    f.ran.clear()
    handle = mount.open(COMMAND, os.O_WRONLY)
    mount.truncate(COMMAND, 0)
    offset = 0
    for piece in pieces:
        if mount.write(COMMAND, piece, offset, handle) != len(piece):
            raise Violation('short write', where)
        offset += len(piece)
        if flush:
            mount.flush(COMMAND, handle)
        if f.ran:
            raise Violation('command ran before the file was closed', where)
    mount.flush(COMMAND, handle)
    if f.ran:
        raise Violation('command ran before the file was closed', where)
    failed = False
    try:
        mount.release(COMMAND, handle)
    except Exception:
        failed = True
    want = parse(data)
    if not data:
        if f.ran or failed:
            raise Violation('empty write ran something', where)
    elif want is None:
        if f.ran or not failed:
            raise Violation('something that is no command was not refused', f'{where}: {f.ran}')
    elif f.ran != [want] or failed:
        raise Violation('wrong arguments ran', f'{where}: {f.ran} != {[want]}')
    try:
        mount.release(COMMAND, handle)
        raise Violation('released handle can be released again', where)
    except OSError:
        pass
    if len(f.ran) > 1:
        raise Violation('command ran twice', where)


def command_worker(ctx, case):
    with Fuse(ctx) as f:
        for n, pieces in enumerate(splits(case, ctx.thorough) if case else [[]]):
            one_command(f, pieces, case, f'{case!r} in {len(pieces)} writes', flush=n % 2 == 1)
            ctx.count('transitions', len(pieces) + 3)
            ctx.count('traces')
        f.working()
    ctx.state(case)


def handles_worker(ctx, case):
    """Several open handles: every interleaving of writes and closes."""
    texts = case
    pieces = [[t[:i], t[i:]] for t, i in zip(texts, (7, 12, 3))]
    programs = [[('w', n, p) for p in ps] + [('c', n, b'')] for n, ps in enumerate(pieces)]

    def interleavings(rest):
        if not any(rest):
            yield []
            return
        for i, r in enumerate(rest):
            if r:
                for tail in interleavings([x[1:] if j == i else x for j, x in enumerate(rest)]):
                    yield [r[0]] + tail

    with Fuse(ctx) as f:
        for order in interleavings(programs):
            f.ran.clear()
            handles = [f.mount.open(COMMAND, os.O_WRONLY) for _ in texts]
            offsets = [0] * len(texts)
            want = []
            for op, n, data in order:
                if op == 'w':
                    f.mount.write(COMMAND, data, offsets[n], handles[n])
                    offsets[n] += len(data)
                else:
                    expected = parse(texts[n])
                    try:
                        f.mount.release(COMMAND, handles[n])
                        if expected is None:
                            raise Violation('something that is no command was not refused', repr(case))
                    except ValueError:
                        pass
                    if expected is not None:
                        want.append(expected)
                if f.ran != want:
                    raise Violation('wrong command ran', f'{order}: {f.ran} != {want}')
                ctx.count('transitions')
            ctx.count('traces')
        f.working()
    ctx.state(case)


LOG = ['line\n', 'ü€\n', 'x' * 3000 + '\n', 'partial']


def log_worker(ctx, case):
    """The output file shows what was logged until it was opened, for every order of logging and reading."""
    with Fuse(ctx) as f:
        text = b''
        opened = []
        for n, op in enumerate(case):
            if op in range(len(LOG)):
                f.mount.logFile.write(LOG[op])
                text += LOG[op].encode()
            elif op == 'stat':
                size = f.mount.getattr(OUTPUT)['st_size']
                if size != len(text):
                    raise Violation('size of the output file differs', f'{case} step {n}: {size} != {len(text)}')
            elif op == 'open':
                opened.append((f.mount.open(OUTPUT, os.O_RDONLY), text))
            elif op == 'read':
                for handle, want in opened:
                    for size, offset in ((len(want) + 10, 0), (3, 1), (7, max(0, len(want) - 4)), (5, len(want) + 5)):
                        got = f.mount.read(OUTPUT, size, offset, handle)
                        if got != want[offset:offset + size]:
                            raise Violation('output file differs', f'{case} step {n}: {view.short(got)} != '
                                            f'{view.short(want[offset:offset + size])}')
            elif op == 'write':
                handle = f.mount.open(OUTPUT, os.O_RDWR)
                try:
                    f.mount.write(OUTPUT, b'zzz', 0, handle)
                    raise Violation('output file is writable', repr(case))
                except OSError:
                    pass
                f.mount.release(OUTPUT, handle)
            ctx.count('transitions')
        for handle, _ in opened:
            f.mount.release(OUTPUT, handle)
    ctx.count('traces')
    ctx.state(case)


def real_commands(folder):
    archive = os.path.join(folder, 'x.tar')
    mnt = os.path.join(folder, 'mnt')
    return {
        'extern': ['-d', '3', archive, '/elsewhere/mnt'],
        'extern-f': ['-f', '--recursive', archive, '/elsewhere/mnt'],
        'two': [archive, archive + '2', '/elsewhere/x'],
        'relative-input': ['x.tar', 'sub'],
        'relative-input2': ['x.tar', '/elsewhere/x'],
        'mount': [archive, 'sub'],
        'mount-absolute': [archive, mnt + '/sub'],
        'mount-recursive': ['--recursive', archive, 'sub'],
        'mount-missing': [archive + 'missing', 'sub'],
        'unmount': ['-u', 'sub'],
        'unmount-absolute': ['--unmount', mnt + '/sub'],
        'unmount-extern': ['--unmount', '/elsewhere/a', '/elsewhere/b'],
        'unmount-mixed': ['--unmount', '/elsewhere/a', 'sub', mnt + '/other'],
        'unmount-self': ['--unmount', mnt],
        'help': ['--help'],
        'version': ['--version'],
        'bad': ['--no-such-option'],
        'none': [],
        'url': ['file://' + archive],
        'over-self': [archive, mnt],
        'control': [archive, '.ratarmount-control'],
        'control-file': [archive, '.ratarmount-control/command'],
        'control-abs': [archive, mnt + '/.ratarmount-control/command'],
        'quoted': [archive, "su b'\""],
    }


def real_worker(ctx, case):
    """Sequences of real command lines; the resulting mounts and started processes are the specified ones."""
    with Fuse(ctx, record=False) as f:
        tree = FORMATS['tar'].build([F('f', b'content'), F('d/g', b'inner')], os.path.join(f.scratch, 'x.tar'))
        lines = real_commands(f.scratch)
        mounted = set()
        started = []
        for name, separator in case:
            args = lines[name]
            data = separator.join(['ratarmount'] + args).encode()
            handle = f.mount.open(COMMAND, os.O_WRONLY)
            f.mount.write(COMMAND, data, 0, handle)
            f.mount.release(COMMAND, handle)
            prefix = [sys.executable, '-m', 'ratarmount']
            if name in ('extern', 'extern-f', 'two', 'url', 'over-self'):
                started.append(prefix + args)
            elif name in ('unmount-extern', 'unmount-self'):
                started.append(prefix + args)
            elif name == 'unmount-mixed':
                started.append(prefix + ['--unmount', '/elsewhere/a'])
                mounted.discard('sub')
            elif name in ('mount', 'mount-absolute', 'mount-recursive'):
                mounted.add('sub')
            elif name == 'quoted':
                if separator != ' ':
                    mounted.add(args[-1])
                else:
                    # The separator splits the last argument: '<archive> su b..' has the relative input 'su'.
                    pass
            elif name in ('unmount', 'unmount-absolute'):
                mounted.discard('sub')
            if f.started != started:
                raise Violation('wrong process started', f'{case} {name}: {f.started} != {started}')
            names = [e if isinstance(e, str) else e[0] for e in f.mount.readdir('/', 0)]
            if sorted(names) != sorted({'.', '..', '.ratarmount-control'} | mounted):
                raise Violation('mounted paths differ', f'{case} {name}: {names} {mounted}')
            for m in mounted:
                handle = f.mount.open(f'/{m}/d/g', os.O_RDONLY)
                if f.mount.read(f'/{m}/d/g', 100, 0, handle) != b'inner':
                    raise Violation('content differs', f'{case} {m}')
                f.mount.release(f'/{m}/d/g', handle)
            f.working()
            ctx.count('transitions')
    ctx.state(case)
    ctx.count('traces')


def presence_worker(ctx, case):
    """The control folder exists only when requested and hides nothing else."""
    control, kind, disable, versions = case
    scratch = ctx.tmpdir()
    items = {'plain': [F('f', b'x')], 'own': [F('.ratarmount-control/mine', b'own'), F('f', b'x')],
             'prefix': [F('.ratarmount-control2', b'p'), F('command', b'c')], 'file': [F('.ratarmount-contro', b'o')]}[kind]
    paths = []
    for n in range(1 + disable):
        paths.append(os.path.join(scratch, f'{n}.tar'))
        tree = FORMATS['tar'].build(items, paths[-1])
    with Fuse(ctx, paths, controlInterface=control, disableUnionMount=disable, enableFileVersions=versions) as f:
        prefixes = [''] if not disable else ['/0.tar', '/1.tar']
        for prefix in prefixes:
            for path, entries in tree.items():
                attributes = f.mount.getattr(prefix + path)
                if stat.S_IFMT(attributes['st_mode']) != entries[-1].kind:
                    raise Violation('type differs', f'{case} {path}')
                if entries[-1].kind == stat.S_IFREG:
                    handle = f.mount.open(prefix + path, os.O_RDONLY)
                    if f.mount.read(prefix + path, 10, 0, handle) != entries[-1].data:
                        raise Violation('content differs', f'{case} {path}')
                    try:
                        f.mount.write(prefix + path, b'ratarmount x', 0, handle)
                        raise Violation('read-only file written', f'{case} {path}')
                    except OSError:
                        pass
                    try:
                        f.mount.truncate(prefix + path, 0)
                        if not path.startswith('/.ratarmount-control/') or not control:
                            raise Violation('read-only file truncated', f'{case} {path}')
                    except OSError:
                        pass
                    f.mount.release(prefix + path, handle)
        names = {e if isinstance(e, str) else e[0] for e in f.mount.readdir('/', 0)} - {'.', '..'}
        want = {'0.tar', '1.tar'} if disable else {p.split('/')[1] for p in tree}
        if control:
            want.add('.ratarmount-control')
            inside = {e if isinstance(e, str) else e[0] for e in f.mount.readdir('/.ratarmount-control', 0)} - {'.', '..'}
            expected = {'command', 'output'} | ({'mine'} if kind == 'own' and not disable else set())
            if inside != expected:
                raise Violation('control folder differs', f'{case}: {inside}')
            one_command(f, [b'ratarmount', b' a'], b'ratarmount a', repr(case))
        elif kind != 'own' or disable:
            for path in (COMMAND, OUTPUT, '/.ratarmount-control'):
                try:
                    f.mount.getattr(path)
                    raise Violation('control folder exists without request', repr(case))
                except OSError:
                    pass
        if names != want:
            raise Violation('root listing differs', f'{case}: {names} != {want}')
        if f.ran and not control:
            raise Violation('command ran', repr(case))
    ctx.state(case)
    ctx.count('traces')


def stages(tier):
    thorough = tier == 'thorough'
    yield commands(thorough), command_worker, {'limit': 120}
    texts = [b'ratarmount a b', b'ratarmount\0c', b'ratarmount\nd\ne', b'no command']
    yield list(itertools.product(texts, repeat=2)) + list(itertools.product(texts, repeat=3)), handles_worker, {'limit': 120}
    ops = list(range(len(LOG))) + ['stat', 'open', 'read', 'write']
    yield [c for n in range(1, 6 if thorough else 5) for c in itertools.product(ops, repeat=n)
           if any(isinstance(o, str) for o in c)], log_worker, {'limit': 60}
    names = list(real_commands('/x'))
    steps = [(n, s) for n in names for s in (' ', '\0', '\n')]
    basic = [(n, '\0') for n in names]
    cases = [(s,) for s in steps] + list(itertools.product(basic, repeat=2))
    core = [(n, '\0') for n in ('mount', 'unmount', 'mount-absolute', 'unmount-absolute', 'unmount-mixed', 'bad', 'extern')]
    cases += list(itertools.product(core, repeat=3)) + (list(itertools.product(core, repeat=4)) if thorough else [])
    yield cases, real_worker, {'limit': 60}
    yield list(itertools.product((True, False), ('plain', 'own', 'prefix', 'file'), (False, True), (True, False))), \
        presence_worker, {'limit': 60}
