"""Reference behaviour of a readable, seekable file holding fixed bytes, and comparison with a real file object."""
import io

from .core import Violation


class FileModel:
    """Tracks the position of an in-memory file with the same content.

    Two behaviours that in-memory files and OS files themselves differ in are both accepted and followed:
    a negative seek target is either refused with the position unchanged or moved to the start (BytesIO does the latter
    for relative seeks), and, only when 'lenient' (third party decoders), a seek past the end may stop at the end.
    """

    def __init__(self, data, *, raw=False, lenient=False):
        self.data = data
        self.pos = 0
        self.raw = raw
        self.lenient = lenient

    def apply(self, f, op, trace=''):
        name = op[0]
        size = len(self.data)
        if name == 'seek':
            target = op[1] + {io.SEEK_SET: 0, io.SEEK_CUR: self.pos, io.SEEK_END: size}[op[2]]
            try:
                result = f.seek(op[1], op[2])
            except (ValueError, OSError) as e:
                if target >= 0:
                    raise Violation(f'seek refused', f'{trace}: {op} target {target}: {e!r}') from e
                result = None
            if result is not None:
                if target < 0:
                    allowed = {0}
                elif self.lenient and target > size:
                    allowed = {target, size}
                else:
                    allowed = {target}
                if result not in allowed:
                    raise Violation('seek returned a wrong position', f'{trace}: {op} gave {result}, expected {allowed}')
                self.pos = result
        elif name == 'tell':
            pass
        elif name in ('read', 'readinto', 'readall'):
            if name == 'read':
                n = op[1]
                try:
                    got = f.read(n)
                except Exception as e:
                    raise Violation(f'read failed with {type(e).__name__}', f'{trace}: {op} at {self.pos}: {e!r}') from e
            elif name == 'readall':
                n = -1
                got = f.read()
            else:
                n = op[1]
                buffer = bytearray(b'\xee' * n)
                try:
                    count = f.readinto(buffer)
                except Exception as e:
                    raise Violation(f'readinto failed with {type(e).__name__}', f'{trace}: {op}: {e!r}') from e
                got = bytes(buffer[:count])
                if bytes(buffer[count:]) != b'\xee' * (n - count):
                    raise Violation('readinto wrote past the returned count', f'{trace}: {op}')
            want = self.data[self.pos:] if n < 0 else self.data[self.pos:self.pos + n]
            if got is None:
                raise Violation('read returned None', f'{trace}: {op}')
            got = bytes(got)
            if self.raw and want and n >= 0:
                if not got or want[:len(got)] != got:
                    raise Violation('read returned wrong bytes', f'{trace}: {op} at {self.pos}: {got!r} != {want!r}')
            elif got != want:
                raise Violation('read returned wrong bytes',
                                f'{trace}: {op} at {self.pos}: {got[:64]!r} ({len(got)} B) != {want[:64]!r} ({len(want)} B)')
            self.pos += len(got)
        else:
            raise AssertionError(op)
        told = f.tell()
        if told != self.pos:
            raise Violation('tell differs from the position', f'{trace}: after {op}: {told} != {self.pos}')


def run_sequence(f, data, ops, *, raw=False, lenient=False, others=None, trace=None):
    model = FileModel(data, raw=raw, lenient=lenient)
    trace = trace or repr(ops)
    for op in ops:
        if op[0] == 'other':
            others()
            continue
        model.apply(f, op, trace)
    if others:
        others()
    # What remains must be readable from here.
    rest = b''
    want = data[model.pos:]
    while True:
        part = f.read(-1 if not raw else 1 << 20)
        if not part:
            break
        rest += part
    if rest != want:
        raise Violation('remaining bytes differ', f'{trace}: {rest[:64]!r} ({len(rest)}) != {want[:64]!r} ({len(want)})')
    return model


def seek_ops(size, extra=()):
    """Interesting seeks for a file of the given size."""
    ops = [('seek', n, 0) for n in sorted({0, 1, size // 2, size - 1, size, size + 2, *extra}) if n >= 0]
    ops += [('seek', -1, 0), ('seek', -size - 1, 1), ('seek', -1, 1), ('seek', 1, 1), ('seek', 0, 1)]
    ops += [('seek', 0, 2), ('seek', -1, 2), ('seek', -size, 2), ('seek', -size - 1, 2), ('seek', 2, 2)]
    return list(dict.fromkeys(ops))


def de_bruijn(alphabet, order):
    """A cyclic sequence containing every word of the given length over the alphabet once (plus wrap around)."""
    k = len(alphabet)
    a = [0] * k * order
    sequence = []

    def db(t, p):
        if t > order:
            if order % p == 0:
                sequence.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    sequence += sequence[:order - 1]
    return [alphabet[i] for i in sequence]
