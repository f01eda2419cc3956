# Stands in for the SWIG module: the same class, with a process that runs the real library at the other end of a pipe.
# Text goes in as UTF-8 and comes out decoded with surrogateescape, as SWIG's std_string.i does it.
import os
import struct
import subprocess

_proc = None


def _start():
    global _proc
    if _proc is None:
        _proc = subprocess.Popen([os.environ['VF_PYLIB'], '/dev/stdin', '/dev/stdout'], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE)
    return _proc


def _call(*fields):
    """Sends one request and returns the fields of the response, as bytes."""
    p = _start()
    out = [struct.pack('<I', len(fields))]
    for f in fields:
        if isinstance(f, str):
            f = f.encode('utf-8')
        out.append(struct.pack('<I', len(f)) + f)
    p.stdin.write(b''.join(out))
    p.stdin.flush()

    def read(n):
        b = p.stdout.read(n)
        if len(b) != n:
            raise SystemExit('the library ended: status %s' % p.wait())
        return b
    (n,) = struct.unpack('<I', read(4))
    r = [read(struct.unpack('<I', read(4))[0]) for _ in range(n)]
    if r[0] == b'throw':
        raise {b'ValueError': ValueError, b'IndexError': IndexError}.get(r[1], RuntimeError)(r[2].decode('utf-8', 'surrogateescape'))
    if r[0] == b'unknown op':
        raise TypeError('no such function: %r' % (fields[0],))
    return r


def _text(b):
    return b.decode('utf-8', 'surrogateescape')


def _strings(*a):
    for x in a:
        if not isinstance(x, str):
            raise TypeError("argument of type 'std::string const &'")
    return a


class V3xAnalyzer(object):
    def __init__(self, *args):
        if len(args) > 2:
            raise TypeError("Wrong number or type of arguments for overloaded function 'new_V3xAnalyzer'.")
        self._id = _text(_call('new', *([_strings(args[0])[0]] if args else []), *(['1' if args[1] else '0'] if len(args) > 1 else []))[1])

    def __del__(self):
        if _proc is not None and _proc.poll() is None and hasattr(self, '_id'):
            _call('del', self._id)

    def register_instruction(self, name, param_types):
        _call('register_instruction', self._id, name, '-' if param_types is None else '+' + param_types)

    @staticmethod
    def parse_file(file_name):
        return tuple(_text(s) for s in _call('parse_file', *_strings(file_name))[1:])

    @staticmethod
    def parse_file_to_json(file_name):
        return _text(_call('parse_file_to_json', *_strings(file_name))[1])

    @staticmethod
    def parse_string(data, *file_name):
        return tuple(_text(s) for s in _call('parse_string', *_strings(data, *file_name))[1:])

    @staticmethod
    def parse_string_to_json(data, *file_name):
        return _text(_call('parse_string_to_json', *_strings(data, *file_name))[1])

    def analyze_file(self, file_name):
        return tuple(_text(s) for s in _call('analyze_file', self._id, *_strings(file_name))[1:])

    def analyze_file_to_json(self, file_name):
        return _text(_call('analyze_file_to_json', self._id, *_strings(file_name))[1])

    def analyze_string(self, data, *file_name):
        return tuple(_text(s) for s in _call('analyze_string', self._id, *_strings(data, *file_name))[1:])

    def analyze_string_to_json(self, data, *file_name):
        return _text(_call('analyze_string_to_json', self._id, *_strings(data, *file_name))[1])
