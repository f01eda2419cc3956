"""Runs the repository's Python package on a batch of requests: worker.py IN OUT (see vf_io.hpp for the format).

Request: path of the package, text, file name or "", how the analyzer is made, file to write the text to or "".
Response: for each call, its name and a JSON description of what Python saw.
"""
import json
import os
import struct
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['VF_PYPKG'])
sys.setrecursionlimit(20000)


def read_all(path):
    b, i = open(path, 'rb').read(), 0
    while i < len(b):
        (n,), i = struct.unpack_from('<I', b, i), i + 4
        r = []
        for _ in range(n):
            (k,), i = struct.unpack_from('<I', b, i), i + 4
            r.append(b[i:i + k])
            i += k
        yield r


def pack(fields):
    return struct.pack('<I', len(fields)) + b''.join(struct.pack('<I', len(f)) + f for f in fields)


def main():
    import cqasm.v3x as cq
    import cqasm.v3x.instruction
    import cqasm.v3x.primitives as prim
    import libqasm.libqasm as lib

    def text(s):
        return s.encode('utf-8', 'surrogateescape').decode('latin-1')

    def scalar(v):
        """A primitive as the loss-free dump writes it; values of unexpected types show."""
        if isinstance(v, bool) or v is None:
            return v
        if type(v) is int:
            return v
        if type(v) is str:
            return text(v)
        if type(v) is float:
            return 'f:' + struct.pack('>d', v).hex()
        if isinstance(v, prim.Version):
            return [int(x) for x in v]
        if isinstance(v, cqasm.v3x.instruction.InstructionRef):
            if v.data is None:
                return None
            if type(v.data.name) is not str:
                return 'name of type %s' % type(v.data.name)
            return {'name': text(v.data.name), 'operand_types': [dump(t) for t in v.data.types]}
        return 'of type %s: %r' % (type(v), v)

    def number(node, ids):
        ids[id(node)] = len(ids)
        for _, edge, v in node._edges():
            if edge in ('Any', 'Many'):
                for x in v:
                    number(x, ids)
            elif edge in ('Maybe', 'One') and v is not None:
                number(v, ids)

    def go(node, ids):
        if node is None:
            return None
        out = {'@': type(node).__name__}
        for name, edge, _ in node._FIELDS:
            v = getattr(node, name)
            if edge is None:
                out[name] = scalar(v)
            elif edge in ('Any', 'Many'):
                out[name] = [go(x, ids) for x in v]
            elif edge in ('OptLink', 'Link'):
                out[name] = None if v is None else {'->': ids.get(id(v), 'outside')}
            else:
                out[name] = go(v, ids)
        return out

    def dump(root):
        if root is None:
            return None
        ids = {}
        number(root, ids)
        return go(root, ids)

    def seen(kind, r):
        if isinstance(r, list):
            return {'errors': [text(e) if type(e) is str else repr(e) for e in r]}
        cls = cq.ast.Root if kind == 'parse' else cq.semantic.Program
        out = {'tree': dump(r), 'class': isinstance(r, cls)}
        b = r.serialize()
        again = cls.deserialize(b)
        out['python'] = dump(again) == out['tree']
        try:
            out['cpp'] = json.loads(lib._call('read', kind, b)[1].decode('latin-1'))
        except Exception as e:
            out['cpp'] = 'C++ cannot read it: %s' % e
        return out

    def guarded(f):
        try:
            return f()
        except Exception as e:
            return {'raised': '%s: %s' % (type(e).__name__, e)}

    out = open(sys.argv[2], 'wb')
    for data, name, how, path in read_all(sys.argv[1]):
        data, name, how, path = (x.decode('utf-8') for x in (data, name, how, path))
        args = (data, name) if name else (data,)
        a = cq.Analyzer() if how == 'd' else cq.Analyzer('3.0', True)
        res = []
        res.append(guarded(lambda: seen('parse', cq.Analyzer.parse_string(*args))))
        res.append(guarded(lambda: seen('analyze', a.analyze_string(*args))))
        res.append(guarded(lambda: text(cq.Analyzer.parse_string_to_json(*args))))
        res.append(guarded(lambda: text(a.analyze_string_to_json(*args))))
        if path:
            with open(path, 'wb') as f:
                f.write(data.encode('utf-8'))
            res.append(guarded(lambda: seen('parse', cq.Analyzer.parse_file(path))))
            res.append(guarded(lambda: seen('analyze', a.analyze_file(path))))
            res.append(guarded(lambda: text(cq.Analyzer.parse_file_to_json(path))))
            res.append(guarded(lambda: text(a.analyze_file_to_json(path))))
            os.unlink(path)
        # twice on one analyzer, and what C++ makes of it
        res.append(guarded(lambda: seen('analyze', a.analyze_string(*args))))
        fn = '+' + name if name else '-'
        cpp = [lib._call('cpp-parse', data, fn), lib._call('cpp-analyze', data, fn, how)]
        if path:
            cpp += [lib._call('cpp-parse', data, '-'), lib._call('cpp-analyze', data, '-', how)]
        out.write(pack([json.dumps(res).encode()] + [pack(c) for c in cpp]))
        out.flush()
    out.close()
    lib._start().stdin.close()
    sys.exit(lib._start().wait())


main()
