"""Runs the primitives and instructions of the repository's Python package on a batch of cases: prims.py IN OUT.

Request: one JSON case.  Response: one JSON observation.  The judging is done elsewhere.
"""
import json
import os
import struct
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['VF_PYPKG'])


def read_all(path):
    b, i = open(path, 'rb').read(), 0
    while i < len(b):
        (n,), i = struct.unpack_from('<I', b, i), i + 4
        r = []
        for _ in range(n):
            (k,), i = struct.unpack_from('<I', b, i), i + 4
            r.append(b[i:i + k])
            i += k
        yield r


def main():
    import cqasm.v3x.ast as ast
    import cqasm.v3x.instruction as ins
    import cqasm.v3x.primitives as prim
    import cqasm.v3x.types as types

    nodes = {'Q': 'Qubit', 'V': 'QubitArray', 'B': 'Bit', 'W': 'BitArray', 'b': 'Bool', 'i': 'Int', 'f': 'Float'}

    def node(c, n):
        return getattr(types, nodes[c])(n)

    def kinds(ts):
        return [[type(t).__name__, t.size] for t in ts]

    def show(v):
        """A value with its type, free of loss."""
        if type(v) is float:
            return ['float', struct.pack('>d', v).hex()]
        if type(v) is str:
            return ['str', v]
        if isinstance(v, ins.InstructionRef):
            return ['ref', None if v.data is None else [type(v.data.name).__name__, v.data.name, kinds(v.data.types)]]
        if isinstance(v, prim.Version):
            return ['Version', [[type(x).__name__, str(x)] for x in v]]
        return [type(v).__name__, str(v)]

    def build(t, v):
        if t == 'Float':
            return prim.Float, struct.unpack('>d', bytes.fromhex(v))[0]
        if t == 'Int':
            return prim.Int, int(v)
        if t == 'Bool':
            return prim.Bool, v
        if t == 'Str':
            return prim.Str, v
        if t == 'Version':
            return prim.Version, prim.Version(v)
        if v is None:
            return ins.InstructionRef, ins.InstructionRef()
        return ins.InstructionRef, ins.InstructionRef(v[0], [node(c, n) for c, n in v[1]])

    def case(c):
        if c[0] == 'round':
            t, v = build(c[1], c[2])
            s = prim.serialize(t, v)
            again = prim.serialize(t, v)
            out = [show(v), show(prim.deserialize(t, s))]
            b = ast._py_to_cbor(s)
            out.append(show(prim.deserialize(t, ast._cbor_to_py(b))))
            out.append(ast._py_to_cbor(prim.serialize(t, prim.deserialize(t, ast._cbor_to_py(b)))) == b and again == s)
            return out
        if c[0] == 'bytes':       # as C++ writes text
            return show(prim.deserialize(prim.Str, {'x': c[1].encode('utf-8')}))
        if c[0] == 'version':
            x = c[1] if c[2] == 'same' else tuple(c[1]) if c[2] == 'tuple' else iter(c[1]) if c[2] == 'iter' else [str(e) for e in c[1]]
            v = prim.Version(x)
            return [show(v), isinstance(v, tuple), v == tuple(map(int, c[1].split('.') if isinstance(c[1], str) else c[1])), len(v)]
        if c[0] == 'instruction':
            _, name, ts, how, wrap = c
            made = None if ts is None else [node(k, n) if k in nodes else {'none': None, 'str': 'Q', 'int': 1, 'class': types.Qubit, 'ast': ast.Identifier('q')}[k] for k, n in ts]
            given = None if made is None else {'list': list, 'tuple': tuple, 'iter': iter, 'generator': lambda m: (x for x in m)}[how](made)
            args = [name] if ts is None and how == 'short' else [name, given]
            if wrap == 'instruction':
                i = ins.Instruction(*args)
            elif wrap == 'keywords':
                i = ins.InstructionRef(name=name, types=given).data
            elif wrap == 'ref':
                i = ins.InstructionRef(*args).data
            else:
                j = ins.Instruction(*args)
                r = ins.InstructionRef(j)
                i = r.data
                if i is not j or str(r) != str(j):
                    return 'the reference is to something else'
            if how == 'list' and made:
                given.append(node('Q', 1))
                given[0] = None
            return [type(i).__name__, type(i.name).__name__, i.name, type(i.types).__name__, kinds(i.types), made is None or all(a is b for a, b in zip(i.types, made)),
                    str(i) == '%s(%s)' % (name, ', '.join(map(str, made or []))), str(ins.InstructionRef(i)) == str(i)]
        if c[0] == 'unresolved':
            r = ins.InstructionRef() if c[1] == 'none' else ins.InstructionRef(None)
            return [r.data is None, str(r), show(prim.deserialize(ins.InstructionRef, prim.serialize(ins.InstructionRef, r)))]
        if c[0] == 'link':
            return [prim.serialize('name', 1), prim.deserialize('name', {'x': 1})]
        return None

    out = open(sys.argv[2], 'wb')
    for (data,) in read_all(sys.argv[1]):
        try:
            r = case(json.loads(data.decode('utf-8')))
        except Exception as e:
            r = {'raised': type(e).__name__}
        f = json.dumps(r).encode()
        out.write(struct.pack('<II', 1, len(f)) + f)
        out.flush()
    out.close()


main()
