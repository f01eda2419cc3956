# Generated by treegen.py; do not edit.
# What the stand-in's Python trees have in common. The interface follows tree-gen's.
import struct


def _head(major, n):
    if n < 24:
        return bytes([major << 5 | n])
    for info, size in ((24, 1), (25, 2), (26, 4), (27, 8)):
        if n < 1 << 8 * size:
            return bytes([major << 5 | info]) + n.to_bytes(size, 'big')
    raise ValueError('integer out of range')


def _py_to_cbor(value):
    """Converts Python primitives to CBOR."""
    if value is None:
        return b'\xf6'
    if value is False:
        return b'\xf4'
    if value is True:
        return b'\xf5'
    if isinstance(value, int):
        return _head(0, value) if value >= 0 else _head(1, -1 - value)
    if isinstance(value, float):
        return b'\xfb' + struct.pack('>d', value)
    if isinstance(value, bytes):
        return _head(2, len(value)) + value
    if isinstance(value, str):
        value = value.encode('utf-8')
        return _head(3, len(value)) + value
    if isinstance(value, (list, tuple)):
        return _head(4, len(value)) + b''.join(map(_py_to_cbor, value))
    if isinstance(value, dict):
        return _head(5, len(value)) + b''.join(_py_to_cbor(k) + _py_to_cbor(v) for k, v in sorted(value.items()))
    raise TypeError('unsupported value: %r' % (value,))


def _cbor_to_py(data):
    """Converts CBOR to Python primitives."""
    pos = 0

    def read():
        nonlocal pos
        major, info = data[pos] >> 5, data[pos] & 31
        pos += 1
        n = None
        if info < 24:
            n = info
        elif info < 28:
            size = 1 << info - 24
            n = int.from_bytes(data[pos:pos + size], 'big')
            if len(data) - pos < size:
                raise ValueError('invalid CBOR: read past end')
            pos += size
        elif info != 31:
            raise ValueError('invalid CBOR')

        def more():
            nonlocal pos, n
            if n is None:
                if data[pos] == 0xff:
                    pos += 1
                    return False
                return True
            n -= 1
            return n >= 0

        if major == 0:
            return n
        if major == 1:
            return -1 - n
        if major in (2, 3):
            s = data[pos:pos + n]
            if len(s) != n:
                raise ValueError('invalid CBOR: read past end')
            pos += n
            return s if major == 2 else s.decode('utf-8')
        if major == 4:
            out = []
            while more():
                out.append(read())
            return out
        if major == 5:
            out = {}
            while more():
                k = read()
                out[k] = read()
            return out
        if major == 7 and info in (20, 21, 22):
            return {20: False, 21: True, 22: None}[info]
        if major == 7 and info == 27:
            return struct.unpack('>d', n.to_bytes(8, 'big'))[0]
        raise ValueError('invalid CBOR')

    out = read()
    if pos != len(data):
        raise ValueError('invalid CBOR: garbage at end')
    return out


class NotWellFormed(ValueError):
    """Exception class for well-formedness checks."""


_KINDS = {'Maybe': '?', 'One': '1', 'Any': '*', 'Many': '+', 'OptLink': '@', 'Link': '$'}


class Node(object):
    """Base class for nodes."""
    _FIELDS = []
    _LEAF = False

    def __init_node__(self, *values):
        self._annot = {}
        for (name, edge, typ), value in zip(self._FIELDS, values):
            if edge in ('Any', 'Many'):
                value = list(value) if value is not None else []
            elif edge is None and value is None:
                value = typ()()
            setattr(self, name, value)

    def __getitem__(self, key):
        return self._annot[key]

    def __setitem__(self, key, val):
        self._annot[key] = val

    def __contains__(self, key):
        return key in self._annot

    def _edges(self):
        for name, edge, _ in self._FIELDS:
            if edge:
                yield name, edge, getattr(self, name)

    def find_reachable(self, id_map=None):
        id_map = {} if id_map is None else id_map
        if id(self) in id_map:
            raise NotWellFormed('node %r with id %d occurs more than once' % (self, id(self)))
        id_map[id(self)] = len(id_map)
        for _, edge, value in self._edges():
            if edge in ('Maybe', 'One'):
                if value is not None:
                    value.find_reachable(id_map)
            elif edge in ('Any', 'Many'):
                for x in value:
                    x.find_reachable(id_map)
        return id_map

    def check_complete(self, id_map=None):
        id_map = self.find_reachable() if id_map is None else id_map
        for name, edge, value in self._edges():
            if edge in ('One', 'Link') and value is None:
                raise NotWellFormed('%s is required but not set' % name)
            if edge == 'Many' and not value:
                raise NotWellFormed('%s needs at least one node' % name)
            if edge in ('OptLink', 'Link'):
                if value is not None and id(value) not in id_map:
                    raise NotWellFormed('%s links to a node outside of the tree' % name)
            else:
                for x in value if edge in ('Any', 'Many') else [value]:
                    if x is not None:
                        x.check_complete(id_map)

    def __eq__(self, other):
        if type(self) is not type(other):
            return False
        for name, edge, _ in self._FIELDS:
            a, b = getattr(self, name), getattr(other, name)
            if edge in ('OptLink', 'Link'):
                if a is not b:
                    return False
            elif a != b:
                return False
        return True

    __hash__ = None

    def __str__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%s' % (n, getattr(self, n)) for n, e, _ in self._FIELDS))

    @classmethod
    def _own_type(cls, name):
        import sys
        return sys.modules[cls.__module__]._TYPES[name]

    @classmethod
    def _deserialize(cls, cbor, seq_to_ob, links):
        typ = cls._own_type(cbor['@t'])
        if not issubclass(typ, cls):
            raise ValueError('unexpected node type: %s is no %s' % (typ.__name__, cls.__name__))
        ser, des = typ._SERDES
        values = []
        pending = []
        for name, edge, t in typ._FIELDS:
            field = cbor[name]
            if edge is None:
                values.append(des()(t(), field))
                continue
            if field['@T'] != _KINDS[edge]:
                raise ValueError('unexpected edge type for field %s' % name)
            if edge in ('OptLink', 'Link'):
                values.append(None)
                if field['@l'] is not None:
                    pending.append((name, field['@l']))
            elif edge in ('Any', 'Many'):
                out = []
                for x in field['@d']:
                    if x['@T'] != '1':
                        raise ValueError('unexpected edge type for element of %s' % name)
                    out.append(t()._deserialize(x, seq_to_ob, links))
                values.append(out)
            else:
                values.append(None if field['@t'] is None else t()._deserialize(field, seq_to_ob, links))
        node = typ(*values)
        for key, val in cbor.items():
            if key.startswith('{') and key.endswith('}'):
                a = des()(key[1:-1], val)
                if a is not None:
                    node[key[1:-1]] = a
        seq_to_ob[cbor['@i']] = node
        for name, seq in pending:
            links.append((lambda v, n=name, o=node: setattr(o, n, v), seq))
        return node

    @classmethod
    def deserialize(cls, cbor):
        """Attempts to deserialize the given cbor object (either as bytes or as its Python primitive representation)
        into a node of this type."""
        if isinstance(cbor, bytes):
            cbor = _cbor_to_py(cbor)
        seq_to_ob, links = {}, []
        if cbor['@T'] not in ('?', '1'):
            raise ValueError('unexpected edge type')
        root = None if cbor['@t'] is None else cls._deserialize(cbor, seq_to_ob, links)
        for setter, seq in links:
            if seq not in seq_to_ob:
                raise ValueError('found link to nonexistent object')
            setter(seq_to_ob[seq])
        return root

    def _serialize(self, id_map):
        out = {'@i': id_map[id(self)], '@t': type(self).__name__}
        ser, des = self._SERDES
        for name, edge, t in self._FIELDS:
            value = getattr(self, name)
            if edge is None:
                out[name] = ser()(t(), value)
            elif edge in ('OptLink', 'Link'):
                out[name] = {'@T': _KINDS[edge], '@l': None if value is None else id_map[id(value)]}
            elif edge in ('Any', 'Many'):
                out[name] = {'@T': _KINDS[edge], '@d': [dict(x._serialize(id_map), **{'@T': '1'}) for x in value]}
            elif value is None:
                out[name] = {'@T': _KINDS[edge], '@t': None}
            else:
                out[name] = dict(value._serialize(id_map), **{'@T': _KINDS[edge]})
        for key, val in self._annot.items():
            if isinstance(key, str):
                a = ser()(key, val)
                if a is not None:
                    out['{%s}' % key] = a
        return out

    def serialize(self):
        """Serializes this node into its CBOR representation."""
        id_map = self.find_reachable()
        self.check_complete(id_map)
        return _py_to_cbor(dict(self._serialize(id_map), **{'@T': '?'}))
