"""Reference models, written independently of arroba: canonical tree, archives, op inversion."""
import hashlib
import io

import dag_cbor
from multiformats import CID
import libipld


def cid_str(data):
    """base32 CIDv1 dag-cbor sha2-256 of encoded bytes."""
    import base64
    raw = b'\x01\x71\x12\x20' + hashlib.sha256(data).digest()
    return 'b' + base64.b32encode(raw).decode().lower().rstrip('=')


_cids = {}


def to_cid(s):
    c = _cids.get(s)
    if c is None:
        c = _cids[s] = CID.decode(s)
    return c


def s(cid):
    """CID (any representation) -> base32 string."""
    if cid is None:
        return None
    if isinstance(cid, str):
        return cid
    if isinstance(cid, bytes):
        return CID.decode(cid).encode('base32')
    return cid.encode('base32')


def dec(data):
    return _strs(libipld.decode_dag_cbor(data))


def _strs(o):
    """libipld gives CIDs as bytes; dag_cbor as CID objects. Normalise to dag_cbor's."""
    return o


def decode(data):
    return dag_cbor.decode(data)


def layer(key):
    h = hashlib.sha256(key.encode()).digest()
    n = 0
    for byte in h:
        if byte == 0:
            n += 4
            continue
        for shift in (6, 4, 2, 0):
            if byte >> shift & 3:
                return n
            n += 1
    return n


def build(content):
    """{path: base32 cid} -> (root cid str, {cid str: encoded node}) of the canonical tree."""
    items = sorted((k.encode(), k, v, layer(k)) for k, v in content.items())
    nodes = {}

    def emit(left, entries):
        prev = b''
        es = []
        for key, val, right in entries:
            p = 0
            while p < len(prev) and p < len(key) and prev[p] == key[p]:
                p += 1
            es.append({'p': p, 'k': key[p:], 'v': to_cid(val),
                       't': to_cid(right) if right else None})
            prev = key
        data = dag_cbor.encode({'l': to_cid(left) if left else None, 'e': es})
        c = cid_str(data)
        nodes[c] = data
        return c

    def sub(lo, hi, lvl):
        """The subtree over items[lo:hi] rooted at exactly layer lvl; None if it is empty."""
        if lo >= hi:
            return None
        tops = [i for i in range(lo, hi) if items[i][3] == lvl]
        if not tops:
            return emit(sub(lo, hi, lvl - 1), [])
        left = sub(lo, tops[0], lvl - 1)
        entries = []
        for j, i in enumerate(tops):
            end = tops[j + 1] if j + 1 < len(tops) else hi
            entries.append((items[i][0], items[i][2], sub(i + 1, end, lvl - 1)))
        return emit(left, entries)

    if not items:
        return emit(None, []), nodes
    return sub(0, len(items), max(i[3] for i in items)), nodes


class Missing(Exception):
    def __init__(self, cid):
        super().__init__(cid)
        self.cid = cid


def read_node(get, c):
    data = get(c)
    if data is None:
        raise Missing(c)
    return decode(data)


def walk(get, root):
    """Yields (path, value cid str) in tree order, and collects node cids in .nodes."""
    nodes = []

    def rec(c):
        nodes.append(c)
        n = read_node(get, c)
        if n['l'] is not None:
            yield from rec(s(n['l']))
        prev = b''
        for e in n['e']:
            key = prev[:e['p']] + bytes(e['k'])
            prev = key
            yield key.decode(), s(e['v'])
            if e['t'] is not None:
                yield from rec(s(e['t']))
    out = list(rec(root))
    return out, nodes


def content_of(get, root):
    out, nodes = walk(get, root)
    keys = [k for k, _ in out]
    if keys != sorted(keys, key=str.encode) or len(set(keys)) != len(keys):
        raise ValueError(f'tree {root} keys out of order or repeated: {keys}')
    return dict(out), nodes


def lookup(get, root, key):
    """Finds key using only nodes on its path. Returns value cid str or None."""
    kb = key.encode()
    c = root
    while c is not None:
        n = read_node(get, c)
        nxt = s(n['l']) if n['l'] is not None else None
        prev = b''
        for e in n['e']:
            k = prev[:e['p']] + bytes(e['k'])
            prev = k
            if k == kb:
                return s(e['v'])
            if k > kb:
                break
            nxt = s(e['t']) if e['t'] is not None else None
        c = nxt
    return None


# -- a partial tree, for undoing operations with only the blocks at hand -------------------------

class Stub:
    """A subtree known only by its CID."""
    __slots__ = ('cid',)

    def __init__(self, cid):
        self.cid = cid


class PNode:
    __slots__ = ('lvl', 'items')    # items alternate: subtree or None, (key, val), subtree ...

    def __init__(self, lvl, items):
        self.lvl = lvl
        self.items = items


def load_partial(get, c, lvl=None):
    """Loads whatever of the tree is available; unavailable subtrees become stubs."""
    data = get(c)
    if data is None:
        return Stub(c)
    n = decode(data)
    prev = b''
    items = [load_partial(get, s(n['l'])) if n['l'] is not None else None]
    lv = None
    for e in n['e']:
        key = prev[:e['p']] + bytes(e['k'])
        prev = key
        lv = layer(key.decode())
        items.append((key, s(e['v'])))
        items.append(load_partial(get, s(e['t'])) if e['t'] is not None else None)
    if lv is None:
        for i in items[0::2]:
            if isinstance(i, PNode) and i.lvl is not None:
                lv = i.lvl + 1
    return PNode(lv, items)


class NeedBlock(Exception):
    """Undoing an operation would need a tree node that is not at hand."""


def _need(t):
    if isinstance(t, Stub):
        raise NeedBlock(t.cid)
    return t


def p_split(t, key):
    """Splits subtree t (or None) into parts before and after key. Same level on both sides."""
    if t is None:
        return None, None
    t = _need(t)
    i = 0
    while 2 * i + 1 < len(t.items) and t.items[2 * i + 1][0] < key:
        i += 1
    if 2 * i + 1 < len(t.items) and t.items[2 * i + 1][0] == key:
        raise KeyError(key)
    a, b = p_split(t.items[2 * i], key)
    left = t.items[:2 * i] + [a]
    right = [b] + t.items[2 * i + 1:]
    return p_trim(PNode(t.lvl, left)), p_trim(PNode(t.lvl, right))


def p_trim(n):
    """An entry-less node without a child is no node at all."""
    return None if len(n.items) == 1 and n.items[0] is None else n


def p_merge(a, b):
    if a is None:
        return b
    if b is None:
        return a
    a, b = _need(a), _need(b)
    mid = p_merge(a.items[-1], b.items[0])
    return PNode(a.lvl if a.lvl is not None else b.lvl, a.items[:-1] + [mid] + b.items[1:])


def p_find(t, key):
    """Returns (node, item index) of an existing key, or raises KeyError / NeedBlock."""
    while True:
        if t is None:
            raise KeyError(key)
        t = _need(t)
        i = 1
        while i < len(t.items) and t.items[i][0] < key:
            i += 2
        if i < len(t.items) and t.items[i][0] == key:
            return t, i
        t = t.items[i - 1]


def p_remove(t, key):
    """Tree without key."""
    t = _need(t)
    i = 1
    while i < len(t.items) and t.items[i][0] < key:
        i += 2
    if i < len(t.items) and t.items[i][0] == key:
        mid = p_merge(t.items[i - 1], t.items[i + 1])
        return PNode(t.lvl, t.items[:i - 1] + [mid] + t.items[i + 2:])
    sub = t.items[i - 1]
    if sub is None:
        raise KeyError(key)
    new = p_remove(sub, key)
    return PNode(t.lvl, t.items[:i - 1] + [p_trim(new)] + t.items[i:])


def p_insert(t, key, val, lvl, tl):
    """Tree with key added; tl is the level of t (known to the caller)."""
    if t is None:
        a = PNode(lvl, [None, (key, val), None])
        for x in range(lvl + 1, tl + 1):
            a = PNode(x, [a])
        return a
    if lvl > tl:
        a, b = p_split(t, key)
        for x in range(tl + 1, lvl):
            a = PNode(x, [a]) if a is not None else None
            b = PNode(x, [b]) if b is not None else None
        return PNode(lvl, [a, (key, val), b])
    t = _need(t)
    i = 1
    while i < len(t.items) and t.items[i][0] < key:
        i += 2
    if lvl == tl:
        a, b = p_split(t.items[i - 1], key)
        return PNode(tl, t.items[:i - 1] + [a, (key, val), b] + t.items[i:])
    new = p_insert(t.items[i - 1], key, val, lvl, tl - 1)
    return PNode(tl, t.items[:i - 1] + [new] + t.items[i:])


def p_level(t):
    """Level of the root: from any key found in it, or below it."""
    if t.lvl is not None:
        return t.lvl
    return None


def p_top(t):
    """Drops entry-less root nodes."""
    while isinstance(t, PNode) and len(t.items) == 1 and t.items[0] is not None:
        t = t.items[0]
    return t


def p_cid(t):
    if isinstance(t, Stub):
        return t.cid
    left = p_cid(t.items[0]) if t.items[0] is not None else None
    prev = b''
    es = []
    for i in range(1, len(t.items), 2):
        key, val = t.items[i]
        p = 0
        while p < len(prev) and p < len(key) and prev[p] == key[p]:
            p += 1
        sub = t.items[i + 1]
        es.append({'p': p, 'k': key[p:], 'v': to_cid(val),
                   't': to_cid(p_cid(sub)) if sub is not None else None})
        prev = key
    return cid_str(dag_cbor.encode({'l': to_cid(left) if left else None, 'e': es}))


def invert(get, root, ops):
    """Undoes ops on the tree at root using only blocks from get. Returns the previous root CID.

    Raises NeedBlock if a block is missing, KeyError/ValueError if the ops don't fit the tree.
    """
    t = load_partial(get, root)
    for op in reversed(ops):
        key = op['path'].encode()
        if op['action'] == 'create':
            n, i = p_find(t, key)
            if n.items[i][1] != op['cid']:
                raise ValueError(f'create {op["path"]}: tree has {n.items[i][1]}')
            t = p_remove(t, key)
            if len(t.items) == 1 and t.items[0] is None:
                t = PNode(0, [None])
            t = p_top(t)
        elif op['action'] == 'update':
            n, i = p_find(t, key)
            if n.items[i][1] != op['cid']:
                raise ValueError(f'update {op["path"]}: tree has {n.items[i][1]}')
            n.items[i] = (key, op['prev'])
        elif op['action'] == 'delete':
            try:
                p_find(t, key)
            except KeyError:
                pass
            else:
                raise ValueError(f'delete {op["path"]}: still in the tree')
            t = _need(t)
            if len(t.items) == 1 and t.items[0] is None:
                t = PNode(layer(op['path']), [None, (key, op['prev']), None])
                continue
            if t.lvl is None:
                raise NeedBlock('level of an entry-less root')
            t = p_insert(t, key, op['prev'], layer(op['path']), t.lvl)
        else:
            raise ValueError(op['action'])
    return p_cid(t)


# -- archives ------------------------------------------------------------------------------------

def varint(f):
    shift = n = 0
    while True:
        b = f.read(1)
        if not b:
            if shift:
                raise ValueError('truncated varint')
            return None
        n |= (b[0] & 0x7f) << shift
        if not b[0] & 0x80:
            return n
        shift += 7


def read_car(data):
    """-> ([root cid strs], [(cid str, bytes)]); verifies every digest."""
    f = io.BytesIO(data)
    n = varint(f)
    head = decode(f.read(n))
    roots = [s(r) for r in head['roots']]
    blocks = []
    while (n := varint(f)) is not None:
        body = f.read(n)
        if len(body) != n:
            raise ValueError('truncated block')
        if body[:4] not in (b'\x01\x71\x12\x20', b'\x01\x55\x12\x20'):
            raise ValueError(f'unexpected cid prefix {body[:4].hex()}')
        raw, payload = body[:36], body[36:]
        if hashlib.sha256(payload).digest() != raw[4:]:
            raise ValueError(f'digest mismatch for block {raw.hex()}')
        blocks.append((s(raw), payload))
    return roots, blocks


def write_car(roots, blocks):
    """blocks: [(cid str, bytes)]"""
    def vi(n):
        out = b''
        while True:
            b = n & 0x7f
            n >>= 7
            if n:
                out += bytes([b | 0x80])
            else:
                return out + bytes([b])
    head = dag_cbor.encode({'roots': [to_cid(r) for r in roots], 'version': 1})
    out = vi(len(head)) + head
    for c, d in blocks:
        raw = bytes(to_cid(c))
        out += vi(len(raw) + len(d)) + raw + d
    return out
