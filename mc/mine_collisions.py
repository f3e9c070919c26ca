'''Generates collisions.json: headers of the toy coin whose hash prefixes collide.  Run once;
the result is committed.'''

import json
import sys

from . import ref
from .chainmodel import Tree, pack_header


def child(node, nonce, salt, ts):
    bits = node.required(ts)
    raw = pack_header(1, node.hash, salt, ts, bits, nonce)
    h = ref.sha256d(raw)
    return raw, h, int.from_bytes(h, 'little') <= ref.compact_decode(bits)


def pair(node, salt):
    '''Two children of node with the same first four hash bytes.'''
    seen = {}
    nonce = 0
    while True:
        raw, h, ok = child(node, nonce, salt, node.ts + 600)
        if ok:
            if h[:4] in seen:
                return seen[h[:4]], raw
            seen[h[:4]] = raw
        nonce += 1


def main():
    # 0: two siblings collide; and a cousin pair two levels up
    t = Tree()
    a, b = pair(t.cp, ref.sha256(b'one'))
    seq = [(0, a), (0, b)]
    t.add(0, a)
    t.add(0, b)
    c = t.make(1, 0)
    t.add(1, c)
    d = t.make(2, 1)
    t.add(2, d)
    seq += [(1, c), (2, d)]
    e, f = pair(t.nodes[3], ref.sha256(b'two'))
    t.add(3, e)
    t.add(3, f)
    seq += [(3, e), (3, f)]
    out = [[(p, r.hex()) for p, r in seq]]

    # 1: many siblings, then one whose prefix is found unaligned among theirs
    t = Tree()
    seq = []
    for i in range(400):
        raw = t.make(0, 0) if i % 2 else t.make(len(t.nodes) - 1, 1)
        p = 0 if i % 2 else len(t.nodes) - 1
        seq.append((p, raw))
        t.add(p, raw)
    blob = b''.join(n.hash[:4] for n in t.nodes)
    unaligned = {blob[i:i + 4] for i in range(len(blob) - 3) if i % 4}
    aligned = {n.hash[:4] for n in t.nodes}
    found = 0
    nonce = 0
    node = t.nodes[-1]
    while found < 2:
        raw, h, ok = child(node, nonce, ref.sha256(b'three'), node.ts + 600)
        if ok and h[:4] in unaligned and h[:4] not in aligned:
            seq.append((len(t.nodes) - 1 - found, raw))
            found += 1
            t.add(t.nodes.index(node), raw)
            print('found', nonce, file=sys.stderr)
        nonce += 1
    out.append([(p, r.hex()) for p, r in seq])
    # 2: siblings whose prefixes overlap their own start: found unaligned just before their place
    t = Tree()
    seq = []

    def one(want, salt):
        node, nonce = t.cp, 0
        while True:
            raw, h, ok = child(node, nonce, ref.sha256(salt), node.ts + 600)
            if ok and want(h):
                return raw, h
            nonce += 1

    def pairs(self_overlap, k, salt):
        raw2, h2 = one(self_overlap, salt)
        raw1, _ = one(lambda h: h[k:4] == h2[:4 - k], salt + b'before')
        for raw in (raw1, raw2):
            seq.append((0, raw))
            t.add(0, raw)

    pairs(lambda h: h[:2] == h[2:4], 2, b'four')                # ABAB after ..AB
    pairs(lambda h: h[0] == h[3] and h[0] != h[1], 1, b'five')  # ABCA after .ABC
    pairs(lambda h: h[:1] * 4 == h[:4], 3, b'six')              # AAAA after ...A
    pairs(lambda h: h[:2] == h[2:4], 2, b'seven')
    out.append([(p, r.hex()) for p, r in seq])

    with open('mc/collisions.json', 'w') as f:
        json.dump(out, f)


main()
