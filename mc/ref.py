'''Independent references: plain, slow, written from the specifications and not from the code
under test.  Nothing here imports bitcoinx.'''

import hashlib
import hmac as _hmac


def sha256(b):
    return hashlib.sha256(b).digest()


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hash160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def hmac512(key, msg):
    '''HMAC-SHA512 from its definition.'''
    if len(key) > 128:
        key = hashlib.sha512(key).digest()
    key = key + bytes(128 - len(key))
    inner = hashlib.sha512(bytes(k ^ 0x36 for k in key) + msg).digest()
    return hashlib.sha512(bytes(k ^ 0x5c for k in key) + inner).digest()


def hmac256(key, msg):
    if len(key) > 64:
        key = sha256(key)
    key = key + bytes(64 - len(key))
    inner = sha256(bytes(k ^ 0x36 for k in key) + msg)
    return sha256(bytes(k ^ 0x5c for k in key) + inner)


# --- secp256k1 --------------------------------------------------------------------------------

P = 2 ** 256 - 2 ** 32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,
     0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
INF = None


def on_curve(pt):
    x, y = pt
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def ec_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def _jdbl(p):
    x, y, z = p
    if y == 0 or z == 0:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P


def _jadd(p, q):
    if p[2] == 0:
        return q
    if q[2] == 0:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (0, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P
    h3 = h2 * h % P
    v = u1 * h2 % P
    x = (r * r - h3 - 2 * v) % P
    return x, (r * (v - x) - s1 * h3) % P, h * p[2] * q[2] % P


_table = []


def _mul_g(k):
    '''k * G by a table of the multiples of G by each byte in each place.'''
    if not _table:
        base = G
        for _ in range(32):
            row, acc = [None], None
            for _ in range(255):
                acc = ec_add(acc, base)
                row.append(acc)
            _table.append(row)
            base = ec_add(acc, base)
    acc = (0, 1, 0)
    for row in _table:
        q = row[k & 255]
        k >>= 8
        if q is None:
            continue
        acc = _jadd(acc, (q[0], q[1], 1))
    zi = pow(acc[2], -1, P)
    return acc[0] * zi * zi % P, acc[1] * zi * zi * zi % P


def ec_mul(k, pt=G):
    k %= N
    if k == 0 or pt is None:
        return None
    if pt == G:
        return _mul_g(k)
    acc, add = (0, 1, 0), (pt[0], pt[1], 1)
    while k:
        if k & 1:
            acc = _jadd(acc, add)
        add = _jdbl(add)
        k >>= 1
    if acc[2] == 0:
        return None
    zi = pow(acc[2], -1, P)
    return acc[0] * zi * zi % P, acc[1] * zi * zi * zi % P


def ec_neg(pt):
    return None if pt is None else (pt[0], P - pt[1])


def ser_point(pt, compressed=True):
    x, y = pt
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def lift_x(x, odd):
    if not 0 <= x < P:
        return None
    c = (pow(x, 3, P) + 7) % P
    y = pow(c, (P + 1) // 4, P)
    if y * y % P != c:
        return None
    if (y & 1) != odd:
        y = P - y
    return x, y


def parse_point(data):
    '''SEC1 parse, hybrid encodings included (as consensus accepts them); None if invalid.'''
    if len(data) == 33 and data[0] in (2, 3):
        return lift_x(int.from_bytes(data[1:], 'big'), data[0] & 1)
    if len(data) == 65 and data[0] in (4, 6, 7):
        pt = (int.from_bytes(data[1:33], 'big'), int.from_bytes(data[33:], 'big'))
        if not on_curve(pt):
            return None
        if data[0] != 4 and (pt[1] & 1) != (data[0] & 1):
            return None
        return pt
    return None


def ecdsa_verify(pt, msg_hash, r, s):
    if not (1 <= r < N and 1 <= s < N):
        return False
    z = int.from_bytes(msg_hash, 'big')
    w = pow(s, -1, N)
    res = ec_add(ec_mul(z * w % N), ec_mul(r * w % N, pt))
    return res is not None and res[0] % N == r


def ecdsa_verify_secret(secret, msg_hash, r, s):
    '''Verification for a key whose secret is known: the nonce point is recomputed.'''
    if not (1 <= r < N and 1 <= s < N):
        return False
    pt = ec_mul((int.from_bytes(msg_hash, 'big') + r * secret) * pow(s, -1, N) % N)
    return pt is not None and pt[0] % N == r


def ecdsa_recover(msg_hash, r, s, recid):
    '''The public key a recoverable signature implies, or None.'''
    if not (1 <= r < N and 1 <= s < N):
        return None
    x = r + (N if recid & 2 else 0)
    if x >= P:
        return None
    R = lift_x(x, recid & 1)
    if R is None:
        return None
    z = int.from_bytes(msg_hash, 'big')
    ri = pow(r, -1, N)
    return ec_add(ec_mul(s * ri % N, R), ec_neg(ec_mul(z * ri % N)))


def ecdsa_sign(secret, msg_hash, k):
    '''A signature with nonce k: (r, s, recid), s low.'''
    R = ec_mul(k)
    r = R[0] % N
    s = pow(k, -1, N) * (int.from_bytes(msg_hash, 'big') + r * secret) % N
    recid = (R[1] & 1) | (2 if R[0] >= N else 0)
    if s > N // 2:
        s = N - s
        recid ^= 1
    return r, s, recid


def der_int(v):
    b = v.to_bytes((v.bit_length() // 8) + 1, 'big')
    return b'\x02' + bytes([len(b)]) + b


def der_encode(r, s):
    body = der_int(r) + der_int(s)
    return b'\x30' + bytes([len(body)]) + body


def der_parse_strict(sig):
    '''(r, s) of a strictly DER-encoded signature of two INTEGERs, else None.'''
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] & 0x80 or sig[1] != len(sig) - 2:
        return None
    pos, out = 2, []
    for _ in range(2):
        if pos + 2 > len(sig) or sig[pos] != 2:
            return None
        n = sig[pos + 1]
        if n & 0x80 or n == 0:
            return None
        b = sig[pos + 2: pos + 2 + n]
        if len(b) != n:
            return None
        if n > 1 and b[0] == 0 and not b[1] & 0x80:
            return None
        if n > 1 and b[0] == 0xff and b[1] & 0x80:
            return None
        out.append(int.from_bytes(b, 'big', signed=True))
        pos += 2 + n
    if pos != len(sig):
        return None
    return tuple(out)


# --- base58 -----------------------------------------------------------------------------------

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58_encode(data):
    '''Schoolbook base conversion on digit lists.'''
    digits = []
    for byte in data:
        carry = byte
        for i, d in enumerate(digits):
            carry += d << 8
            digits[i] = carry % 58
            carry //= 58
        while carry:
            digits.append(carry % 58)
            carry //= 58
    zeros = 0
    for byte in data:
        if byte:
            break
        zeros += 1
    return '1' * zeros + ''.join(B58[d] for d in reversed(digits))


def b58_decode(text):
    '''bytes, or None if a character is not in the alphabet.'''
    digits = []
    for ch in text:
        carry = B58.find(ch)
        if carry < 0:
            return None
        for i, d in enumerate(digits):
            carry += d * 58
            digits[i] = carry & 255
            carry >>= 8
        while carry:
            digits.append(carry & 255)
            carry >>= 8
    zeros = len(text) - len(text.lstrip('1'))
    return bytes(zeros) + bytes(reversed(digits))


def b58c_encode(payload):
    return b58_encode(payload + sha256d(payload)[:4])


def b58c_decode(text):
    raw = b58_decode(text) if text else None
    if raw is None or len(raw) < 4 or sha256d(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


# --- cashaddr (from the specification) ----------------------------------------------------------

CASH = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
_GEN = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)


def cash_polymod(values):
    c = 1
    for d in values:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for i in range(5):
            if (c0 >> i) & 1:
                c ^= _GEN[i]
    return c ^ 1


def cash_prefix(prefix):
    return [ord(c) & 31 for c in prefix] + [0]


def cash_payload_encode(prefix, values):
    '''prefix (lower case) and 5-bit values to a full address.'''
    values = list(values)
    chk = cash_polymod(cash_prefix(prefix) + values + [0] * 8)
    values += [(chk >> 5 * (7 - i)) & 31 for i in range(8)]
    return prefix + ':' + ''.join(CASH[v] for v in values)


def to5(data, pad_bits=0):
    n = int.from_bytes(data, 'big')
    bits = len(data) * 8
    extra = -bits % 5
    n = (n << extra) | pad_bits
    count = (bits + extra) // 5
    return [(n >> 5 * (count - 1 - i)) & 31 for i in range(count)]


def cash_encode(prefix, kind, h):
    size = {20: 0, 24: 1, 28: 2, 32: 3, 40: 4, 48: 5, 56: 6, 64: 7}[len(h)]
    return cash_payload_encode(prefix, to5(bytes([kind << 3 | size]) + h))


def cash_decode(addr):
    '''(prefix, kind, hash) or None, by the specification.'''
    if not all(33 <= ord(c) <= 126 for c in addr):
        return None
    if addr.lower() != addr and addr.upper() != addr:
        return None
    low = addr.lower()
    prefix, sep, payload = low.partition(':')
    if not sep or not prefix:
        return None
    values = [CASH.find(c) for c in payload]
    if any(v < 0 for v in values) or len(values) < 8:
        return None
    if cash_polymod(cash_prefix(prefix) + values) != 0:
        return None
    values = values[:-8]
    bits = len(values) * 5
    extra = bits % 8
    if extra >= 5 or not values:
        return None
    n = 0
    for v in values:
        n = n << 5 | v
    if n & ((1 << extra) - 1):
        return None
    data = (n >> extra).to_bytes(bits // 8, 'big')
    if not data or data[0] & 0x80:
        return None
    kind, size = data[0] >> 3, data[0] & 7
    if len(data) - 1 != (20, 24, 28, 32, 40, 48, 56, 64)[size] or kind not in (0, 1):
        return None
    return (prefix if low == addr else prefix.upper()), kind, data[1:]


# --- wire formats -------------------------------------------------------------------------------

def le(n, size):
    return n.to_bytes(size, 'little', signed=False)


def sle(n, size):
    return n.to_bytes(size, 'little', signed=True)


def varint(n):
    if n < 0xfd:
        return le(n, 1)
    if n <= 0xffff:
        return b'\xfd' + le(n, 2)
    if n <= 0xffffffff:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


def varbytes(b):
    return varint(len(b)) + b


def ser_in(i):
    prev_hash, idx, script, seq = i
    return prev_hash + le(idx, 4) + varbytes(script) + le(seq, 4)


def ser_out(o):
    value, script = o
    return sle(value, 8) + varbytes(script)


def ser_tx(tx):
    '''tx = (version, inputs, outputs, locktime)'''
    version, ins, outs, locktime = tx
    return (sle(version, 4) + varint(len(ins)) + b''.join(ser_in(i) for i in ins)
            + varint(len(outs)) + b''.join(ser_out(o) for o in outs) + le(locktime, 4))


def bip143(tx, n, value, script, sighash):
    '''The signature hash of the BIP143 / replay-protected algorithm, from its specification.'''
    version, ins, outs, locktime = tx
    base, acp = sighash & 0x1f, sighash & 0x80
    hp = hs = ho = bytes(32)
    if not acp:
        hp = sha256d(b''.join(i[0] + le(i[1], 4) for i in ins))
    if not acp and base != 3 and base != 2:
        hs = sha256d(b''.join(le(i[3], 4) for i in ins))
    if base != 3 and base != 2:
        ho = sha256d(b''.join(ser_out(o) for o in outs))
    elif base == 3 and n < len(outs):
        ho = sha256d(ser_out(outs[n]))
    i = ins[n]
    return sha256d(sle(version, 4) + hp + hs + i[0] + le(i[1], 4) + varbytes(script)
                   + sle(value, 8) + le(i[3], 4) + ho + le(locktime, 4) + le(sighash, 4))


# --- script ---------------------------------------------------------------------------------------

def num_encode(v):
    '''Minimal script number.'''
    if v == 0:
        return b''
    out, a = bytearray(), abs(v)
    while a:
        out.append(a & 255)
        a >>= 8
    if out[-1] & 0x80:
        out.append(0x80 if v < 0 else 0)
    elif v < 0:
        out[-1] |= 0x80
    return bytes(out)


def num_decode(b):
    if not b:
        return 0
    v = 0
    for i, byte in enumerate(b[:-1]):
        v |= byte << (8 * i)
    v |= (b[-1] & 0x7f) << (8 * (len(b) - 1))
    return -v if b[-1] & 0x80 else v


def push(item):
    '''The minimal push of an item.'''
    n = len(item)
    if n == 0:
        return b'\0'
    if n == 1 and 1 <= item[0] <= 16:
        return bytes([0x50 + item[0]])
    if n == 1 and item[0] == 0x81:
        return b'\x4f'
    if n < 0x4c:
        return bytes([n]) + item
    if n < 0x100:
        return b'\x4c' + le(n, 1) + item
    if n < 0x10000:
        return b'\x4d' + le(n, 2) + item
    return b'\x4e' + le(n, 4) + item


def parse_script(s):
    '''(list of ops, truncated): an op is an int for an opcode or bytes for a push.'''
    out, i = [], 0
    while i < len(s):
        op = s[i]
        i += 1
        if op > 0x60 or op == 0x50:
            out.append(op)
            continue
        if op == 0x4f:
            out.append(b'\x81')
            continue
        if op >= 0x51:
            out.append(bytes([op - 0x50]))
            continue
        if op >= 0x4c:
            w = {0x4c: 1, 0x4d: 2, 0x4e: 4}[op]
            if i + w > len(s):
                return out, True
            n = int.from_bytes(s[i:i + w], 'little')
            i += w
        else:
            n = op
        if i + n > len(s):
            return out, True
        out.append(s[i:i + n])
        i += n
    return out, False


# --- compact targets and difficulty ---------------------------------------------------------------

def compact_decode(bits):
    '''The target a canonical compact value stands for; None if not canonical.'''
    if bits == 0:
        return 0
    size, word = bits >> 24, bits & 0xffffff
    if word & 0x800000 or word < 0x8000:       # negative, or not normalised
        return None
    if size >= 3:
        t = word << 8 * (size - 3)
    else:
        if word & ((1 << 8 * (3 - size)) - 1):
            return None
        t = word >> 8 * (3 - size)
    if size == 0 or t >= 1 << 256:
        return None
    return t


def compact_encode(target):
    '''Bitcoin's GetCompact: round down to a 24-bit signed mantissa.'''
    size = (target.bit_length() + 7) // 8
    if size <= 3:
        word = target << 8 * (3 - size)
    else:
        word = target >> 8 * (size - 3)
    if word & 0x800000:
        word >>= 8
        size += 1
    return size << 24 | word


def work_of(bits):
    return (1 << 256) // (compact_decode(bits) + 1)


# --- AES-128/192/256 in CBC mode, from FIPS 197 ---------------------------------------------------

def _xt(a):
    return (a << 1 ^ (0x11b if a & 0x80 else 0)) & 0xff


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a, b = _xt(a), b >> 1
    return r


def _make_sbox():
    box = []
    for a in range(256):
        inv = next((b for b in range(256) if _gmul(a, b) == 1), 0)
        v = 0
        for i in range(8):
            bit = 0x63 >> i & 1
            for k in (0, 4, 5, 6, 7):
                bit ^= inv >> (i + k) % 8 & 1
            v |= bit << i
        box.append(v)
    return box


_aes_cache = {}


def _aes_tables():
    if not _aes_cache:
        box = _make_sbox()
        inv = [0] * 256
        for i, v in enumerate(box):
            inv[v] = i
        _aes_cache['s'], _aes_cache['i'] = box, inv
        for f in (2, 3, 9, 11, 13, 14):
            _aes_cache[f] = [_gmul(a, f) for a in range(256)]
        _aes_cache[1] = list(range(256))
    return _aes_cache


def _aes_keys(key):
    t = _aes_tables()
    nk = len(key) // 4
    rounds = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (rounds + 1)):
        x = list(w[-1])
        if i % nk == 0:
            x = [t['s'][b] for b in x[1:] + x[:1]]
            x[0] ^= rcon
            rcon = _xt(rcon)
        elif nk > 6 and i % nk == 4:
            x = [t['s'][b] for b in x]
        w.append([a ^ b for a, b in zip(w[i - nk], x)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(rounds + 1)]


def _aes_block(keys, block, decrypt):
    t = _aes_tables()
    ks = keys[::-1] if decrypt else keys
    s = [a ^ b for a, b in zip(block, ks[0])]
    box = t['i' if decrypt else 's']
    step = -1 if decrypt else 1
    coef = (14, 11, 13, 9) if decrypt else (2, 3, 1, 1)
    for r in range(1, len(ks)):
        s = [box[s[(i + step * 4 * (i % 4)) % 16]] for i in range(16)]
        last = r == len(ks) - 1
        if decrypt:
            s = [a ^ b for a, b in zip(s, ks[r])]
        if not last:
            out = []
            for c in range(0, 16, 4):
                col = s[c:c + 4]
                for i in range(4):
                    v = 0
                    for k in range(4):
                        v ^= t[coef[(k - i) % 4]][col[k]]
                    out.append(v)
            s = out
        if not decrypt:
            s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)


def aes_cbc_encrypt(key, iv, data):
    keys, out = _aes_keys(key), bytearray()
    for i in range(0, len(data), 16):
        iv = _aes_block(keys, bytes(a ^ b for a, b in zip(data[i:i + 16], iv)), False)
        out += iv
    return bytes(out)


def aes_cbc_decrypt(key, iv, data):
    keys, out = _aes_keys(key), bytearray()
    for i in range(0, len(data), 16):
        block = data[i:i + 16]
        out += bytes(a ^ b for a, b in zip(_aes_block(keys, block, True), iv))
        iv = block
    return bytes(out)


def pkcs7(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def unpkcs7(data):
    if not data or len(data) % 16 or not 1 <= data[-1] <= 16 \
            or data[-data[-1]:] != bytes([data[-1]]) * data[-1]:
        return None
    return data[:-data[-1]]
