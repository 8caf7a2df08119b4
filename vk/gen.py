"""Seeded inputs for trace validation: the library is run on them and the recording is checked
against the specification, which alone says what is right."""
import glob
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(os.path.dirname(HERE), 'corpus')


def length(n):
    if n < 128:
        return bytes([n])
    d = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 + len(d)]) + d


def tlv(i, c):
    return bytes([i]) + length(len(c)) + bytes(c)


# ------------------------------------------------------------------------------------------------
# trees: [id, kids or octets]

CONS = lambda i: i in (48, 49) or 128 <= i < 192 and i % 32 != 31


def parse(b, octets=False):
    """Octets to trees where they look like elements, None if they do not."""
    out, p = [], 0
    while p < len(b):
        if p + 2 > len(b):
            return None
        i, n, q = b[p], b[p + 1], p + 2
        if i & 31 == 31:
            return None
        if n > 127:
            k = n - 128
            if k == 0 or k > 4 or q + k > len(b):
                return None
            n, q = int.from_bytes(b[q:q + k], 'big'), q + k
        if q + n > len(b):
            return None
        body = b[q:q + n]
        kids = None
        if i & 32 or CONS(i) or (octets and i == 4):
            kids = parse(body, octets)
            if kids is not None and not kids and not i & 32:
                kids = None
        out.append([i, bytes(body) if kids is None else kids])
        p = q + n
    return out


def build(t):
    return b''.join(tlv(i, c if isinstance(c, (bytes, bytearray)) else build(c)) for i, c in t)


def copy(t):
    return [[i, c if isinstance(c, bytes) else copy(c)] for i, c in t]


def spots(t, acc=None):
    """(list, index) of every node"""
    acc = [] if acc is None else acc
    for k, n in enumerate(t):
        acc.append((t, k))
        if not isinstance(n[1], bytes):
            spots(n[1], acc)
    return acc


IDS = [1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 128, 129, 130, 131, 134, 135, 136, 160, 161, 162, 163, 10, 17, 20, 26, 30, 31, 36, 67, 112, 159, 191, 224]


def content(r, i):
    k = i if i < 32 else 4
    if k == 1:
        return bytes([r.choice([0, 255, 255, 0, 1, 254])]) * r.choice([1, 1, 1, 1, 0, 2])
    if k == 2:
        return bytes(r.choice([0, 1, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4, 5, 9, 20, 0])))
    if k == 3:
        d = r.randbytes(r.choice([0, 1, 1, 2, 3, 17, 33]))
        return bytes([r.choice([0, 0, 0, 1, 3, 7, 8, 255]) if d else r.choice([0, 0, 1])]) + d
    if k == 5:
        return b'' if r.random() < .9 else b'\0'
    if k == 6:
        out = bytearray()
        for _ in range(r.choice([1, 2, 2, 3, 5])):
            v = r.choice([r.randrange(128), r.randrange(1 << 14), r.randrange(1 << 28), 39, 40, 79, 80, 127, 128, r.randrange(1 << 35)])
            d = [v & 127]
            v >>= 7
            while v:
                d.append(v & 127 | 128)
                v >>= 7
            out += bytes(reversed(d))
        if r.random() < .03:
            out.append(r.randrange(128, 256))
        return bytes(out) if r.random() < .97 else b''
    if k in (12, 19, 22):
        if r.random() < .15:
            return r.randbytes(r.randrange(6))
        return ''.join(r.choice(['a', 'B', ' ', '\n', '\0', 'é', '߿', 'ࠀ', '퟿', '', '�', '𐀀', '\U0010ffff', ':']) for _ in range(r.randrange(12))).encode()
    if k in (23, 24):
        y = r.choice([1970, 1999, 2000, 2001, 2024, 2049, 1969, 1950, r.randrange(1970, 2050)] + ([9999, 2050, 2100, r.randrange(10000)] if k == 24 else []))
        m = r.choice([1, 2, 2, 12, 11, r.randrange(1, 13), 13, 0])
        d = r.choice([1, 28, 29, 30, 31, r.randrange(1, 29), r.randrange(1, 29), 0, 32])
        s = '%02d%02d%02d%02d%02dZ' % (m, d, r.choice([0, 23, 12, r.randrange(24), 24]), r.choice([0, 59, r.randrange(60), 60]), r.choice([0, 59, r.randrange(60), 60]))
        s = ('%04d' % y if k == 24 else '%02d' % (y % 100)) + s
        s = s.encode()
        if r.random() < .1:
            s = bytearray(s)
            s[r.randrange(len(s))] = r.choice([43, 45, 46, 48, 57, 58, 47, 90, 122, 32, 255])
            s = bytes(s)
        return s
    return r.randbytes(r.choice([0, 1, 2, 5, 16, 17, 40, 127, 128, 129, 256])) if r.random() < .5 else b'ab'


def tree(r, depth):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        if depth and r.random() < .5:
            out.append([r.choice([48, 48, 49, 160, 163, 129, 158, 190]), tree(r, depth - 1)])
        else:
            i = r.choice([1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24])
            out.append([i, content(r, i)])
    return out


def change(r, t, pool=None):
    """one structural change, in place"""
    s = spots(t)
    if not s:
        return
    l, k = r.choice(s)
    n = l[k]
    op = r.randrange(10)
    if op == 0:
        del l[k]
    elif op == 1:
        l.insert(k, copy([n])[0])
    elif op == 2 and len(l) > 1:
        j = r.randrange(len(l))
        l[k], l[j] = l[j], l[k]
    elif op == 3:
        n[0] = r.choice(IDS)
    elif op == 4:
        i = r.choice(IDS)
        l.insert(k + r.randrange(2), [i, content(r, i)])
    elif op == 5:
        n[1] = content(r, n[0])
    elif op == 6 and isinstance(n[1], bytes) and n[1]:
        c = bytearray(n[1])
        c[r.randrange(len(c))] = r.choice([0, 1, 127, 128, 255, r.randrange(256)])
        n[1] = bytes(c)
    elif op == 7:
        c = n[1] if isinstance(n[1], bytes) else build(n[1])
        n[1] = c[:r.randrange(len(c) + 1)]
    elif op == 8:
        c = n[1] if isinstance(n[1], bytes) else build(n[1])
        n[1] = c + r.choice([b'\0', b'\5\0', b'\x30', b'\4\2a', b'\xff'])
    elif pool:
        n[:] = copy([r.choice(pool)])[0]
    else:
        l[k] = [r.choice([48, 49, 160]), [n]]


def spoil(r, b):
    """octet level changes"""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not b:
            break
        p = r.randrange(len(b))
        op = r.randrange(6)
        if op == 0:
            b[p] ^= 1 << r.randrange(8)
        elif op == 1:
            b[p] = r.choice([0, 1, 5, 48, 127, 128, 129, 130, 255, r.randrange(256)])
        elif op == 2:
            del b[p]
        elif op == 3:
            b.insert(p, r.choice([0, 5, 48, 128, 255, r.randrange(256)]))
        elif op == 4:
            del b[p:]
        else:
            b[p] = (b[p] + r.choice([1, 255])) & 255
    return bytes(b)


def der(r):
    t = tree(r, r.choice([0, 1, 2, 3, 4, 6]))
    x = r.random()
    if x < .35:
        for _ in range(r.choice([1, 1, 2])):
            change(r, t)
    b = build(t)
    if x > .7:
        b = spoil(r, b)
    return b


# ------------------------------------------------------------------------------------------------
# certificates

def oid(*a):
    out = bytearray()
    for v in (40 * a[0] + a[1],) + a[2:]:
        d = [v & 127]
        v >>= 7
        while v:
            d.append(v & 127 | 128)
            v >>= 7
        out += bytes(reversed(d))
    return [6, bytes(out)]


ATTRS = [3, 6, 7, 8, 10, 11]


def name(r):
    out = []
    ids = r.sample(ATTRS, r.randrange(len(ATTRS) + 1))
    if r.random() < .1 and ids:
        ids.append(r.choice(ids))
    attrs = [[48, [oid(2, 5, 4, n), [r.choice([12, 19, 22]), content(r, 12)]]] for n in ids]
    for _ in range(r.choice([0, 0, 1, 2])):
        i = r.choice([12, 2, 5, 4, 23])
        attrs.append([48, [r.choice([oid(2, 5, 4, 5), oid(1, 2, 840, 113549, 1, 9, 1), oid(2, 5, 4, 12), oid(2, 5, 29, 3)]), [i, content(r, i)]]])
    r.shuffle(attrs)
    while attrs:
        k = r.choice([1, 1, 1, 2, 3])
        out.append([49, attrs[:k]])
        attrs = attrs[k:]
    return [48, out]


def alg(r):
    return [48, [r.choice([oid(1, 2, 840, 113549, 1, 1, 5), oid(1, 3, 101, 112), oid(1, 2, 840, 113549, 1, 1, 11), oid(1, 2, 840, 10045, 4, 3, 2)])]
            + r.choice([[], [[5, b'']], [[5, b'']], [[48, []]], [oid(1, 2, 840, 10045, 3, 1, 7)]])]


def good(r, i, n=50):
    return content(r, i)


def gname(r):
    t = r.choice([1, 2, 6, 7, 8, 1, 2, 6, 7, 8, r.randrange(12)])
    c = {1: b'a@b.c', 2: b'www.example', 6: b'http://x/y', 7: bytes([10, 0, 0, r.randrange(256)]), 8: oid(1, 3, 6, r.randrange(500))[1]}.get(t, b'x')
    if r.random() < .2:
        c = content(r, r.choice([4, 12, 6]))
    return [128 + t + r.choice([0, 0, 0, 32]), c]


def ext(r):
    k = r.randrange(8)
    if k == 0:
        o, c = oid(2, 5, 29, 14), [4, r.randbytes(r.choice([0, 8, 20, 32]))]
    elif k == 1:
        o, c = oid(2, 5, 29, 15), [3, r.choice([b'\0', bytes([r.randrange(8), r.randrange(256)]), bytes([r.randrange(8)]) + r.randbytes(2), content(r, 3)])]
    elif k == 2:
        o, c = oid(2, 5, 29, 17), [48, [gname(r) for _ in range(r.randrange(5))]]
    elif k == 3:
        o, c = oid(2, 5, 29, 19), [48, r.choice([[], [[1, b'\xff']], [[1, b'\0']]]) + r.choice([[], [], [[2, content(r, 2)]], [[2, bytes([r.randrange(256)])]]])]
    elif k == 4:
        o, c = oid(2, 5, 29, 37), [48, [oid(1, 3, 6, 1, 5, 5, 7, 3, r.choice([1, 2, 3, 4, 8, 9, 1, 2, 3, 4, 8, 9, 5, r.randrange(300)])) for _ in range(r.randrange(5))]]
    elif k == 5:
        o, c = oid(1, 3, 6, 1, 4, 1, 50316, 802, 1), [12, content(r, 12)]
    elif k == 6:
        o, c = oid(2, 5, 29, r.randrange(60)), r.choice([[4, b'ab'], [48, []], [3, b'\1\x80']])
    else:
        o, c = oid(1, 3, 6, 1, 5, 5, 7, 1, 1), [48, [[48, [oid(1, 2, 3), [134, b'http://x']]]]]
    body = [4, [c]] if r.random() < .95 else [4, r.randbytes(r.randrange(20))]
    return [48, [o] + r.choice([[], [], [[1, b'\xff']], [[1, b'\0']]]) + [body]]


def stamp(r):
    if r.random() < .3:
        return [24, b'%04d%02d%02d%02d%02d%02dZ' % (r.choice([1970, 2000, 2050, 9999, r.randrange(1970, 9999)]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))]
    return [23, b'%02d%02d%02d%02d%02d%02dZ' % (r.choice([70, 99, 0, 49, r.randrange(50)]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60))]


def cert(r):
    bits = lambda: [3, bytes([r.choice([0, 0, 0, r.randrange(8)])]) + r.randbytes(r.choice([1, 2, 16, 33]))]
    exts = [ext(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
    tbs = (r.choice([[], [[160, [[2, bytes([r.choice([0, 1, 2, 2, 2, 3])])]]]], [[160, [[2, b'\2']]]]])
           + [[2, r.choice([bytes([r.randrange(256)]), r.randbytes(8), r.randbytes(20)])], alg(r), name(r), [48, [stamp(r), stamp(r)]], name(r), [48, [alg(r), bits()]]]
           + r.choice([[], [], [], [[129, bits()[1]]]]) + r.choice([[], [], [], [[130, bits()[1]]]])
           + ([[163, [[48, exts]]]] if exts or r.random() < .3 else []))
    return [[48, [[48, tbs], alg(r), bits()]]]


_corpus = []


def corpus():
    if not _corpus:
        for f in sorted(glob.glob(os.path.join(CORPUS, '*'))):
            b = open(f, 'rb').read()
            _corpus.append((b, parse(b, True)))
    return _corpus


def cert_input(r):
    x = r.random()
    if x < .25:
        b, t = r.choice(corpus())
        if r.random() < .5:
            return spoil(r, b)
        t = copy(t)
    else:
        t = cert(r)
    if x < .35 or x > .7:
        pool = [l[k] for l, k in spots(cert(r))]
        for _ in range(r.choice([1, 1, 1, 2])):
            change(r, t, pool)
    b = build(t)
    if .6 < x < .7:
        b = spoil(r, b)
    return b


def ext_input(r):
    t = ext(r)[1]
    x = r.random()
    if x < .4:
        t = copy(t)
        for _ in range(r.choice([1, 1, 2])):
            change(r, t)
    b = build(t)
    return spoil(r, b) if x > .85 else b


def name_input(r):
    t = name(r)[1]
    x = r.random()
    if x < .4:
        t = copy(t)
        for _ in range(r.choice([1, 1, 2])):
            change(r, t)
    b = build(t)
    return spoil(r, b) if x > .85 else b


GEN = {'der': der, 'cert': cert_input, 'ext': ext_input, 'name': name_input}


def cases(kind, seed, n):
    r = random.Random('%s %s' % (kind, seed))
    f = GEN[kind]
    return [f(r) for _ in range(n)]


def pairs(seed, n):
    """pairs of inputs: unrelated, the same, or different in a few octets"""
    r = random.Random('pairs %s' % seed)
    out = []
    for _ in range(n):
        a = der(r)
        while len(a) > 250:
            a = der(r)
        x = r.random()
        if x < .2:
            b = a
        elif x < .7:
            b = bytearray(a)
            for _ in range(r.choice([1, 1, 1, 2, 3]) if b else 0):
                k = r.randrange(len(b))
                b[k] = r.choice([b[k] ^ 1 << r.randrange(8), r.choice([0, 1, 127, 128, 255]), r.randrange(256)])
            b = bytes(b)
        else:
            b = der(r)
            while len(b) > 250:
                b = der(r)
        out.append((a, b))
    return out


# ------------------------------------------------------------------------------------------------
# Shapes.tla, for sizes TLC is not asked to build; equality at small sizes is checked on every run

def wrap(i, n, inner, after=b''):
    """n nested containers"""
    size, heads = len(inner), []
    for _ in range(n):
        h = bytes([i]) + length(size)
        heads.append(h)
        size += len(h) + len(after)
    return b''.join(reversed(heads)) + inner + after * n


def shape(s, n):
    null = b'\5\0'
    if s == 1:
        return wrap(48, n, b'')
    if s == 2:
        return wrap(49, n, b'\0')
    if s == 3:
        return null * n
    if s == 4:
        return b'\x30\0' * n
    if s == 5:
        return wrap(160, n, b'', null)
    if s == 6:
        return wrap(48, n, null) + b'\x30\0'
    if s == 7:
        return tlv(4, b'0' * n)
    if s == 8:
        return tlv(49, null * n + b'\4\x09\1')
    if s == 9:
        return tlv(6, b'\x2b' + b'\1' * n)
    if s == 10:
        return tlv(3, b'\5' + b'\xa0' * n)
    if s == 11:
        return tlv(12, b'a' * n)
    if s == 12:
        heads, size = [], 0
        for _ in range(n):
            heads.append(b'\5\0\xa1' + length(size))
            size += len(heads[-1])
        return b''.join(reversed(heads))
    if s == 13:
        return tlv(12, b'a' * n + b'\xff')
    if s == 14:
        return b'\x30\2\5\0' * n
    return large(s, n)


def oid_octets(*arcs):
    return tlv(6, oid(*arcs)[1])


PLAIN_NAMES = (tlv(48, b'') + tlv(48, tlv(23, b'200101120000Z') + tlv(23, b'301231120000Z'))
               + tlv(48, tlv(49, tlv(48, oid_octets(2, 5, 4, 10) + tlv(22, b'org')))))


def large(s, n):
    ed, name = tlv(48, oid_octets(1, 3, 101, 112)), tlv(12, b'x')
    attr = tlv(48, oid_octets(2, 5, 4, 40) + name)
    usage = tlv(48, oid_octets(2, 5, 29, 15) + b'\1\1\xff' + tlv(4, b'\3\2\5\xa0'))
    server = oid_octets(1, 3, 6, 1, 5, 5, 7, 3, 1)

    def cert(exts=None, serial=b'\7', sig=b'\0\x69'):
        opts = b'' if exts is None else tlv(0xa3, tlv(48, exts))
        return tlv(48, tlv(48, (b'' if exts is None else b'\xa0\3\2\1\2') + tlv(2, serial) + ed + PLAIN_NAMES + tlv(48, ed + b'\3\2\0\xb2') + opts) + ed + tlv(3, sig))

    def ext(arcs, crit, content):
        return oid_octets(*arcs) + crit + tlv(4, content)

    if s == 21:
        return cert(b''.join(tlv(48, oid_octets(1, 2, i) + b'\4\1\5') for i in range(1, n + 1)))
    if s == 22:
        return cert(usage * n)
    if s == 23:
        return ext((2, 5, 29, 17), b'', tlv(48, b'\x82\1a' * n))
    if s == 24:
        return ext((2, 5, 29, 37), b'\1\1\0', tlv(48, server * n))
    if s == 25:
        return tlv(49, attr) * n
    if s == 26:
        return tlv(49, attr * n)
    if s == 27:
        return ext((2, 5, 29, 14), b'', tlv(4, b'\7' * n))
    if s == 28:
        return cert(None, b'\7' * n, b'\0' + b'\7' * n)
    if s == 29:
        return ext((2, 5, 29, 37), b'\1\1\0', tlv(48, server * n + oid_octets(1, 3)))
    if s == 30:
        return tlv(49, tlv(48, oid_octets(2, 5, 4, 3) + tlv(12, b'a' * n))) + tlv(49, tlv(48, oid_octets(2, 5, 4, 3) + tlv(12, b'b')))
    if s == 31:
        return tlv(49, tlv(48, oid_octets(2, 5, 4, 3) + tlv(12, b'a' * n)))
    if s == 32:
        return ext((2, 5, 29, 17), b'', tlv(48, tlv(0x87, b'\7' * n)))
    if s == 33:
        return ext((2, 5, 29, 17), b'', tlv(48, tlv(0x88, b'\x2b' + b'\1' * n)))
    if s == 34:
        return cert(usage * n + b'\5\0')
    if s in (36, 37):
        return ext((1, 3, 6, 1, 4, 1, 50316, 802, 1), b'', tlv(12, b'a' * n + b'\xff' * (s - 36)))
    if s == 38:
        return ext((2, 5, 29, 19), b'\1\1\xff', tlv(48, tlv(2, b'\7' * (n + 4))))
    if s == 39:
        return ext((2, 5, 29, 17), b'', tlv(48, b'\x86\1a' * n + b'\x84\0'))
    if s == 40:
        return tlv(49, attr) * n + b'\x31\0'
    return ext((2, 5, 29, 15), b'\1\1\xff', tlv(3, b'\0' + b'\x55' * n))
