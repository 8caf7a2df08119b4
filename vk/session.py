"""Clients that interleave decodes (Session.tla): inputs for the histories the specification
enumerates, seeded long histories, and what every input amounts to on its own."""
import concurrent.futures
import json
import random

import gen
import run

QUESTIONS = ('fields', 'iname', 'sname', 'elist', 'print')
ALONE = {'cert': (0, 0, 0), 'der': (7, 0, 0), 'name': (8, 0, 0), 'ext': (9, 0, 0)}
HISTORIES_PER_POOL = 400


def accepted(r):
    return gen.build(gen.cert(r)) if r.random() < .8 else r.choice(gen.corpus())[0]


def near(r, b):
    """same length, one octet of a value changed"""
    b = bytearray(b)
    k = r.choice([i for i in range(len(b)) if b[i] > 64] or [len(b) - 1])
    b[k] ^= r.choice([1, 2, 3, 32])
    return bytes(b)


def inputs(r, n):
    """n inputs: two certificates first, often alike, and others"""
    a = accepted(r)
    b = r.choice([accepted(r), near(r, a), near(r, a), a, a[:-1] + bytes([a[-1] ^ 1])])
    out = [a, b]
    while len(out) < n:
        k = r.randrange(8)
        out.append([lambda: a[:r.randrange(1, len(a))], lambda: gen.spoil(r, a), lambda: gen.name_input(r), lambda: gen.ext_input(r), lambda: gen.der(r), lambda: gen.cert_input(r),
                    lambda: near(r, b), lambda: b''][k]())
    return [x[:2500] for x in out]


def long_history(r, n, slots, steps):
    ops = []
    for _ in range(steps):
        o = r.choice([0, 0, 0, 1, 2, 3, 4, 5, 1, 2, 3, 4, 6, 7, 7, 8, 9, 10, 11, 12])
        if o == 12:
            ops += (o, r.randrange(slots), r.randrange(60))
        else:
            ops += (o, r.randrange({10: n, 11: 30}.get(o, slots)), r.randrange(n))
    return ops


def many(seed):
    """histories in which inputs are decoded more often than counts of two octets tell apart"""
    r = random.Random('many %s' % seed)
    out = []
    for _ in range(8):
        pool = [p[:700] for p in inputs(r, 4)]
        ops = [0, 0, 0]
        for p in r.sample(range(4), 3):
            ops += (13, 1, p, 7, 0, p, 8, 0, p, 9, 0, p)
        out.append(case(pool, ops + [1, 0, 0, 4, 0, 0, 0, 1, 1]))
    return out


def case(pool, ops):
    return run.Case('sess', b''.join(pool), extra=[len(pool)] + [len(p) for p in pool] + list(ops))


def pools_of(c):
    n = c.extra[0]
    b, at, pool = c.bytes(), 0, []
    for k in c.extra[1:1 + n]:
        pool.append(b[at:at + k])
        at += k
    return pool, list(c.extra[1 + n:])


def cases(histories, seed, n_long):
    """the enumerated histories, each with a pool, and seeded ones"""
    r = random.Random('sessions %s' % seed)
    out, pool = [], None
    histories = list(histories)
    r.shuffle(histories)
    for k, ops in enumerate(histories):
        if k % HISTORIES_PER_POOL == 0:
            pool = inputs(r, 3)
        out.append(case(pool, ops))
    for k in range(n_long):
        if k % 20 == 0:
            pool = inputs(r, 8)
        out.append(case(pool, long_history(r, 8, 4, 60)))
    return out


def alone(harness, work, pool):
    """What each input amounts to: every question in a process that does nothing else; None if
    the library does not return."""
    def one(p):
        res = {}
        for q, ops in [*ALONE.items(), *[(q, (0, 0, 0, i + 1, 0, 0)) for i, q in enumerate(QUESTIONS)]]:
            c = case([p], ops)
            c.id, c.flags = 'alone:0', '-'
            o = json.loads(run.harness_chunk(harness, work, [c], 0)[0])['o']
            if o['p']:
                return None
            res[q] = o['log'][-2]
        res['ok'] = res['fields'] != ''
        return res
    with concurrent.futures.ThreadPoolExecutor(run.CPUS) as ex:
        return dict(zip(pool, ex.map(one, pool)))


def recordings(harness, work, cases, lines):
    """the recorded lines with the answers of the inputs of their pools put in"""
    by_id = {c.id: c for c in cases}
    table = alone(harness, work, sorted({p for c in cases for p in pools_of(c)[0]}))
    out = []
    for l in lines:
        d = json.loads(l)
        pool, ops = pools_of(by_id[d['id']])
        tab = [table[p] for p in pool]
        if None in tab:
            continue
        out.append(json.dumps({'id': d['id'], 'm': 'sess', 'tab': tab, 'y': ops, 'o': d['o']}, separators=(',', ':')) + '\n')
    return out
