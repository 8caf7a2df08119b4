"""Whether a rejected recording shows that decoding is more than a function of the bytes (C27).

A recording can be rejected because the code always decodes that input wrongly, which breaks other
properties, or because the outcome depends on something else or is not composed of the outcomes
for the parts.  The latter two are told apart from the former by recording the input again:
several times in a new process, with other inputs in between and other octets around it, and (for
generic decodes) by recording everything it is composed of on its own."""
import json

import gen
import run

LIMIT = 160          # rejected recordings looked at, smallest first
SIZE = 3000          # larger inputs are not taken apart
CONTAINER = {48, 49} | {b for b in range(128, 192) if b % 32 != 31}
PRIMITIVE = {1, 2, 3, 4, 5, 6, 12, 19, 22, 23, 24}


def header(b):
    """length of the header and of the whole of the first element, None if it is not well-formed"""
    if len(b) < 2 or b[0] not in CONTAINER | PRIMITIVE:
        return None
    h, n = 2, b[1]
    if n >= 128:
        k = n - 128
        if not 1 <= k <= 4 or len(b) < 2 + k:
            return None
        h, n = 2 + k, int.from_bytes(b[2:2 + k], 'big')
        if gen.length(n) != b[1:h]:
            return None
    return (h, h + n) if h + n <= len(b) else None


def split(b):
    """(parts, wrapped): the first element and the rest, or the contents of the only element"""
    x = header(b)
    if x is None:
        return [], False
    h, n = x
    if n < len(b):
        return [b[:n], b[n:]], False
    return ([b[h:]], True) if b[0] in CONTAINER else ([], False)


def shifted(events, by):
    return [dict(e, a=e['a'] + by) if e['e'] == 'T' and e.get('n') else e for e in events]


def composed(b, log, logs):
    """whether the events for b are what those for its parts make them"""
    parts, wrapped = split(b)
    if not parts:
        return True
    x = header(b)
    if wrapped:
        if len(log) < 2 or log[0]['e'] != 'T' or log[1]['e'] != 'B':
            return log[0]['e'] == 'X'       # the element itself is refused
        inner = shifted(logs[parts[0]], x[0])
        return log[2:] == (inner[:-1] + [{'e': 'E'}] + inner[-1:] if inner[-1].get('ok') else inner)
    a, c = logs[parts[0]], logs[parts[1]]
    return log == (a[:-1] + shifted(c, x[1]) if a[-1].get('ok') else a)


def again(c, n, flags):
    d = run.Case(c.mode, c.pre, c.fb, c.fn, c.post, c.extra, flags=flags)
    d.id = n
    return d


def events(line):
    return json.loads(line)['o']['ev']


def confirmed(harness, work, rejected, lines, others, deadline):
    """The rejected cases, of (case, rejection), for which there is evidence of the above."""
    if not rejected:
        return []
    rejected = sorted(rejected, key=lambda x: (len(x[0].bytes()), x[0].bytes()))[:LIMIT]
    was = {}
    for l in lines:
        was.setdefault(l[7:l.index('"', 7)], set()).add(l[l.index('"o":'):].strip())
    out = []
    plain = [(c, r) for c, r in rejected if c.mode in ('der', 'cert', 'ext', 'name')]
    batch, origin = [], {}
    for i, (c, _) in enumerate(plain):
        for j in range(9):
            d = again(c, 'again%d.%d' % (i, j), c.flags)
            batch.append(d)
            origin[d.id] = i
            for k in range(j % 3):
                o = others[(7 * i + 3 * j + k) % len(others)] if others else c
                batch.append(again(o, 'other%d.%d.%d' % (i, j, k), o.flags))
    seen = [set(was[c.id]) for c, _ in plain]
    for d, l in zip(batch, run.harness_chunk(harness, work, batch, deadline)):
        if d.id in origin:
            seen[origin[d.id]].add(l[l.index('"o":'):].strip())
    rest = []
    for (c, r), s in zip(plain, seen):
        if len(s) > 1:
            out.append((c, r))
        elif c.mode == 'der' and len(c.bytes()) <= SIZE:
            rest.append((c, r))
    pieces = {}
    for c, _ in rest:
        todo = [c.bytes()]
        while todo:
            b = todo.pop()
            if b not in pieces:
                pieces[b] = None
                todo += split(b)[0]
    cases = []
    for i, b in enumerate(pieces):
        cases.append(again(run.Case('der', b), 'piece%d' % i, 't'))
    for c, l in zip(cases, run.harness_chunk(harness, work, cases, deadline)):
        pieces[c.bytes()] = events(l)
    for c, r in rest:
        todo, fine = [c.bytes()], True
        while todo and fine:
            b = todo.pop()
            if pieces[b] is None:
                continue
            ps = split(b)[0]
            if all(pieces[p] is not None for p in ps):
                fine = composed(b, pieces[b], pieces)
            todo += ps
        if not fine:
            out.append((c, r))
    return out
