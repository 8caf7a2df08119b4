#!/usr/bin/env python3
"""corrupt.py OUT C04 C25 ...: are the recordings really compared?

Runs the quick check of each property.  Of the recordings of the real code that the specification
accepted, some are changed in one place each - a number, a letter of a text, an entry of a list left
out, repeated or exchanged with its neighbour - and checked again.  Each has to be rejected; places
where changes were accepted are listed with their number, by field."""
import json
import os
import random
import re
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vk'))
sys.dont_write_bytecode = True
import run   # noqa: E402
import vk    # noqa: E402

EACH = int(os.environ.get('EACH', '400'))


def places(o, path=()):
    """all leaves and lists"""
    if isinstance(o, dict):
        for k, v in o.items():
            yield from places(v, path + (k,))
    elif isinstance(o, list):
        if o:
            yield path
        for i, v in enumerate(o):
            yield from places(v, path + (i,))
    else:
        yield path


def at(o, path):
    for k in path:
        o = o[k]
    return o


def changed(r, v, module):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        far = module in ('TraceMemory', 'TraceWork')
        return v + 100000000 if far else 1 - v if v in (0, 1) else v + r.choice([-1, 1])
    if isinstance(v, str):
        return v
    v = list(v)
    i = r.randrange(len(v))
    how = r.choice('drop repeat swap'.split())
    if how == 'drop':
        del v[i]
    elif how == 'repeat':
        v.insert(i, v[i])
    elif i + 1 < len(v):
        v[i], v[i + 1] = v[i + 1], v[i]
    return v


def corrupted(r, line, module):
    d = json.loads(line)
    # one field first, so that long lists do not take all changes
    by_field = {}
    for p in places(d['o']):
        by_field.setdefault(tuple(x for x in p if isinstance(x, str)), []).append(p)
    for _ in range(20):
        path = r.choice(by_field[r.choice(list(by_field))])
        if not path:
            continue
        v = at(d['o'], path)
        w = changed(r, v, module)
        if w != v:
            at(d['o'], path[:-1])[path[-1]] = w
            return d, '.'.join('*' if isinstance(x, int) else x for x in path) + ('[]' if isinstance(v, list) else '')
    return None, ''


def main():
    out, pids = sys.argv[1], sys.argv[2:]
    check_all = run.check_all

    def spied(work, groups, timeout=800):
        v = check_all(work, groups, timeout)
        bad = {x['id'] for x in v.rejects}
        r = random.Random(7)
        for module, lines in groups.items():
            good = [l for l in lines if len(l) < 6000 and json.loads(l)['id'] not in bad]
            made, where = [], {}
            for i in range(EACH):
                if not good:
                    break
                d, path = corrupted(r, r.choice(good), module)
                if d:
                    d['id'] = '%s#%d' % (d['id'], i)
                    where[d['id']] = (path, d)
                    made.append(json.dumps(d, separators=(',', ':')) + '\n')
            malformed, caught, left = 0, set(), made
            while left and malformed < 60:
                w = run.check_file(work, module, left)
                if not w.malformed:
                    caught |= {x['id'] for x in w.rejects}
                    break
                malformed += 1
                caught.add(w.rejects[0]['id'])
                left = [l for l in left if json.loads(l)['id'] != w.rejects[0]['id']]
            missed = {}
            for i, (path, d) in where.items():
                if i not in caught:
                    missed.setdefault(path, []).append(d)
            with open(out, 'a') as f:
                f.write('%s %s: %d changed, %d rejected (%d not interpretable)\n' % (pid, module, len(made), len(caught), malformed))
                for p, ds in sorted(missed.items(), key=lambda x: -len(x[1])):
                    f.write('    %4d of %d  %s   e.g. %s\n' % (len(ds), sum(1 for q, _ in where.values() if q == p), re.sub(r'(\*\.)+', '*.', p), json.dumps(ds[0])[:300]))
        return v

    run.check_all = spied
    for pid in pids:
        vk.check(pid, 'quick', 1)


main()
