#!/usr/bin/env python3
"""vk.py setup | check <property> [--tier quick|thorough] [--seed N] | replay <file>"""
import concurrent.futures
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import compose   # noqa: E402
import gen    # noqa: E402
import plan   # noqa: E402
import run    # noqa: E402
import session   # noqa: E402
from run import Case, ToolError, log   # noqa: E402


def known_findings():
    """known: property=<id> mode=<mode> input=<hex> <text>"""
    out = {}
    p = os.path.join(run.ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) mode=(\S+) input=(\S*) (.*)', l)
            if m:
                out[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    return out


FAULTS = [(c, re.compile(p)) for c, p in (
    ('EndOfStream', r'Consumed all input before '), ('BadBooleanLength', r'Bad boolean length: '), ('BadBooleanValue', r'Bad boolean value: '),
    ('ZeroLengthInteger', r'zero length integer'), ('NullWithContents', r'NULL type w/ non-empty'), ('UnsupportedId', r'Unsupported id: '),
    ('IndefiniteLength', r'Encountered indefinite length'), ('ReservedLength', r'Length byte count of 127 is'), ('LengthByteCount', r'Length byte count of '),
    ('BadLengthEncoding', r'Value \d+ encoded using '), ('BadOidLength', r'Bad OID length'), ('BadUTF8', r'Bad UTF8 encoding: '), ('BadUTCTime', r'Bad UTC time string'),
    ('UnusedBits', r'Bit string w/ unused bits'), ('UnexpectedType', r'Expected .*, but type is '), ('ExpectedEnd', r'Expected end of stream'),
    ('IntegerTooLarge', r'The integer length exceeds'), ('BadEnumValue', r"The enum '"), ('UnexpectedOid', r'The Object Identifier '), ('UnexpectedTag', r'The explicit tag '))]


def fault(text):
    """which fault the words of a reported error are about, '?' if they are none of the known ones"""
    text = bytes(text).decode('utf8', 'replace') if isinstance(text, list) else ''
    return next((c for c, p in FAULTS if p.match(text)), '?')


def parts(e, o):
    """in which respects two recorded values differ"""
    if isinstance(e, list) and isinstance(o, list):
        if len(e) != len(o):
            return {'presence'}
        return set().union(*(parts(x, y) for x, y in zip(e, o))) if e != o else set()
    if isinstance(e, dict) and isinstance(o, dict):
        names = {'a': 'slice', 'n': 'slice', 'v': 'value'}
        return {names.get(k, k) for k in set(e) | set(o) if e.get(k) != o.get(k)}
    return {'value'} if e != o else set()


def details(rej):
    """The aspects in which a recording was rejected, each with what it is about: the element kind
    and the reported fault of an element that was refused, the fault that was passed over, the part
    of a field that differs, the kinds of the extensions concerned."""
    e, o = rej.get('expected'), rej.get('observed')
    e, o = e if isinstance(e, dict) else {}, o if isinstance(o, dict) else {}
    d = {}
    for w in rej['why']:
        det = ''
        if 'k' in e or 'e' in e:
            det = e.get('k') or (e['t'][0] if isinstance(e.get('t'), list) and e['t'] else '')
            if w == 'rejected':
                det += '/' + fault(o.get('s'))
        elif isinstance(e.get('r'), dict) and '.' in w:
            call, aspect = w.split('.')
            er, orr = e['r'].get(call), o.get(call)
            er, orr = er if isinstance(er, dict) else {}, orr if isinstance(orr, dict) else {}
            if aspect in ('accepted', 'error'):
                det = (er.get('err') or [''])[0]
            elif aspect == 'rejected':
                det = fault(orr.get('s'))
                if call in ('ext', 'elist'):
                    det += '/' + '+'.join(sorted({x['kind'] for x in er.get('f') or []}))
            elif call == 'cert':
                ef, of = e['r'].get('f'), o.get('f')
                if isinstance(ef, dict) and isinstance(of, dict) and aspect in ef and aspect in of:
                    det = '+'.join(sorted(parts(ef[aspect], of[aspect])))
            elif call in ('iname', 'sname'):
                ef, of = er.get('f'), orr.get('f')
                if isinstance(ef, dict) and isinstance(of, dict):
                    det = '+'.join(sorted(parts(ef.get(aspect), of.get(aspect))))
            elif call in ('ext', 'elist') and aspect != 'count':
                pairs = list(zip(er.get('f') or [], orr.get('f') or []))
                det = '+'.join(sorted({x['kind'] for x, y in pairs if x.get(aspect) != y.get(aspect)}))
        elif isinstance(e.get('t'), list) and e['t']:
            det = e['t'][0]
        d[w] = '%s@%s' % (w, det)
    return d


def relevant(spec, case, rej):
    """The labels of this rejection that break the property.  What an input that was wrongly
    accepted is about is not known from the recording; it then has to contain one of the
    identifiers the property is about."""
    only = spec.get('only')
    pats = [re.compile(p) for p in spec['labels']]
    out = []
    for l in details(rej).values():
        if only and '.accepted@' in l and not any(x in case.bytes().hex() for x in only):
            continue
        if l.startswith('malformed@') or any(p.fullmatch(l) for p in pats):
            out.append(l)
    return out


def memory_cases(cases):
    """the same inputs, for recordings of the memory they take"""
    out = []
    for c in cases:
        for call in {'der': [0], 'cert': [1, 4], 'ext': [2], 'name': [3], 'sum': [5]}.get(c.mode, []):
            m = Case('mem', c.pre, c.fb, c.fn, c.post, (call,) + (c.extra if call == 5 else ()), flags='z' if call == 5 else '-')
            m.id = '%s:%d' % (c.id.split(':')[0], len(out))
            out.append(m)
    return out


def work_cases(cases):
    """large inputs, for recordings of the time they take"""
    out = []
    for c in cases:
        if c.mode in ('sum', 'time'):
            m = Case('time', c.pre, c.fb, c.fn, c.post, c.extra, flags='z')
            m.id = '%s:%d' % (c.id.split(':')[0], len(out))
            out.append(m)
    return out


def accepted_sample(cases, v, seed):
    bad = {r['id'] for r in v.rejects}
    good = [c for c in cases if c.id not in bad and c.mode in ('der', 'cert', 'ext', 'name')]
    return random.Random(seed).sample(good, min(200, len(good)))


def check(pid, tier, seed):
    t0 = time.time()
    spec = plan.P[pid]
    deadline = t0 + (600 if tier == 'quick' else 6 * 3600)
    bins = run.build()
    os.makedirs(os.path.join(run.BUILD, 'work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid, dir=os.path.join(run.BUILD, 'work'))
    try:
        return check_in(work, bins, pid, spec, tier, seed, t0, deadline)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(work, bins, pid, spec, tier, seed, t0, deadline):
    harness, decoder = bins
    families = dict(spec['families'])
    if tier == 'thorough':
        families.update({f: v for f, v in spec['more'].items() if f not in families})
    limit = 800 if tier == 'quick' else 4 * 3600
    # --- the specification is checked, and enumerates inputs
    fam_stats, cases, states, transitions = [], [], 0, 0
    seen = set()

    def add(c, flags, origin):
        k = c.key()
        if k in seen:
            return False
        seen.add(k)
        c.flags = flags or '-'
        c.id = '%s:%d' % (origin, len(cases))
        cases.append(c)
        return True

    workers = 2 if len(families) > 3 else max(2, run.CPUS // max(1, len(families)))
    pool = concurrent.futures.ThreadPoolExecutor(max(1, run.CPUS // workers + 1))
    jobs = {f: pool.submit(run.model, work, plan.FAMILIES[f], plan.config(f, tier), workers, '3g', limit) for f in families}
    shape_bytes = {}
    for f, job in jobs.items():
        t, cs = job.result()
        if t.error:
            pool.shutdown(cancel_futures=True)
            raise ToolError('the specification does not have a property it is checked for: family %s\n%s' % (f, t.error))
        n = 0
        if cs and cs[0].mode == 'sess':
            histories = [c.extra for c in cs]
            cs = session.cases(histories, '%s %d' % (pid, seed), spec['sessions'][tier != 'quick'])
            often = session.many('%s %d' % (pid, seed))
            cs += often
        for c in cs:
            flags = families[f]
            if c.mode in ('sum', 'time'):
                shape_bytes[tuple(c.extra)] = c.bytes()
                flags = 'z'
            elif 'z' in flags:
                flags = '-'
            if c.mode in ('bits', 'prim', 'valid', 'con', 'sess', 'pair', 'made'):
                flags = '-'
            n += add(c, flags, f)
        states += t.states
        transitions += t.transitions
        fam_stats.append({'family': f, 'module': plan.FAMILIES[f], 'states': t.states, 'transitions': t.transitions, 'inputs': n})
    pool.shutdown()
    # --- shapes too large for TLC to build; the builder is compared with TLC's at small sizes
    if 'shapes' in spec:
        for (s, n), b in shape_bytes.items():
            if gen.shape(s, n) != b:
                raise ToolError('shape builder differs from Shapes.tla at shape %d size %d' % (s, n))
        for s, sizes in spec['shapes'][0 if tier == 'quick' else 1].items():
            for n in sizes:
                if s == 7:
                    add(Case('sum', b'\4' + gen.length(n), 48, n, b'', (s, n)), 'z', 'shape')
                else:
                    add(Case('sum', gen.shape(s, n), 0, 0, b'', (s, n)), 'z', 'shape')
    # --- seeded inputs
    random_counts = {}
    for kind, (q, th, flags) in spec['random'].items():
        n = q if tier == 'quick' else th
        before = len(cases)
        if kind == 'cli':
            r = random.Random('cli %d' % seed)
            for _ in range(n):
                flag = r.choice(['--der', '--certs'])
                b = gen.GEN[r.choice(['der', 'cert', 'cert'])](r)
                if len(b) < 3000:
                    add(Case('cli', b, args=[flag, 'FILE'], file='regular'), '-', 'random')
        elif kind == 'pair':
            for a, b in gen.pairs('%s %d' % (pid, seed), n):
                add(Case('pair', a + b, extra=(len(a),)), '-', 'random')
        else:
            for b in gen.cases(kind, '%s %d' % (pid, seed), n):
                add(Case(kind, b), flags, 'random')
        random_counts[kind] = len(cases) - before
    if spec.get('corpus'):
        for b, _ in gen.corpus():
            if pid == 'C26':
                for flag in ('--der', '--certs'):
                    add(Case('cli', b, args=[flag, 'FILE'], file='regular'), '-', 'corpus')
            else:
                add(Case('cert', b), 'p' if pid == 'C25' else '-', 'corpus')
    if spec.get('work'):
        cases = work_cases(cases)
    if spec.get('memory'):
        cases = memory_cases(cases)
    t1 = time.time()
    # --- the real code is run on all of them
    if run.partial() and any(c.mode == 'made' for c in cases):
        raise ToolError('clients can no longer put values together')
    lib = [c for c in cases if c.mode not in ('cli', 'con', 'sess')]
    sess = [c for c in cases if c.mode == 'sess']
    con = [c for c in cases if c.mode == 'con']
    cli = [c for c in cases if c.mode == 'cli']
    lines = run.observe(harness, work, lib, deadline)
    threads = 0
    if 'threads' in spec:
        many = [c for c in lib if c.id.split(':')[0] in spec['threads'] and c.mode != 'sum']
        extra = run.observe_threads(harness, work, many, 8) + run.observe_threads(harness, work, many, 0)
        threads = len(extra)
        known = set(lines)
        lines += [l for l in extra if l not in known]
    if sess:
        ls = run.observe(harness, work, sess, deadline)
        known = set(ls)
        extra = run.observe_threads(harness, work, [c for c in sess if c not in often], 8)
        extra += run.observe_threads(harness, work, [c for c in sess if c not in often][::7], 0)
        threads += len(extra)
        lines += session.recordings(harness, work, sess, ls + [l for l in extra if l not in known])
    if con:
        lines += run.observe_console(harness, work, con)
    if cli:
        lines += run.observe_cli(decoder, work, cli)
    t2 = time.time()
    # --- the recordings are checked against the specification
    by_id = {c.id: c for c in cases}
    groups = {}
    for l in lines:
        i = l[7:l.index('"', 7)]
        groups.setdefault(run.trace_module(by_id[i]), []).append(l)
    v = run.check_all(work, groups, limit)
    t3 = time.time()
    # --- verdict
    known, violations, other, quiet = known_findings(), [], 0, {}
    for rej in v.rejects:
        c = by_id[rej['id']]
        labels = relevant(spec, c, rej)
        if not labels:
            other += 1
            continue
        k = (pid, c.mode, c.bytes().hex())
        if k in known:
            quiet[k] = known[k]
            continue
        violations.append((len(c.bytes()), c, rej, labels))
    if spec.get('confirm'):
        sure = compose.confirmed(harness, work, [x[1:3] for x in violations if x[1].mode != 'sess'], lines, accepted_sample(cases, v, seed), time.time() + 200)
        sure = {c.id for c, _ in sure} | {x[1].id for x in violations if x[1].mode == 'sess'}
        other += sum(x[1].id not in sure for x in violations)
        violations = [x for x in violations if x[1].id in sure]
    violations.sort(key=lambda x: x[0])
    samples = []
    r = random.Random(seed)
    for c in r.sample(cases, min(3, len(cases))):
        b = c.bytes() if c.fn < 1000 else c.pre
        s = {'origin': c.id.split(':')[0], 'mode': c.mode, 'input': b[:80].hex() + ('..' if len(b) > 80 else ''), 'length': len(c.pre) + c.fn + len(c.post)}
        if c.mode == 'cli':
            s['args'], s['file'] = c.args, c.file
        samples.append(s)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions,
            'traces_validated_against_impl': v.good + v.bad,
            'trace_states': v.states,
            'inputs_enumerated_by_the_specification': sum(f['inputs'] for f in fam_stats),
            'seeded_inputs': random_counts,
            'thread_recordings': threads,
            'families': fam_stats,
            'rejected_recordings_of_other_properties': other,
            'samples': samples,
        },
        'assumptions': ['TLC evaluates the specification correctly', 'the harness records what the public API returns',
                        'inputs beyond the enumerated families and seeded samples behave like them'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    os.makedirs(os.path.join(run.ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(run.ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k, text in quiet.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('%s %s: %d model states, %d recordings checked, %d accepted, %d rejected (%d for this property); models %.0fs, code %.0fs, recordings %.0fs'
          % (pid, tier, states, v.good + v.bad, v.good, v.bad, len(violations), t1 - t0, t2 - t1, t3 - t2))
    if not violations:
        return 0
    os.makedirs(os.path.join(run.BUILD, 'replay'), exist_ok=True)
    kinds = {}
    for _, c, rej, labels in violations:
        kinds.setdefault(labels[0], (c, rej, labels))
    for n, (label, (c, rej, labels)) in enumerate(sorted(kinds.items())[:5]):
        path = os.path.join(run.BUILD, 'replay', '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'labels': labels, 'case': c.plain(), 'rejection': rej}, f, indent=1)
        print('  %s input %s' % (', '.join(labels), c.bytes()[:60].hex()))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def replay(path):
    """Runs one case again and says what the specification makes of it."""
    d = json.load(open(path))
    harness, decoder = run.build()
    c = Case.of(d['case'])
    c.id = 'replay:0'
    os.makedirs(os.path.join(run.BUILD, 'work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='replay', dir=os.path.join(run.BUILD, 'work'))
    try:
        lines = [run.run_cli(decoder, work, c)] if c.mode == 'cli' else run.observe_console(harness, work, [c]) if c.mode == 'con' else run.observe(harness, work, [c], time.time() + 300)
        if c.mode == 'sess':
            lines = session.recordings(harness, work, [c], lines)
        print('recorded:', lines[0].strip()[:3000])
        v = run.check_all(work, {run.trace_module(c): lines})
        for r in v.rejects:
            print('rejected:', json.dumps(r)[:3000])
            if relevant(plan.P[d['property']], c, r):
                print('VIOLATION property=%s replay=%s' % (d['property'], path))
                return 1
        print('accepted by the specification' if not v.rejects else 'not a violation of ' + d['property'])
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    try:
        if argv[:1] == ['setup']:
            run.build()
            return 0
        if argv[:1] == ['check']:
            return check(argv[1], 'thorough' if tier == 'thorough' else 'quick', seed)
        if argv[:1] == ['replay']:
            return replay(argv[1])
    except ToolError as e:
        log('check error:', e)
        return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
