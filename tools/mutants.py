#!/usr/bin/env python3
"""Mutation testing of the checks, outside the checks themselves.

    mutants.py cases  DIR              enumerates the inputs of all families once
    mutants.py run    DIR [FILE..]     mutates the sources in copies of /repo below DIR

For every mutant the recordings of the real code are compared with those of the unchanged tree;
those that differ are checked against the specification, and the properties whose checks would
report them are listed.  A mutant without any difference is a survivor; whether it breaks a
property at all is for the reader to decide."""
import concurrent.futures
import glob
import hashlib
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vk'))
sys.dont_write_bytecode = True
import gen   # noqa: E402
import plan  # noqa: E402
import run   # noqa: E402
import vk    # noqa: E402

FILES = ['rx509/src/der/calendar.rs', 'rx509/src/der/oid.rs', 'rx509/src/der/parse_all.rs', 'rx509/src/der/parser.rs', 'rx509/src/der/reader.rs', 'rx509/src/der/types.rs',
         'rx509/src/x509/ext.rs', 'rx509/src/x509/mod.rs', 'rx509/src/x509/printer.rs', 'decoder/src/main.rs', 'decoder/src/der_printer.rs']
WORKERS = int(os.environ.get("WORKERS", "6"))


def make_cases(top):
    work = os.path.join(top, 'work')
    os.makedirs(work, exist_ok=True)
    fams = {}

    def one(f):
        t, cs = run.model(work, plan.FAMILIES[f], plan.config(f, 'quick'), 2, '3g', 1500)
        if t.error:
            print(f, t.error)
        fams[f] = cs
        print(f, len(cs), flush=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, plan.FAMILIES))
    for pid, spec in plan.P.items():
        for kind, (q, _, flags) in spec['random'].items():
            if kind != 'cli' and 'c' not in flags:
                fams['random-%s-%s' % (pid, kind)] = [run.Case(kind, b) for b in gen.cases(kind, '%s 1' % pid, q)]
    fams['corpus'] = [run.Case('cert', b) for b, _ in gen.corpus()]
    out = {}
    for f, cs in fams.items():
        seen, l = set(), []
        for c in cs:
            if c.key() in seen:
                continue
            seen.add(c.key())
            c.flags = 'z' if c.mode == 'sum' else '-' if c.mode in ('bits', 'prim', 'valid', 'cli') else 't' if c.mode == 'der' else 'tp'
            c.id = '%s:%d' % (f, len(l))
            l.append(c)
        out[f] = l
    pickle.dump({f: [(c.id, c.mode, c.pre, c.fb, c.fn, c.post, c.extra, c.args, c.file, c.flags) for c in l] for f, l in out.items()}, open(os.path.join(top, 'cases.pkl'), 'wb'))


def load(top):
    out = {}
    for f, l in pickle.load(open(os.path.join(top, 'cases.pkl'), 'rb')).items():
        out[f] = []
        for t in l:
            c = run.Case(t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9])
            c.id = t[0]
            out[f].append(c)
    return out


# ------------------------------------------------------------------------------------------------

def mutants_of(path, text):
    """(line number, new text) pairs"""
    lines = text.split('\n')
    end = next((i for i, l in enumerate(lines) if '#[cfg(test)]' in l and i + 1 < len(lines) and 'mod tests {' in lines[i + 1]), len(lines))
    out = []

    def put(i, new):
        if new != lines[i]:
            out.append((i, '\n'.join(lines[:i] + [new] + lines[i + 1:])))

    def each(i, pat, rep):
        for m in re.finditer(pat, lines[i]):
            reps = rep(m) if callable(rep) else [rep]
            for r in reps:
                put(i, lines[i][:m.start()] + r + lines[i][m.end():])
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(('//', '#', 'use ', 'mod ', 'pub mod', 'debug_assert')):
            continue
        code = re.sub(r'//.*', '', l)
        if code != l:
            l = lines[i] = code
        each(i, r' < ', lambda m: [' <= ', ' > '])
        each(i, r' > ', lambda m: [' >= ', ' < '])
        each(i, r' <= ', lambda m: [' < '])
        each(i, r' >= ', lambda m: [' > ', ' == '])
        each(i, r' == ', lambda m: [' != ', ' >= ', ' <= '])
        each(i, r' != ', lambda m: [' == '])
        each(i, r' \+ ', lambda m: [' - '])
        each(i, r' - ', lambda m: [' + '])
        each(i, r' \* ', lambda m: [' + '])
        each(i, r' / ', lambda m: [' % '])
        each(i, r' % ', lambda m: [' / '])
        each(i, r' << ', lambda m: [' >> '])
        each(i, r' & ', lambda m: [' | '])
        each(i, r' && ', lambda m: [' || '])
        each(i, r' \|\| ', lambda m: [' && '])
        each(i, r' \+= ', lambda m: [' -= ', ' = '])
        each(i, r' -= ', lambda m: [' += '])
        each(i, r' <<= ', lambda m: [' = '])
        each(i, r' \|= ', lambda m: [' = ', ' ^= ', ' += '])
        each(i, r'\btrue\b', 'false')
        each(i, r'\bfalse\b', 'true')
        each(i, r'(?<![\w.x])(\d[\d_]*)(?![\w.])', lambda m: [str(int(m.group(1).replace('_', '')) + 1), str(max(0, int(m.group(1).replace('_', '')) - 1))])
        each(i, r'\b0x([0-9A-Fa-f]+)\b', lambda m: ['0x%x' % (int(m.group(1), 16) + 1), '0x%x' % max(0, int(m.group(1), 16) - 1)])
        each(i, r'\b0b([01_]+)\b', lambda m: [bin(int(m.group(1).replace('_', ''), 2) ^ (1 << k)) for k in (0, 5, 7)])
        each(i, r"b'(.)'", lambda m: ["b'%s'" % chr(ord(m.group(1)) + 1)])
        each(i, r'"([^"]+)"', lambda m: ['"%sq"' % m.group(1)] if '{' not in m.group(1) else ['"%sq"' % m.group(1), '"q%s"' % m.group(1)])
        each(i, r'\{:02X\}', lambda m: ['{:X}', '{:02x}'])
        each(i, r'if (.*) \{$', lambda m: ['if !(%s) {' % m.group(1), 'if false && (%s) {' % m.group(1), 'if true || (%s) {' % m.group(1)] if 'let ' not in m.group(1) and 'if' not in m.group(1) else [])
        for a, b in (('issuer', 'subject'), ('not_before', 'not_after'), ('encipher_only', 'decipher_only'), ('country_name', 'common_name'), ('locality_name', 'organization'),
                     ('first', 'last'), ('value', 'tag'), ('begin_type', 'end_type'), ('Utc', 'Generalized'), ('hi', 'lo'), ('IA5String', 'UTF8String'), ('PrintableString', 'IA5String'),
                     ('Sequence', 'Set'), ('println_str', 'print_str'), ('println_fmt', 'print_fmt'), ('hours', 'minutes'), ('month', 'day_of_month'), ('V1', 'V2'), ('V2', 'V3'),
                     ('Integer', 'Boolean'), ('OctetString', 'BitString'), ('Some', 'None'), ('expect_any', 'next'), ('expect_or_end', 'get_optional'), ('get_optional', 'expect_or_end'),
                     ('UTCTime', 'GeneralizedTime'), ('wrapper.value.len()', '0'), ('contents.len()', '0'), ('crl_sign', 'key_cert_sign'), ('remainder', 'clear')):
            each(i, r'\b%s\b' % re.escape(a) if a[-1] != ')' else re.escape(a), b)
            if a[-1] != ')':
                each(i, r'\b%s\b' % re.escape(b), a)
        if s.endswith(';') and not s.startswith(('let ', 'pub ', 'const ', 'return', 'fn ', 'type ')):
            put(i, '')
        if s.startswith('return ') and s.endswith(';'):
            put(i, '')
        if '=>' in l and s.endswith(',') and not s.startswith('_'):
            put(i, '')
        if i + 1 < end and l.rstrip().endswith((',', ';')) and lines[i + 1].rstrip().endswith((',', ';')) and s != lines[i + 1].strip() and '=>' not in l and not s.startswith('const '):
            out.append((i, '\n'.join(lines[:i] + [lines[i + 1], l] + lines[i + 2:])))
        each(i, r'\.chunks\((\d+)\)', lambda m: ['.chunks_exact(%s)' % m.group(1)])
        each(i, r'\.parse\(\)\?', lambda m: [])
    return out


class Worker:
    def __init__(self, top, n):
        self.top = os.path.join(top, 'w%d' % n)
        self.repo = os.path.join(self.top, 'repo')
        self.target = os.path.join(self.top, 'target')
        self.work = os.path.join(self.top, 'work')
        shutil.rmtree(self.repo, ignore_errors=True)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        shutil.copytree('/repo', self.repo, ignore=shutil.ignore_patterns('target', '.git'))
        shutil.copytree(os.path.join(ROOT, 'harness'), os.path.join(self.top, 'verif/harness'), ignore=shutil.ignore_patterns('target'), dirs_exist_ok=True)
        self.env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', PATH='/root/.cargo/bin:' + os.environ['PATH'])

    def cargo(self, args, cwd):
        p = subprocess.run(['cargo'] + args, cwd=cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode == 0, p.stdout.decode('utf8', 'replace')

    def build(self, cli):
        for kind in ('release', 'debug'):
            for d in glob.glob(os.path.join(self.target, kind, '.fingerprint', '*')):
                if os.path.basename(d).startswith(('rx509-', 'harness-', 'decoder-')):
                    shutil.rmtree(d)
        ok, out = self.cargo(['build', '--release', '--offline', '-q', '-j', '2'], os.path.join(self.top, 'verif/harness'))
        if ok and cli:
            ok, out = self.cargo(['build', '--offline', '-q', '-j', '2', '-p', 'decoder'], self.repo)
        return ok

    def tests(self):
        return self.cargo(['test', '--workspace', '--offline', '-q', '-j', '2'], self.repo)[0]

    def observe(self, cases, limit):
        inp = os.path.join(self.work, 'in')
        with open(inp, 'w') as f:
            f.writelines(c.line() for c in cases)
        p = subprocess.Popen([os.path.join(self.target, 'release/harness')], stdin=open(inp), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        timer = threading.Timer(limit, p.kill)
        timer.start()
        out = []
        for l in p.stdout:
            out.append(l)
        p.wait()
        timer.cancel()
        return out


def h(l):
    return hashlib.blake2b(l, digest_size=8).digest()


def attribute(work, cases, lines):
    """properties whose checks report one of these recordings"""
    by_id = {c.id: c for c in cases}
    groups = {}
    for l in lines:
        l = l.decode('utf8', 'replace') if isinstance(l, bytes) else l
        groups.setdefault(run.trace_module(by_id[json.loads(l)['id']]), []).append(l)
    rejects = []
    for m, ls in groups.items():
        rejects += run.check_file(work, m, ls).rejects
    props, labels = set(), set()
    for rej in rejects:
        c = by_id[rej['id']]
        fam = c.id.split(':')[0]
        labels |= set(vk.details(rej).values())
        for pid, spec in plan.P.items():
            mine = fam in spec['families'] or fam.startswith('random-%s-' % pid) or fam == 'corpus' and spec.get('corpus')
            if mine and vk.relevant(spec, c, rej):
                flags = spec['families'].get(fam) if fam in spec['families'] else 'tp'
                if flags is not None and ('c' in flags and not any(x.startswith(('panic', 'malformed')) for x in vk.details(rej).values())):
                    continue
                props.add(pid)
    return sorted(props), sorted(labels)[:6], len(rejects)


def main():
    top = sys.argv[2]
    if sys.argv[1] == 'cases':
        return make_cases(top)
    fams = load(top)
    files = sys.argv[3:] or FILES
    r = random.Random(5)
    first, rest, cli = [], [], []
    for f, l in fams.items():
        if l and l[0].mode == 'cli':
            cli += l if f == 'InitLarge' else r.sample(l, min(len(l), 250))
            continue
        l = [c for c in l if c.mode != 'sum' or c.extra[1] < 2000]
        k = 1500
        pick = set(r.sample(range(len(l)), min(k, len(l))))
        first += [c for i, c in enumerate(l) if i in pick]
        rest += [c for i, c in enumerate(l) if i not in pick]
    for c in first + rest:
        c.flags = 'z' if c.mode == 'sum' else '-' if c.mode in ('bits', 'prim', 'valid') else 't' if c.mode == 'der' else 'tp'
    print('cases', len(first), len(rest), len(cli), flush=True)
    workers = [Worker(top, n) for n in range(WORKERS)]
    w = workers[0]
    assert w.build(True)
    base1 = [h(l) for l in w.observe(first, 600)]
    base2 = [h(l) for l in w.observe(rest, 900)]
    assert len(base1) == len(first) and len(base2) == len(rest), (len(base1), len(first), len(base2), len(rest))
    tool = lambda x: os.path.join(x.target, 'debug/decoder')
    basec = [run.run_cli(tool(w), w.work, c) for c in cli]
    todo = []
    for f in files:
        text = open(os.path.join('/repo', f)).read()
        todo += [(f, i, t) for i, t in mutants_of(f, text)]
    seen, uniq = set(), []
    for x in todo:
        k = hash((x[0], x[2]))
        if k not in seen:
            seen.add(k)
            uniq.append(x)
    print('mutants', len(uniq), flush=True)
    free = list(workers)
    lock = threading.Lock()
    log = open(os.path.join(top, 'log.%d' % int(time.time())), 'w')
    print('log', log.name, flush=True)

    def one(job):
        f, i, text = job
        with lock:
            w = free.pop()
        try:
            p = os.path.join(w.repo, f)
            old = open(os.path.join('/repo', f)).read()
            want_cli = f.startswith('decoder') or f.endswith('printer.rs')
            open(p, 'w').write(text)
            new = [l.strip() for l in text.split('\n')]
            desc = '%s:%d  %s  =>  %s' % (f, i + 1, old.split('\n')[i].strip(), new[i] if i < len(new) else '')
            try:
                if not w.build(want_cli):
                    return 'NOBUILD', desc
                diff, res = [], ''
                if f.startswith('decoder') or f.endswith('printer.rs'):
                    for k, c in enumerate(cli):
                        l = run.run_cli(tool(w), w.work, c)
                        if l != basec[k]:
                            diff.append((c, l))
                            if len(diff) > 20:
                                break
                if not f.startswith('decoder') and not diff:
                    for cs, bs, lim in ((first, base1, 120), (rest, base2, 300)):
                        got = w.observe(cs, lim)
                        if len(got) < len(cs):
                            return 'HANG', desc
                        diff = [(cs[k], l) for k, l in enumerate(got) if h(l) != bs[k]]
                        if diff:
                            break
                if not diff:
                    t = w.tests()
                    return ('SURVIVES' if t else 'TESTS-ONLY'), desc
                rr = random.Random(1)
                per = {}
                for d in diff:
                    per.setdefault(d[0].id.split(':')[0], []).append(d)
                pick = [x for l in per.values() for x in rr.sample(l, min(8, len(l)))]
                props, labels, n = attribute(w.work, [x[0] for x in pick], [x[1] for x in pick])
                return 'KILLED' if props else 'UNCLAIMED', desc + '   [%d of %d]  %s  %s' % (n, len(diff), ' '.join(props), ' '.join(labels))
            finally:
                open(p, 'w').write(old)
        except Exception as e:
            return 'EXCEPTION', '%s:%d %r' % (f, i + 1, e)
        finally:
            with lock:
                free.append(w)

    def done(job):
        s, d = one(job)
        with lock:
            log.write('%s  %s\n' % (s, d))
            log.flush()
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(done, uniq))


main()
