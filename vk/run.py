"""Building, model checking with TLC, running the real code, checking recordings with TLC."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import pty
import random
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import termios
import threading
import time
import tty

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VK_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------
# building

def source_hash():
    h = hashlib.sha256()
    for top in (REPO, os.path.join(ROOT, 'harness')):
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ('.git', 'target'))
            for f in sorted(files):
                if f.endswith(('.rs', '.toml')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def build():
    """Builds harness and tool from the current tree; cargo only looks at modification times, so
    the build folder is thrown away whenever any content has changed."""
    target = os.path.join(BUILD, 'target')
    stamp = os.path.join(BUILD, 'sources')
    now = source_hash()
    os.makedirs(BUILD, exist_ok=True)
    old = open(stamp).read() if os.path.exists(stamp) else ''
    bins = [os.path.join(target, 'release', 'harness'), os.path.join(target, 'debug', 'decoder')]
    if now != old.split(' ')[0] or not all(os.path.exists(b) for b in bins):
        shutil.rmtree(target, ignore_errors=True)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='',
                   PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
        harness = ['cargo', 'build', '--release', '--offline', '-q']
        for cmd, cwd in ((harness, os.path.join(ROOT, 'harness')),
                         (['cargo', 'build', '--offline', '-q', '-p', 'decoder'], REPO)):
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode and cmd is harness:
                # where clients can no longer put values together, everything else is still checked
                now += ' partial'
                p = subprocess.run(cmd + ['--no-default-features'], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise ToolError('build failed: %s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-3000:]))
        open(stamp, 'w').write(now)
    return bins


def partial():
    """whether the harness had to be built without values that clients put together"""
    with open(os.path.join(BUILD, 'sources')) as f:
        return f.read().endswith('partial')


# ------------------------------------------------------------------------------------------------
# TLC

class Tlc:
    """One run of TLC; collects what it prints."""

    def __init__(self, work, module, cfg, workers=2, heap='2g', env=None, on_line=None, timeout=800):
        self.states = self.transitions = 0
        self.error = ''
        name = os.path.basename(module)[:-4]
        meta = tempfile.mkdtemp(prefix=name, dir=work)
        cfgfile = os.path.join(meta, name + '.cfg')
        open(cfgfile, 'w').write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss16m', '-Djava.io.tmpdir=' + work,
               '-DTLA-Library=%s:%s/trace:%s/mc' % (SPEC, SPEC, SPEC), '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-config', cfgfile, '-noGenerateSpecTE', module]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), start_new_session=True)
        timer = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL))
        timer.start()
        tail, failing = [], 0
        try:
            for raw in p.stdout:
                line = raw.decode('utf8', 'replace').rstrip('\n')
                if line.startswith('"') and failing == 0:
                    on_line and on_line(line)
                    continue
                if failing or line.startswith('Error:') or 'is violated' in line:
                    failing += 1
                    if failing < 60:
                        tail.append(line[:2000])
                    if failing == 60:
                        os.killpg(p.pid, signal.SIGKILL)
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct states found, 0 states left', line)
                if m:
                    self.transitions, self.states = int(m.group(1)), int(m.group(2))
            code = p.wait()
        finally:
            timer.cancel()
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            shutil.rmtree(meta, ignore_errors=True)
        if tail or code:
            self.error = 'TLC on %s ended with %s\n%s' % (name, code, '\n'.join(x[:2000] for x in tail if not x.startswith('"CASE ')))


def unquote(line):
    return line[1:-1].replace('\\"', '"').replace('\\\\', '\\')


# ------------------------------------------------------------------------------------------------
# cases: what the specification enumerated, or a generator made

class Case:
    __slots__ = ('id', 'mode', 'pre', 'fb', 'fn', 'post', 'extra', 'args', 'file', 'sink', 'room', 'flags', 'raw')

    def __init__(self, mode, pre, fb=0, fn=0, post=b'', extra=(), args=None, file=None, flags='-', sink='open', room=0):
        self.mode, self.pre, self.fb, self.fn, self.post = mode, bytes(pre), fb, fn, bytes(post)
        self.extra, self.args, self.file, self.flags = tuple(extra), args, file, flags
        self.sink, self.room = sink, room
        self.id = ''

    def key(self):
        return (self.mode, self.pre, self.fb, self.fn, self.post, self.extra, tuple(self.args or ()), self.file, self.sink, self.room)

    def bytes(self):
        return self.pre + bytes([self.fb]) * self.fn + self.post

    def line(self):
        return ' '.join([self.id, self.mode, self.flags, self.pre.hex() or '-', str(self.fb), str(self.fn), self.post.hex() or '-']
                        + [str(e) for e in self.extra]) + '\n'

    def plain(self):
        d = {'mode': self.mode, 'pre': self.pre.hex(), 'fb': self.fb, 'fn': self.fn, 'post': self.post.hex(), 'extra': list(self.extra), 'flags': self.flags}
        if self.mode == 'cli':
            d['args'], d['file'], d['sink'], d['room'] = self.args, self.file, self.sink, self.room
        return d

    @staticmethod
    def of(d):
        return Case(d['mode'], bytes.fromhex(d['pre']), d['fb'], d['fn'], bytes.fromhex(d['post']), d['extra'], d.get('args'), d.get('file'), d['flags'], d.get('sink', 'open'), d.get('room', 0))


def case_of(v):
    """a CASE printed by a model"""
    if not isinstance(v[0], str):
        v = ['der'] + v
    if v[0] == 'cli':
        return Case('cli', v[1], v[2], v[3], v[4], args=v[5], file=v[6], sink=v[7], room=v[8])
    return Case(v[0], v[1], v[2], v[3], v[4], v[5:])


def model(work, family, cfg, workers, heap='2g', timeout=800):
    """Model checks one family; its cases and the TLC run."""
    cases = []

    def take(line):
        if line.startswith('"CASE '):
            cases.append(case_of(json.loads(unquote(line)[5:])))

    t = Tlc(work, os.path.join(SPEC, 'mc', family + '.tla'), cfg, workers, heap, on_line=take, timeout=timeout)
    return t, cases


# ------------------------------------------------------------------------------------------------
# running the real code

STALL = 60          # seconds without a finished case


def panic_record(c):
    o = {'p': 1, 'n': 0} if 'c' in c.flags else {'ev': [{'e': 'P'}]} if c.mode == 'der' else {'p': 1}
    d = {'id': c.id, 'm': c.mode, 't': int('t' in c.flags), 'pr': 2 if 'q' in c.flags else int('p' in c.flags), 'y': list(c.extra), 'o': o}
    if 'c' in c.flags:
        d = {'id': c.id, 'm': c.mode, 'n': len(c.bytes()), 'o': o}
    elif 'z' not in c.flags:
        d['x'] = {'pre': list(c.pre), 'fb': c.fb, 'fn': c.fn, 'post': list(c.post)}
    return json.dumps(d, separators=(',', ':')) + '\n'


def chunk(items, n, weight):
    """n lists of about the same weight"""
    out = [[] for _ in range(max(1, min(n, len(items))))]
    load = [0] * len(out)
    for k, it in enumerate(items):
        j = load.index(min(load))
        out[j].append(it)
        load[j] += weight(it)
    return out


def harness_chunk(binary, work, cases, deadline):
    """Observations of the cases, in order; a process that dies or stalls is charged to the case
    it was working on."""
    out, k, crashes = [], 0, 0
    while k < len(cases):
        fd, inp = tempfile.mkstemp(dir=work)
        with os.fdopen(fd, 'w') as f:
            f.writelines(c.line() for c in cases[k:])
        res = inp + '.out'
        with open(inp) as fi, open(res, 'wb') as fo:
            p = subprocess.Popen([binary], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, start_new_session=True)
            size, since = 0, time.time()
            while True:
                try:
                    p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    now = os.path.getsize(res)
                    if now != size:
                        size, since = now, time.time()
                    if time.time() - since > STALL:
                        p.kill()
                        p.wait()
                        break
        with open(res, errors='replace') as f:
            lines = [l for l in f if l.endswith('\n')]
        os.unlink(inp)
        os.unlink(res)
        out += lines
        k += len(lines)
        if k < len(cases):
            log('the library did not return on case', cases[k].id)
            out.append(panic_record(cases[k]))
            k += 1
            crashes += 1
            if crashes == 3 or time.time() > deadline:
                break
    return out


def observe(binary, work, cases, deadline):
    parts = chunk(cases, CPUS, lambda c: 40 + len(c.pre) + len(c.post) + c.fn // 8 + (4000 if 'z' in c.flags else 0))
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        return [l for ls in ex.map(lambda p: harness_chunk(binary, work, p, deadline), parts) for l in ls]


def observe_threads(binary, work, cases, threads):
    """Every case run by several threads at once, or by a thread of its own; distinct observations of each."""
    p = subprocess.run([binary] + (['--threads', str(threads)] if threads else ['--fresh']), input=''.join(c.line() for c in cases).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
    out = {}
    for l in p.stdout.decode().splitlines(True):
        out.setdefault(l)
    seen = {json.loads(l)['id'] for l in out}
    for c in cases:
        if c.id not in seen:
            out.setdefault(panic_record(c))
            break
    return list(out)


def observe_console(binary, work, cases):
    """Clients of the console's line printer; what each of them put on standard output."""
    p = subprocess.run([binary, '--console'], input=''.join(c.line() for c in cases).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
    parts = re.split(rb'\n\0([^\n]*)\n', p.stdout)
    out = {c.id: {'p': 1} for c in cases}
    last = None
    for name, text in zip(parts[1::2], parts[2::2]):
        name = name.decode()
        if name == '!':
            out[last] = {'p': 1}
        elif name:
            out[name] = {'p': 0, 'out': list(text)}
            last = name
    return [json.dumps({'id': c.id, 'm': 'con', 'y': list(c.extra), 'o': out[c.id]}, separators=(',', ':')) + '\n' for c in cases]


# ------------------------------------------------------------------------------------------------
# the command-line tool

ODD = b'\xff\xfe\x80'


def feed(p, path, content):
    """Writes contents in pieces to a pipe as soon as somebody reads it."""
    fd = None
    while fd is None and p.poll() is None:
        try:
            fd = os.open(path, os.O_WRONLY | os.O_NONBLOCK) if isinstance(path, bytes) else path
        except OSError:
            time.sleep(.001)
    if fd is None:
        return
    try:
        os.set_blocking(fd, True)
        at, n = 0, 1
        while at < len(content):
            os.write(fd, content[at:at + n])
            at, n = at + n, n * 3
            time.sleep(.002)
    except OSError:
        pass
    os.close(fd)


SURROUNDINGS = ('terminal', 'bare', 'noisy')
NOISY = {'NO_COLOR': '1', 'CLICOLOR_FORCE': '1', 'FORCE_COLOR': '1', 'TERM': 'xterm-256color', 'COLORTERM': 'truecolor', 'COLUMNS': '20', 'LINES': '5', 'LANG': 'tr_TR.ISO-8859-9',
         'LC_ALL': 'tr_TR.ISO-8859-9', 'TZ': 'Pacific/Kiritimati', 'PAGER': 'cat', 'HOME': '/nowhere', 'TMPDIR': '/nowhere', 'PATH': '/nowhere', 'RUST_BACKTRACE': 'full',
         'RUST_LOG': 'trace', 'DEBUG': '1', 'VERBOSE': '1', 'QUIET': '1', 'CI': 'true', 'POSIXLY_CORRECT': '1', 'RASN_OPTS': '--der', 'DECODER_OPTS': '--certs'}


def terminal(rows, columns):
    """A narrow terminal that passes on what is written to it as it is."""
    keeper, side = pty.openpty()
    tty.setraw(side)
    fcntl.ioctl(side, termios.TIOCSWINSZ, struct.pack('HHHH', rows, columns, 0, 0))
    return keeper, side


def drain(fd, into):
    while True:
        try:
            piece = os.read(fd, 65536)
        except OSError:         # the other side was closed
            piece = b''
        if not piece:
            break
        into.append(piece)
    os.close(fd)


def run_tool(argv, c, d, taken, content):
    """The tool with its streams connected as the case says; content is what a pipe delivers."""
    sinks, stdin = [], subprocess.DEVNULL
    stdout = stderr = subprocess.PIPE
    if c.sink == 'limit':
        argv = ['prlimit', '--core=0', '--fsize=%d' % c.room] + argv
        stdout = os.open(taken, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    elif c.sink == 'full':
        stdout = os.open('/dev/full', os.O_WRONLY)
    elif c.sink == 'closed':
        reader, stdout = os.pipe()
        os.close(reader)
    elif c.sink == 'deaf':
        stderr = os.open('/dev/full', os.O_WRONLY)
    env, keepers = None, []
    if c.sink == 'bare':
        env = {}
    elif c.sink == 'noisy':
        env = dict(os.environ, **NOISY)
    elif c.sink == 'terminal':
        (k, stdin), (out, stdout), (err, stderr) = terminal(5, 20), terminal(5, 20), terminal(5, 20)
        keepers = [k, out, err]
        sinks.append(stdin)
    sinks += [x for x in (stdout, stderr) if x != subprocess.PIPE]
    writer = None
    if c.file == 'stdin':
        stdin, writer = os.pipe()
        sinks.append(stdin)
    # size limits are to be told as errors, not by a signal
    p = subprocess.Popen(argv, cwd=d, stdin=stdin, stdout=stdout, stderr=stderr, restore_signals=False, env=env)
    for x in sinks:
        os.close(x)
    texts = [], []
    readers = [threading.Thread(target=drain, args=x) for x in zip(keepers[1:], texts)]
    for t in readers:
        t.start()
    feeder = None
    if content is not None:
        feeder = threading.Thread(target=feed, args=(p, writer if writer is not None else os.path.join(d.encode(), b'pipe.der'), content))
        feeder.start()
    try:
        out, err = p.communicate(timeout=30)
        status = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        status = -9
    if feeder:
        feeder.join()
    for t in readers:
        t.join()
    if keepers:
        os.close(keepers[0])
        out, err = (b''.join(t) for t in texts)
    if c.sink == 'limit':
        with open(taken, 'rb') as f:
            out = f.read()
        os.unlink(taken)
    return out or b'', err or b'', status


def run_cli(binary, work, c):
    """One run of the tool in a scratch directory of its own."""
    d = tempfile.mkdtemp(prefix='cli', dir=work)
    try:
        content = c.bytes()
        bd = d.encode()
        named = {'oddname': b'f' + ODD, 'dash': b'-', 'flagname': b'--der', 'spaced': b'a file', 'leading': b' file.der', 'trailing': b'file.der ', 'newline': b'file.der\n',
                 'tilde': b'~', 'glob': b'*.der', 'percent': b'file%2Eder', 'upper': b'FILE.DER', 'long': b'x' * 250, 'hidden': b'.f', 'pem': b'file.pem', 'dotdot': b'..f',
                 'backslash': b'a\\nb', 'quoted': b'"file.der"', 'variable': b'$HOME', 'response': b'@file.der', 'wide': 'd\u00e9\u65e5.der'.encode()}
        names = {'regular': b'file.der', 'link': b'link.der', 'missing': b'missing', 'directory': b'dir', 'below': b'file.der/x', 'dangling': b'dangling', 'loop': b'loop',
                 'empty': b'', 'badname': b'm' + ODD, 'device': b'/dev/null', 'pipe': b'pipe.der', 'stdin': b'/dev/stdin', 'failing': b'/proc/self/mem',
                 'absolute': os.path.join(bd, b'file.der'), 'roundabout': b'dir/.././file.der', **named}
        # whoever opens another file than the one named finds something else there
        real = os.path.join(bd, named.get(c.file, b'file.der'))
        for n in (b'file.der', b'other.der'):
            with open(os.path.join(bd, n), 'wb') as f:
                f.write(b'\5\0')
        with open(real, 'wb') as f:
            f.write(content)
        os.mkdir(os.path.join(d, 'dir'))
        os.symlink('file.der', os.path.join(d, 'link.der'))
        os.symlink('nothing', os.path.join(d, 'dangling'))
        os.symlink('loop', os.path.join(d, 'loop'))
        argv = []
        for k, a in enumerate(c.args):
            if a == 'FILE':
                n = names[c.file]
                if k != 1 and c.file in ('flagname', 'dash', 'tilde'):
                    n = os.path.join(bd, n)
                argv.append(n)
            else:
                argv.append({'OTHER': b'other.der', 'ODD': ODD}.get(a, a.encode()))
        pieces = c.file in ('pipe', 'stdin')
        if pieces:
            os.mkfifo(os.path.join(bd, b'pipe.der'))
            with open(real, 'wb') as f:
                f.write(b'\5\0')
        taken = os.path.join(work, os.path.basename(d) + '.out')
        before = sorted(os.listdir(bd))
        out, err, status = run_tool([binary.encode()] + argv, c, d, taken, content if pieces else None)
        plain = []
        if c.sink in SURROUNDINGS:
            other = Case('cli', c.pre, c.fb, c.fn, c.post, args=c.args, file=c.file, sink='open', room=0)
            plain = list(run_tool([binary.encode()] + argv, other, d, taken, None)[1])
        same = int(open(real, 'rb').read() == (b'\5\0' if pieces else content) and open(os.path.join(d, 'other.der'), 'rb').read() == b'\5\0' and sorted(os.listdir(bd)) == before)
        o = {'out': list(out), 'err': list(err), 'status': status, 'same': same, 'plain': plain}
        return json.dumps({'id': c.id, 'm': 'cli', 'args': c.args, 'file': c.file, 'sink': c.sink, 'room': c.room, 'x': {'pre': list(c.pre), 'fb': c.fb, 'fn': c.fn, 'post': list(c.post)}, 'o': o},
                          separators=(',', ':')) + '\n'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe_cli(binary, work, cases):
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(lambda c: run_cli(binary, work, c), cases))


# ------------------------------------------------------------------------------------------------
# checking recordings

def trace_module(c):
    if 'c' in c.flags:
        return 'TraceTotal'
    return {'der': 'TraceDer', 'cert': 'TraceX509', 'name': 'TraceX509', 'ext': 'TraceX509', 'cli': 'TraceCli', 'con': 'TraceConsole', 'sess': 'TraceSession', 'pair': 'TraceCompare', 'made': 'TraceMade', 'mem': 'TraceMemory', 'time': 'TraceWork'}.get(c.mode, 'TraceMisc')


class Verdicts:
    def __init__(self):
        self.rejects, self.good, self.bad, self.states, self.transitions, self.malformed = [], 0, 0, 0, 0, False

    def add(self, w):
        self.rejects += w.rejects
        self.good += w.good
        self.bad += w.bad
        self.states += w.states
        self.transitions += w.transitions


def check_file(work, module, lines, timeout=800):
    v = Verdicts()
    fd, path = tempfile.mkstemp(suffix='.ndjson', dir=work)
    with os.fdopen(fd, 'w') as f:
        f.writelines(lines)
    done = []

    def take(line):
        if line.startswith('"REJECT '):
            v.rejects.append(json.loads(unquote(line)[7:]))
        elif line.startswith('"SUMMARY '):
            done.append([int(n) for n in line[9:-1].split()])

    cfg = open(os.path.join(SPEC, 'trace', module + '.cfg')).read()
    t = Tlc(work, os.path.join(SPEC, 'trace', module + '.tla'), cfg, 1, '3g', {'TRACE': path}, take, timeout)
    os.unlink(path)
    if t.error or not done:
        # an observation the specification cannot even interpret makes TLC stop: find it
        if 'java.lang.OutOfMemory' in t.error or not re.search(r'[Aa]ttempted|evaluat|In (applying|computing)|does not have a field|nonexistent|was not in', t.error):
            raise ToolError(t.error or 'no summary from ' + module)
        # (bisecting; the first one decides, what else is in the file is not looked at)
        if len(lines) > 1:
            half = len(lines) // 2
            w = check_file(work, module, lines[:half], timeout)
            if not w.malformed:
                u = check_file(work, module, lines[half:], timeout)
                u.add(w)
                return u
            return w
        d = json.loads(lines[0])
        log('the specification cannot interpret', d['id'], t.error[:1500])
        v.rejects = [{'id': d['id'], 'why': ['malformed'], 'at': 0, 'expected': {}, 'observed': d['o']}]
        v.bad, v.malformed = 1, True
        return v
    v.good, v.bad = done[0]
    if v.good + v.bad != len(lines):
        raise ToolError('%s counted %d + %d of %d cases' % (module, v.good, v.bad, len(lines)))
    v.states, v.transitions = t.states, t.transitions
    return v


def check_all(work, groups, timeout=800):
    """groups: {module: lines}; all of them with up to CPUS TLC processes"""
    total = sum(len(l) for ls in groups.values() for l in ls) or 1
    jobs = []
    for module, lines in groups.items():
        if not lines:
            continue
        w = sum(len(l) for l in lines)
        n = max(1, round(CPUS * w / total))
        # a chunk should be worth a start of TLC, and fit its memory
        per = 30000 if module != 'TraceTotal' else 400000
        n = max(min(n, -(-w // per)), -(-w // 60_000_000))
        jobs += [(module, part) for part in chunk(lines, n, len)]
    jobs.sort(key=lambda j: -sum(map(len, j[1])))
    v = Verdicts()
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        for w in ex.map(lambda j: check_file(work, j[0], j[1], timeout), jobs):
            v.add(w)
    return v
