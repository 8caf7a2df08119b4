"""specmutants.py OUT [names]: is the specification vacuous?

Each entry changes one definition of the specification so that it says something else.  The check
of a property is then run on a scratch copy: either TLC finds that the changed machine and the
independent statements about it contradict each other ("model"), or recordings of the real code
are rejected ("code").  A change that neither notices is an unchecked part of the specification.
With MODEL=0 invariants and action properties are left out, so that only the recordings speak.
"""
import contextlib, io, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {
 # machine of the generic decoder
 'der-no-end': ('C05', 'DerMachine.tla', "phase = \"scan\" /\\ Top.pos = Top.end /\\ Len(stack) > 1\n  /\\ stack'", "phase = \"scan\" /\\ Top.pos = Top.end /\\ Len(stack) > 1 /\\ stack[Len(stack)].end # 7\n  /\\ stack'"),
 'der-skip': ('C04', 'DerMachine.tla', "       /\\ el.ok /\\ el.k \\notin Constructed\n       /\\ stack' = [stack EXCEPT ![Len(stack)].pos = el.next]", "       /\\ el.ok /\\ el.k \\notin Constructed\n       /\\ stack' = [stack EXCEPT ![Len(stack)].pos = IF el.k = \"Null\" /\\ el.next + 2 <= Top.end THEN el.next + 2 ELSE el.next]"),
 'id-set': ('C02', 'DerValues.tla', '[] b = 49 -> "Set"', '[] b = 50 -> "Set"'),
 'id-class': ('C02', 'DerValues.tla', '[] b \\in 128..191 ->', '[] b \\in 128..192 ->'),
 'len-minimal': ('C03', 'DerValues.tla', 'MinForCount == <<128, 256, 65536, 16777216>>', 'MinForCount == <<128, 256, 65535, 16777216>>'),
 'len-minimal4': ('C03', 'DerValues.tla', 'MinForCount == <<128, 256, 65536, 16777216>>', 'MinForCount == <<128, 256, 65536, 16777215>>'),
 'len-five': ('C03', 'DerValues.tla', 'c > 4 THEN', 'c > 5 THEN'),
 'int-sign': ('C08', 'DerValues.tla', 'IF f > 127 THEN f - 256', 'IF f > 128 THEN f - 256'),
 'bool-any': ('C08', 'DerValues.tla', '         [] OTHER -> Bad(<<"BadBooleanValue", At(x, lo)>>)', '         [] At(x, lo) = 254 -> Good(<<1>>, 0, 0)\n         [] OTHER -> Bad(<<"BadBooleanValue", At(x, lo)>>)'),
 'bits-eight': ('C09', 'DerValues.tla', 'IF u > 7 \\/', 'IF u > 8 \\/'),
 'bits-order': ('C09', 'DerValues.tla', 'Pow2[8 - (i % 8)]) % 2', 'Pow2[1 + (i % 8)]) % 2'),
 'oid-second': ('C10', 'DerValues.tla', 'LET f == MinOf(n \\div 40, 2)', 'LET f == MinOf(n \\div 40, 3)'),
 'oid-five': ('C10', 'DerValues.tla', 'THEN IF s.cnt = 3 THEN', 'THEN IF s.cnt = 4 THEN'),
 'utf8-surrogate': ('C11', 'DerValues.tla', 'b = 237 -> lead(2, 128, 159)', 'b = 237 -> lead(2, 128, 160)'),
 'utf8-overlong': ('C11', 'DerValues.tla', 'b = 240 -> lead(3, 144, 191)', 'b = 240 -> lead(3, 143, 191)'),
 'cal-leap': ('C12', 'Calendar.tla', '(y % 100 # 0) \\/ (y % 400 = 0)', '(y % 100 # 0)'),
 'cal-days': ('C12', 'Calendar.tla', '212, 243, 273', '212, 242, 273'),
 'cal-march': ('C12', 'Calendar.tla', 'IF m > 2 /\\ Leap(y)', 'IF m > 1 /\\ Leap(y)'),
 'text-known': ('C13', 'DerValues.tla', '<< <<2, 5, 4, 11>>, "Organizational', '<< <<2, 5, 4, 12>>, "Organizational'),
 'err-text': ('C28', 'DerValues.tla', 'B("Bad boolean length: ")', 'B("Bad boolean size: ")'),
 # machine of certificates, names and extensions
 'cert-version': ('C15', 'X509Machine.tla', 'v[1] \\notin 0..2 THEN', 'v[1] \\notin 1..2 THEN'),
 'cert-tail': ('C07', 'X509Machine.tla', '  /\\ pc = "validity.end"\n  /\\ LET q == NeedEnd IN', '  /\\ pc = "validity.end"\n  /\\ LET q == [ok |-> TRUE] IN'),
 'cert-order': ('C15', 'X509Machine.tla', 'OptTag == [iuid |-> 1, suid |-> 2', 'OptTag == [iuid |-> 2, suid |-> 1'),
 'cert-tbs': ('C16', 'X509Machine.tla', '/\\ Field("tbs", ElemSlice(q.e))', '/\\ Field("tbs", Slice(Top.pos, q.e.next - Top.pos))'),
 'cert-times': ('C24', 'X509Machine.tla', '          /\\ Field(pc, q.e.v)', '          /\\ Field(IF pc = "nb" THEN "na" ELSE "nb", q.e.v)'),
 'name-twice': ('C17', 'X509Machine.tla', 'IF c # "" /\\ r[job].f[c] # <<>>', 'IF c # "" /\\ c # "OU" /\\ r[job].f[c] # <<>>'),
 'name-empty': ('C17', 'X509Machine.tla', 'IF pc = "attr" /\\ AtEnd', 'IF AtEnd'),
 'name-swap': ('C17', 'X509Machine.tla', '[] arcs = <<2, 5, 4, 10>> -> "O"\n    [] arcs = <<2, 5, 4, 11>> -> "OU"', '[] arcs = <<2, 5, 4, 10>> -> "OU"\n    [] arcs = <<2, 5, 4, 11>> -> "O"'),
 # what is printed, the console, the tool
 'print-order': ('C25', 'Printer.tla', '<<"L", "L: ">>, <<"O", "O: ">>', '<<"O", "O: ">>, <<"L", "L: ">>'),
 'print-indent': ('C25', 'Printer.tla', 'Block(d, "raw content:", SliceLines(x, e.c[1], d + 1))', 'Block(d, "raw content:", SliceLines(x, e.c[1], d))'),
 'print-sixteen': ('C25', 'Printer.tla', 'MinOf(lo + 16 * i, hi)', 'MinOf(lo + 16 * i - 1, hi)'),
 'console-three': ('C25', 'Console.tla', 'shown \\o Spaces(2 * depth)', 'shown \\o Spaces(3 * depth)'),
 'cli-flag': ('C26', 'Cli.tla', 'IF src.args[1] \\notin Flags THEN Quit("nonzero")', 'IF src.args[1] \\notin Flags THEN Quit("zero")'),
 'cli-directory': ('C26', 'Cli.tla', 'IF src.file \\notin Readable THEN Quit', 'IF src.file \\notin Readable \\cup {"directory"} THEN Quit'),
 'cli-taken': ('C30', 'Cli.tla', 'THEN SubSeq(s, 1, src.room) ELSE s', 'THEN shown ELSE s'),
 'cli-lost': ('C30', 'Cli.tla', 'Quit(IF TooMuch(s) THEN "nonzero" ELSE "zero")', 'Quit("zero")'),
 # clients
 'iter-nth': ('C09', 'BitIter.tla', "Nth(k) == out' = Bit(pos + k)", "Nth(k) == out' = Bit(pos + k + 1)"),
 'iter-count': ('C09', 'BitIter.tla', "Count == out' = BitSize(bits) - pos", "Count == out' = BitSize(bits)"),
 'session-load': ('C27', 'Session.tla', '![s] = IF answers[p].ok THEN p ELSE -1]', '![s] = IF answers[p].ok THEN p ELSE held[s]]'),
 'session-ask': ('C27', 'Session.tla', "out' = <<answers[held[s]][q], {}>>", "out' = <<answers[held[1]][q], {}>>"),
 'compare-open': ('C29', 'Compare.tla', 'ELSE IF Alike(x, e, y, f) THEN 5 ELSE 0', 'ELSE 0'),
 'compare-tag': ('C29', 'Compare.tla', 'THEN <<e.v[1], Sub(x, e.lo, e.hi)>>', 'THEN <<0, Sub(x, e.lo, e.hi)>>'),
 'compare-order': ('C29', 'Compare.tla', 'IF Before(e.v, f.v) THEN 2 ELSE 4', 'IF Before(f.v, e.v) THEN 2 ELSE 4'),
 'memory-none': ('C31', 'Memory.tla', 'PerOpen == 256', 'PerOpen == 0'),
 'memory-depth': ('C31', 'Memory.tla', "MemStep == deep' = MemMax(deep, Len(stack'))", "MemStep == deep' = deep + 1"),
 'work-count': ('C32', 'Work.tla', '[] s \\in {32, 33} -> Answer3("ext", TRUE, 1)', '[] s \\in {32, 33} -> Answer3("ext", TRUE, 0)'),
 'made-name': ('C33', 'Made.tla', 'Say(d, "Unsupported name type") ELSE', 'Say(d, "Unsupported name") ELSE'),
 'made-purpose': ('C33', 'Made.tla', 'TimeStamping |-> 8', 'TimeStamping |-> 7'),
 'made-bits': ('C33', 'Made.tla', 'IF unused = 0 THEN All(x)', 'IF unused < 2 THEN All(x)'),
 'console-swap': ('C25', 'Console.tla', "Swap == depth' = parked /\\ parked' = depth /\\", "Swap == depth' = parked /\\ parked' = parked /\\"),
}


def main():
    out, names = sys.argv[1], sys.argv[2:] or list(M)
    top = os.environ.get('SPTOP', '/tmp/sp')
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(HERE, top + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'build', 'evidence'))
    os.makedirs(top + '/verif/evidence', exist_ok=True)
    shutil.copytree('/repo', top + '/repo', ignore=shutil.ignore_patterns('target'))
    os.environ['VK_REPO'] = top + '/repo'
    if os.environ.get('MODEL') == '0':
        plan = open(top + '/verif/vk/plan.py').read()
        assert plan.count("if m['prop']:") == 1 and plan.count("    lines.append('INVARIANTS ' + m['inv'])\n") == 1
        plan = plan.replace("if m['prop']:", 'if False:').replace("    lines.append('INVARIANTS ' + m['inv'])\n", '')
        open(top + '/verif/vk/plan.py', 'w').write(plan)
    for n in names:
        pid, f, old, new = M[n]
        path = '%s/verif/spec/%s' % (top, f)
        orig = open(path).read()
        if orig.count(old) != 1:
            print(n, 'does not apply', orig.count(old))
            continue
        open(path, 'w').write(orig.replace(old, new))
        t0 = time.time()
        r = subprocess.run([sys.executable, 'vk/vk.py', 'check', pid], cwd=top + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        open(path, 'w').write(orig)
        text = r.stdout.decode(errors='replace')
        how = 'code' if 'VIOLATION' in text else 'model' if 'the specification does not have' in text else 'UNNOTICED' if r.returncode == 0 else 'BROKEN'
        why = [l for l in text.splitlines() if 'is violated' in l or 'check error' in l or '@' in l[:60]]
        open(out, 'a').write('%-16s %s %-9s %ds %s\n' % (n, pid, how, time.time() - t0, ' | '.join(l.strip()[:110] for l in why[:2])))
    shutil.rmtree(top)


main()
