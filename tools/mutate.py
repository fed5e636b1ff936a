#!/usr/bin/env python3
"""Mutation run: small changes to /repo's sources, each run through the checks in
a scratch copy.  tools/mutate.py WORKDIR CHECKS FILES...   (CHECKS: ids, comma
separated, or a prefix as L*).  Survivors are printed and listed in WORKDIR/survivors."""
import re, sys, os, subprocess, shutil, json, time
work, checks, files = sys.argv[1], sys.argv[2], sys.argv[3:]
ids = [c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
want = []
for c in checks.split(','):
    want += [i for i in ids if i.startswith(c[:-1])] if c.endswith('*') else [c]
repo, ver = work + '/repo', work + '/verif'
def setup():
    os.makedirs(work, exist_ok=True)
    if not os.path.exists(repo): subprocess.check_call(['git', 'clone', '-q', '/repo', repo]); shutil.copy('/repo/Cargo.lock', repo) if os.path.exists('/repo/Cargo.lock') else None
    subprocess.call(['git','-C',repo,'pull','-q']); subprocess.call(['git','-C',repo,'checkout','-q','.'])
    os.makedirs(ver, exist_ok=True)
    for d in ['mc', 'check', 'known_findings.txt']:
        subprocess.check_call(['rsync', '-a', '--delete', '/verif/' + d, ver + '/'] if shutil.which('rsync') else ['cp', '-a', '/verif/' + d, ver + '/'])
    for c in ['lex', 'json', 'parse']:
        p = ver + '/mc/' + c + '/Cargo.toml'; s = open(p).read().replace('"/repo', '"' + repo); open(p, 'w').write(s)
def mutants(src):
    out = []
    lines = src.split('\n')
    stop = len(lines)
    for i, l in enumerate(lines):
        if re.match(r'\s*#\[cfg\(test\)\]', l): stop = i; break
    for i, l in enumerate(lines[:stop]):
        code = l.split('//')[0]
        if not code.strip() or code.strip().startswith(('use ', '#', 'extern', 'mod ', 'pub mod', 'pub use')): continue
        def add(a, b, r, tag): out.append((i, l[:a] + r + l[b:], tag))
        for m in re.finditer(r" (<=|>=|==|!=|<|>|&&|\|\|) ", code):
            for r in {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '<': ['<='], '>': ['>='], '&&': ['||'], '||': ['&&']}[m.group(1)]: add(m.start(1), m.end(1), r, 'op')
        for m in re.finditer(r"\b(true|false)\b", code): add(m.start(), m.end(), 'false' if m.group() == 'true' else 'true', 'bool')
        for m in re.finditer(r"(?<![\w.'{])(0x[0-9a-fA-F]+|\d+)(?![\w'}])", code):
            n = int(m.group(), 0)
            for r in ([n + 1, n - 1] if n else [1]): add(m.start(), m.end(), str(r), 'num')
        for m in re.finditer(r"'(\\u\{[0-9a-fA-F]+\}|\\.|[^'\\])'", code):
            t = m.group(1)
            c = int(t[3:-1], 16) if t.startswith('\\u') else ({'n': 10, 'r': 13, 't': 9, '0': 0, '\\': 92, "'": 39, '"': 34}.get(t[1], ord(t[1])) if t[0] == '\\' else ord(t))
            for r in ([c + 1, c - 1] if c else [1]): add(m.start(), m.end(), "'\\u{%x}'" % r, 'char')
        for m in re.finditer(r'"([^"\\]+)"', code): add(m.start(1), m.end(1), m.group(1)[:-1] + ('#' if m.group(1)[-1] != '#' else '$'), 'str')
        m = re.match(r'(\s*(?:\} else )?(?:if|while) )(?!let)(.*?)( \{.*)$', code)
        if m:
            out.append((i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3), 'neg'))
            if ' && ' in m.group(2):
                ps = m.group(2).split(' && ')
                if all(p.count('(') == p.count(')') for p in ps):
                    for k in range(len(ps)): out.append((i, m.group(1) + ' && '.join(ps[:k] + ps[k+1:]) + m.group(3), 'drop'))
        if re.match(r'\s*(self|this|try!|[a-z_.]+\()[^=]*;\s*$', code) and 'return' not in code: out.append((i, '', 'del'))
        if re.match(r'\s*[a-z_.]+ [-+]?= .*;\s*$', code): out.append((i, '', 'delassign'))
        for m in re.finditer(r"(?<=[(|] )?('[^']+'|Some\('[^']+'\)|[A-Z]\w+::\w+(?:\(\.\.\))?) \| ", code): add(m.start(), m.end(), '', 'alt')
        for m in re.finditer(r" \+ | - ", code): add(m.start(), m.end(), ' - ' if '+' in m.group() else ' + ', 'arith')
        for m in re.finditer(r" \+= | -= ", code): add(m.start(), m.end(), ' -= ' if '+' in m.group() else ' += ', 'arith')
    return lines, out
shard, of = map(int, os.environ.get('SHARD', '0/1').split('/'))
setup()
env = dict(os.environ, VERIF_SEED='1')
def run(c, stop):
    e = dict(env, MC_STOP=stop)
    r = subprocess.run(['bash', '-c', 'ulimit -v 10000000; exec timeout 600 %s/check %s quick' % (ver, c)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
    return r.returncode
assert subprocess.call([ver + '/check', 'build'], env=env, stdout=subprocess.DEVNULL) == 0
log = open(work + '/log', 'a'); surv = open(work + '/survivors', 'a')
kill = {}
done = set()
for x in open(work + '/log'):
    k, t, v, w = x.rstrip('\n').split('\t'); done.add(k); ff, l = k.split(':')[:2]; kill.setdefault((ff, v), []).append(int(l))
if os.environ.get('COUNT'):
    print({f: len(mutants(open(repo + '/' + f).read())[1]) for f in files}); sys.exit()
for f in files:
    p = repo + '/' + f
    orig = open(p).read()
    lines, ms = mutants(orig)
    seen = set()
    for nth, (i, new, tag) in enumerate(ms):
        if nth % of != shard: continue
        if new == lines[i] or (i, new) in seen: continue
        seen.add((i, new))
        key = '%s:%d:%s' % (f, i + 1, new.strip())
        if key in done: continue
        open(p, 'w').write('\n'.join(lines[:i] + [new] + lines[i+1:]))
        near = lambda c: sum(1.0 / (1 + abs(i - j)) for j in kill.get((f, c), []))
        order = sorted(want, key=lambda c: -near(c))
        t = time.time(); verdict = None
        # all checks with smaller bounds, then (FULL=1: survivors) with the quick bounds
        for stop in ['small', '1'] if os.environ.get('FULL') else ['small']:
            for c in order:
                rc = run(c, stop)
                if rc == 1: verdict = c; kill.setdefault((f, c), []).append(i); break
                if rc != 0:
                    verdict = 'nobuild' if c == order[0] and rc == 2 else 'rc%d:%s' % (rc, c); break
            if verdict: break
        print('%s\t%s\t%s\t%.0f' % (key, tag, verdict, time.time() - t), file=log, flush=True)
        if verdict is None or verdict.startswith('rc'):
            print('%s\t%s\t%s\n    was: %s' % (key, tag, verdict, lines[i].strip()), file=surv, flush=True)
        open(p, 'w').write(orig)
