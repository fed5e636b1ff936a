"""Builds and confirms planted bugs: seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}."""
import json, os, shutil, subprocess, sys, tempfile
DEMO = r'''#!/bin/bash
# Run in the repository's root. Exit 0: behaves as it should; nonzero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
cd "$work" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$work/target" timeout -k 5 120 cargo run --offline -q 2>"$work/log" || { grep -vE '^warning|^ |^$' "$work/log" | tail -5; exit 1; }
'''
PARSE = '''joker = { path = "$repo/crates/joker" }
easter = { path = "$repo/crates/easter" }
estree = { path = "$repo/crates/estree" }
unjson = { path = "$repo/crates/unjson" }
esprit = { path = "$repo" }
serde_json = "0.8"
[patch.crates-io]
syn = { path = "$here/shims/syn" }
tristate = { path = "$here/shims/tristate" }'''
DEPS = {'plain': 'joker = { path = "$repo/crates/joker" }\n[profile.dev]\ndebug-assertions = false', 'parse': PARSE, 'lex': 'joker = { path = "$repo/crates/joker" }', 'json': 'unjson = { path = "$repo/crates/unjson" }\nserde_json = "0.8"'}
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, kind, edits, demo, needs, breaks, confirm=True, extra=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    try:
        sh('cp -a /repo/. %s/' % w)
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(old) != 1: print(id, 'PATTERN', f, s.count(old)); return
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % w).stdout
        open(d + '/patch.diff', 'w').write(diff)
        if kind == 'parse':
            for c in ['syn', 'tristate']:
                os.makedirs(d + '/shims/' + c + '/src', exist_ok=True)
                for f in ['Cargo.toml', 'src/lib.rs']: shutil.copy('/verif/mc/shims/%s/%s' % (c, f), '%s/shims/%s/%s' % (d, c, f))
        if demo is not None: open(d + '/demo.rs', 'w').write(demo)
        if extra: extra(d)
        else: open(d + '/demo.sh', 'w').write(DEMO % DEPS[kind])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
        if not confirm: return
        # Build and tests, in place (the build folder refers to /repo), then both demos.
        assert sh('git -C /repo status --porcelain').stdout == ''
        r0 = sh('cd /repo && bash %s/demo.sh' % d)
        try:
            a = sh('git -C /repo apply %s/patch.diff' % d)
            b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/seed.json')
            passed = json.load(open('/tmp/seed.json'))['passed'] if os.path.exists('/tmp/seed.json') else []
            r1 = sh('cd /repo && bash %s/demo.sh' % d)
            c = sh('cd /verif && ./check %s quick' % prop)
        finally:
            sh('git -C /repo checkout -- .')
        ok = a.returncode == 0 and b.returncode == 0 and passed == ["joker:src/lib.rs::lexer::tests::go"] and r0.returncode == 0 and r1.returncode == 1
        viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')][:1]
        print(id, prop, 'VALID' if ok else 'INVALID a%d b%d t%s d0=%d d1=%d' % (a.returncode, b.returncode, passed, r0.returncode, r1.returncode),
              'CAUGHT' if c.returncode == 1 and viol else 'MISSED rc=%d' % c.returncode)
        if not ok: print(r0.stdout[-600:], r1.stdout[-600:], b.stdout[-300:])
        if c.returncode != 1: print(c.stdout[-300:])
    finally:
        shutil.rmtree(w)
