#!/usr/bin/env python3
"""plant.py FILE.py [id ...]: plants bugs in a scratch copy of /repo (/tmp/sw), confirms that they build, that the
tests still pass, and that the demonstration fails with the change and passes without it; keeps them in /verif/seeded.
FILE.py calls bug(id, property, needs, breaks, [(file, old, new)...], demo) with the body of demo.rs (or a shell script
starting with '#!')."""
import sys, os, re, json, subprocess, shutil
SW = '/tmp/sw'
PRELUDE = r'''#![allow(dead_code, unused_imports, unused_must_use)]
use folia::*;

fn parse(xml: &str) -> Result<Document, FoliaError> {
    Document::from_str(xml, DocumentProperties::default())
}

fn wrap(declarations: &str, header: &str, body: &str) -> String {
    format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" version=\"2.0\" xml:id=\"d\"><metadata type=\"native\"><annotations><text-annotation set=\"https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl\"/>{}</annotations>{}</metadata><text xml:id=\"d.text\">{}</text></FoLiA>", declarations, header, body)
}

fn out(doc: &Document) -> String {
    String::from_utf8(doc.xml(0, 0).expect("xml")).unwrap()
}

fn key(doc: &Document, id: &str) -> ElementKey {
    doc.get_element_key_by_id(id).expect(id)
}

fn check(condition: bool, message: &str) {
    if !condition {
        eprintln!("FAILED: {}", message);
        std::process::exit(1);
    }
}
'''
DEMO = r'''#!/bin/bash
# exit 0 if the property holds for this example, non-zero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
lib="$(ls -t "$PWD"/target/debug/deps/libfolia-*.rlib | head -1)"
[ -n "$lib" ] || exit 2
rustc --edition 2018 -Awarnings "$here/demo.rs" --extern folia="$lib" -L dependency="$PWD/target/debug/deps" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=SW + '/target', RUSTC_WRAPPER='')
ENV.pop('RUSTFLAGS', None)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=SW, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def build():
    sh('rm -rf target/debug/.fingerprint/folia-*')
    return sh('cargo test --workspace --no-run --offline')

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8')
    ok = len(re.findall(r'^test \S+ \.\.\. ok$', r.stdout, re.M))
    bad = re.findall(r'^test (\S+) \.\.\. FAILED$', r.stdout, re.M)
    return ok, bad

only = sys.argv[2:]
bugs = []
def bug(id, prop, needs, breaks, edits, demo):
    if not only or id in only:
        bugs.append((id, prop, needs, breaks, edits, demo))

exec(open(sys.argv[1]).read())
sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
build()
good = []
for (id, prop, needs, breaks, edits, demo) in bugs:
    d = '/tmp/plant/' + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if demo.startswith('#!'):
        open(d + '/demo.sh', 'w').write(demo)
    else:
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.rs', 'w').write(PRELUDE + demo)
    r = sh('bash %s/demo.sh' % d)
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON THE UNCHANGED TREE', r.returncode, r.stdout[-1500:])
        continue
    good.append((id, prop, needs, breaks, edits, demo))
for (id, prop, needs, breaks, edits, demo) in good:
    d = '/tmp/plant/' + id
    sh('git checkout -q -- .')
    fail = None
    for (file, old, new) in edits:
        p = SW + '/src/' + file
        s = open(p).read()
        if s.count(old) != 1:
            fail = 'pattern occurs %d times in %s' % (s.count(old), file)
            break
        open(p, 'w').write(s.replace(old, new))
    if fail:
        print(id, fail)
        continue
    # the lines that are changed must be lines of the original repository
    lines = sh("git diff -U0 | grep -E '^@@'").stdout
    r = build()
    if r.returncode != 0:
        print(id, 'DOES NOT BUILD', r.stdout[-1500:])
        continue
    ok, bad = tests()
    if bad or ok < 31:
        print(id, 'TESTS FAIL', ok, bad)
        continue
    r = sh('bash %s/demo.sh' % d)
    if r.returncode == 0:
        print(id, 'DEMO PASSES WITH THE CHANGE')
        continue
    diff = subprocess.run(['git', '-C', SW, 'diff'], stdout=subprocess.PIPE, universal_newlines=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    t = '/verif/seeded/' + id
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    print(id, 'kept:', r.returncode, r.stdout.strip().replace('\n', ' | ')[-160:])
sh('git checkout -q -- .')
