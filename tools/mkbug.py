#!/usr/bin/env python3
"""Writes and confirms planted bugs. usage: mkbug.py [ID...]   (specs in bugs.py; not used by any check)

Works in a scratch copy of /repo under /tmp/gv_plant; for each bug: applies the edits there, runs the
stable tests, and runs the demonstration on the changed and the unchanged tree."""
import json, os, subprocess, sys, shutil, re
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
SEED = '/verif/seeded'
W = '/tmp/gv_plant'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# Run with the repository as working directory. Exit 0: behaviour as stated. Non-zero: violated.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true OPENBLAS_NUM_THREADS=1
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=/tmp/gv_demo_@ID@
rm -rf /tmp/gv_demo_@ID@
trap 'rm -rf /tmp/gv_demo_@ID@' EXIT
mkdir -p $d/src
cp "$here/main.rs" $d/src/main.rs
[ -f Cargo.lock ] && cp Cargo.lock $d/
cat > $d/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ndarray-glm = { path = "$repo", features = [@FEAT@] }
ndarray = "0.17"
ndarray-linalg = { version = "0.18", default-features = false }
num-traits = "0.2"
EOF
cd $d && timeout 280 cargo run -q --offline --target-dir $d/target
'''
PRE = '''#![allow(unused, dead_code)]
use ndarray::{Array1, Array2, array, s, Axis};
use ndarray_glm::{*, num::Float};
fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * (1. + a.abs() + b.abs()) }
fn nearv(a: &Array1<f64>, b: &Array1<f64>, tol: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, tol)) }
fn check(what: &str, ok: bool) { if !ok { println!("VIOLATED: {what}"); std::process::exit(1); } }
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def main():
    ids = sys.argv[1:]
    if not os.path.isdir(W):
        subprocess.run(['cp', '-a', '/repo', W], check=True)
    run(['git', 'fetch', '-q', 'origin'], W)
    head = run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], '/').stdout.strip()
    if run(['git', 'rev-parse', 'HEAD'], W).stdout.strip() != head:
        shutil.rmtree('/tmp/gv_plant'); subprocess.run(['cp', '-a', '/repo', W], check=True)
    for b in BUGS:
        if ids and b['id'] not in ids: continue
        if not ids and os.path.exists(f"{SEED}/{b['id']}/meta.json"): continue
        run(['git', 'checkout', '-q', '--', '.'], W)
        d = f"{SEED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        bad = None
        demo = PRE + b['demo']
        open(d + '/main.rs', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(DEMO.replace('@ID@', b['id']).replace('@FEAT@', '"openblas-system"' + (', "stats"' if b.get('stats') else '')))
        os.chmod(d + '/demo.sh', 0o755)
        r = run(['bash', d + '/demo.sh'], W)
        if r.returncode != 0:
            bad = 'demo fails on the unchanged tree:\n' + r.stdout[-1500:] + r.stderr[-3000:]
        if not bad:
            for f, old, new in b['edits']:
                p = f'{W}/src/{f}'
                t = open(p).read()
                if t.count(old) != b.get('count', 1):
                    bad = f'edit matches {t.count(old)} times in {f}: {old[:60]}'; break
                open(p, 'w').write(t.replace(old, new))
        if not bad:
            r = run(['cargo', 'test', '--workspace', '--features', 'openblas-system,stats', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], W)
            if r.returncode != 0:
                fails = re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M)
                bad = 'tests fail: ' + ' '.join(fails[:8]) + (r.stderr[-1500:] if not fails else '')
            r = run(['cargo', 'check', '--workspace', '--tests', '--offline'], W)
            if not bad and r.returncode != 0:
                bad = 'default features do not build ' + r.stderr[-800:]
        if not bad:
            r = run(['bash', d + '/demo.sh'], W)
            if r.returncode == 0: bad = 'demo passes with the change'
            elif 'VIOLATED' not in r.stdout and 'panicked' not in r.stderr: bad = 'demo fails oddly: ' + r.stderr[-1500:]
            else: print(b['id'], 'shows:', (re.findall('VIOLATED.*|panicked.*', r.stdout + r.stderr) or [''])[0][:150])
        if bad:
            print(b['id'], 'REJECTED', re.sub(r'(?s)warning: unexpected.*?(?=\nerror|\Z)', '', bad)[:900]); subprocess.run(['rm', '-rf', d]); continue
        diff = run(['git', 'diff', '--', 'src'], W).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(b['id'], 'kept')
    run(['git', 'checkout', '-q', '--', '.'], W)
main()
