#!/usr/bin/env python3
"""mkseed.py DIR PROP NEEDS BREAKS < spec.  spec: blocks 'FILE\n<<<\nold\n===\nnew\n>>>' then 'MAIN' then rust source.
Builds seeded/<DIR>/{patch.diff,demo.sh,main.rs,meta.json} and tries the demonstration on a clean and on a patched copy."""
import sys, os, re, json, shutil, subprocess, tempfile
D, prop, needs, breaks = sys.argv[1:5]
spec = sys.stdin.read()
edits, main = spec.split('\nMAIN\n')
inject = None
if '\nINJECT\n' in edits: edits, inject = edits.split('\nINJECT\n')
PORT = os.environ.get('PORTABLE')   # build the variants for other processors
V = '/verif/seeded/' + D; os.makedirs(V, exist_ok=True)
open(V + '/main.rs', 'w').write(main)
if inject: open(V + '/inject.rs', 'w').write(inject)
NODBG = 'NODEBUG' in spec.split('\n')[0]
open(V + '/demo.sh', 'w').write('''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
d=$(mktemp -d /tmp/demo.XXXXXX); mkdir $d/src
cp "$here/main.rs" $d/src/main.rs
[ -f Cargo.lock ] && cp Cargo.lock $d/
%scat > $d/Cargo.toml <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
festa_rs = { path = "$repo" }
num-bigint = { version = "0.4.4", features = ["rand"] }
rand = "0.8.5"
rand_core = "0.6.4"
rand_chacha = "0.3.1"
[profile.dev]
opt-level = 1
[workspace]
E
cd $d
CARGO_TARGET_DIR=$d/target cargo build --offline -q 2>$d/log || { cat $d/log; exit 3; }
timeout 250 $d/target/debug/demo
''' % ('''mkdir $d/crate; cp -r $repo/src $d/crate/src; cp $repo/Cargo.toml $d/crate/; [ -f $repo/Cargo.lock ] && cp $repo/Cargo.lock $d/crate/
# the copy gets one more public module that can name the private functions
(echo 'pub mod seeddemo { #[allow(unused_imports)] use super::*;'; cat "$here/inject.rs"; echo '}') > $d/inject
sed -i "/crate::theta::define_theta_structure! {}/r $d/inject" $d/crate/src/lib.rs
repo=$d/crate
''' if inject else '' if not PORT else '''mkdir $d/crate; cp -r $repo/src $d/crate/src; cp $repo/Cargo.toml $d/crate/; [ -f $repo/Cargo.lock ] && cp $repo/Cargo.lock $d/crate/
find $d/crate/src -name '*.rs' | xargs sed -i 's/target_arch = "x86_64"/target_arch = "other"/g'
repo=$d/crate
'''))
if NODBG:
    t_ = open(V + '/demo.sh').read().replace('opt-level = 1', 'opt-level = 1\ndebug-assertions = false')
    open(V + '/demo.sh', 'w').write(t_)
os.chmod(V + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(V + '/meta.json', 'w'), indent=1)
t = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', t + '/r/')
for m in re.finditer(r'(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>', edits, re.S):
    p = t + '/r/' + m[1]; s = open(p).read()
    k = s.count(m[2])
    if k != 1: sys.exit('%d matches of %r in %s' % (k, m[2], m[1]))
    open(p, 'w').write(s.replace(m[2], m[3]))
diff = subprocess.run(['git', 'diff'], cwd=t + '/r', stdout=subprocess.PIPE, text=True).stdout
open(V + '/patch.diff', 'w').write(diff)
a = subprocess.run([V + '/demo.sh'], cwd=t + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=t + '/r')
b = subprocess.run([V + '/demo.sh'], cwd=t + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(D, 'clean: exit', b.returncode, '| patched: exit', a.returncode)
if b.returncode: print(b.stdout[-1500:])
if not a.returncode or a.returncode == 3: print(a.stdout[-1500:])
subprocess.run(['git', 'apply', V + '/patch.diff'], cwd=t + '/r', check=True)
r = subprocess.run(['python3', '-m', 'sa.run', prop], cwd='/verif', env=dict(os.environ, SA_REPO=t + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print('check', prop, 'exit', r.returncode, r.stdout.strip().split('\n')[-1])
for f in os.listdir('/tmp'):
    if f.startswith('demo.'): shutil.rmtree('/tmp/' + f)
shutil.rmtree(t)
