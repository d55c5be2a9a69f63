"""Helper to write /verif/seeded/<id>: seed(id, prop, needs, breaks, [(file, old, new)...], demo_rs)"""
import os, subprocess, json
SC = '/tmp/sc'
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 99
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
futures = { path = "$PWD/futures", features = ["thread-pool", "compat", "io-compat", "unstable", "bilock"] }
T
cd "$d" && CARGO_TARGET_DIR="$d/t" timeout 280 cargo run -q --offline
'''
def seed(id, prop, needs, breaks, edits, demo):
    if not os.path.isdir(SC): subprocess.check_call(['cp', '-a', '/repo', SC])
    subprocess.check_call('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=SC)
    for f, old, new in edits:
        p = os.path.join(SC, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.check_output(['git', 'diff'], cwd=SC, text=True)
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=SC)
    o = '/verif/seeded/' + id
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.sh', 'w').write(DEMO)
    open(o + '/demo.rs', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
