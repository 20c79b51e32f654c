#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO) and confirms it in a scratch copy:
the workspace builds, the library tests pass, the demo passes without and fails with the change."""
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw'


def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout.decode(errors='replace')


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, 'seeded', s['ID'])
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(SW):
        sh(f'cp -a /repo {SW}')
    sh(f'git -C {SW} checkout -q -- . && git -C {SW} fetch -q /repo HEAD && git -C {SW} reset -q --hard FETCH_HEAD')
    for f, old, new in s['EDITS']:
        t = open(f'{SW}/{f}').read()
        assert t.count(old) == 1, f'{f}: {t.count(old)} matches of {old!r}'
        open(f'{SW}/{f}', 'w').write(t.replace(old, new))
    rc, diff = sh('git diff', SW)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/demo.rs', 'w').write(s['DEMO'])
    feats = s.get('FEATURES', '"macros"')
    open(f'{d}/demo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
                                      f'kameo = {{ path = "/repo", default-features = false, features = [{feats}] }}\nkameo_actors = {{ path = "/repo/actors" }}\n'
                                      'tokio = { version = "1.44", features = ["macros", "rt", "rt-multi-thread", "sync", "time", "test-util"] }\nfutures = "0.3"\n' + s.get('DEPS', '') +
                                      '\n[profile.dev]\ndebug = 0\n')
    shutil.copy(f'{V}/replay/Cargo.lock' if not s.get('REMOTE') else f'{V}/kmv/Cargo.lock.repo', f'{d}/demo.lock')
    open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# a small program using the public interface: exit 0 when the property held on it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
mkdir -p "$t/src"
cp "$d/demo.rs" "$t/src/main.rs"; cp "$d/demo.toml" "$t/Cargo.toml"; cp "$d/demo.lock" "$t/Cargo.lock"
( cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 3; }
  timeout -k 5 60 "$t/target/debug/demo" )
rc=$?
rm -rf "$t"
exit $rc
''')
    os.chmod(f'{d}/demo.sh', 0o755)
    # demo on the unchanged tree and on the changed copy
    rc0, o0 = sh(f'bash {d}/demo.sh', '/repo')
    tmp = '/tmp/sw-demo'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    t = open(f'{tmp}/demo.toml').read().replace('/repo', SW)
    open(f'{tmp}/demo.toml', 'w').write(t)
    rc1, o1 = sh(f'bash {tmp}/demo.sh', SW)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc0 != 0 or rc1 in (0, 3):
        print(f'{s["ID"]}: DEMO BAD: unchanged {rc0}, changed {rc1}\n{o0[-1500:]}\n{o1[-1500:]}')
        return
    if '--notest' not in sys.argv:
        rc, o = sh('. /opt/vp/env.sh; timeout 500 cargo test --workspace --all-features --no-fail-fast --offline --lib --bins --tests -- --test-threads 8', SW)
        bad = re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)
        comp = re.findall(r'^error.*', o, re.M)
        if bad or rc:
            print(f'{s["ID"]}: TESTS FAIL {bad} {comp[:3]}')
            return
    print(f'{s["ID"]}: good (demo with the change: {rc1}: {o1[-200:].strip()!r})')


for f in sys.argv[1:]:
    if f.endswith('.py'):
        main(f)
sh(f'git -C {SW} checkout -q -- .')
