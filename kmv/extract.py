"""Builds the MIR extractor and runs it over /repo's current working tree."""
import fcntl, glob, json, os, shutil, subprocess, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, '.work')
REPO = os.environ.get('KMV_REPO', '/repo')


class ExtractError(Exception):
    pass


class UsesError(ExtractError):
    """kameo builds, the uses of its macros in /verif/uses do not"""


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0')
    e.update(kw)
    return e


def run(cmd, cwd, log, timeout=600, **kw):
    with open(log, 'w') as f:
        p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise ExtractError(f'{" ".join(cmd)} failed, see {log}:\n' + open(log).read()[-3000:])


SETS = {
    # name: (package, features, crates to dump)
    'core': ('kameo', 'macros', ['kameo']),
    'remote': ('kameo', 'remote', ['kameo']),
    'actors': ('kameo_actors', '', ['kameo_actors']),
    # uses of kameo's macros, in a crate of /verif: what the macros of the working tree generate for them
    'uses': ('uses', '', ['uses']),
}


def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def extract(sets, jobs=8):
    """returns {set: [json files]}; builds the extractor and checks the dependencies in parallel"""
    os.makedirs(WORK, exist_ok=True)
    if not os.path.exists(os.path.join(REPO, 'Cargo.lock')):
        # git-ignored in this repository; without it offline resolution could pick versions that are not in the cache
        shutil.copy(os.path.join(VERIF, 'kmv', 'Cargo.lock.repo'), os.path.join(REPO, 'Cargo.lock'))
    kt = os.path.join(WORK, 'kmir')
    wrapper = os.path.join(kt, 'release', 'kmir')
    t0 = time.time()
    errs = []
    out = {}

    def build_kmir():
        try:
            run(['cargo', 'build', '--release', '--offline'], os.path.join(VERIF, 'kmir'), os.path.join(WORK, 'kmir.log'),
                RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=kt)
        except Exception as e:
            errs.append(e)

    def args(s, whole=True):
        pkg, feats, _ = SETS[s]
        a = ['cargo', 'check', '-p', pkg, '--offline', '--lib']
        if s == 'uses':
            return a if whole else ['cargo', 'check', '-p', 'kameo', '--offline', '--lib']
        if s != 'actors':
            a += ['--no-default-features', '--features', feats]
        return a

    def where(s):
        if s != 'uses':
            return REPO
        d = os.path.join(WORK, 'uses')
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, 'uses'), d, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        shutil.copy(os.path.join(REPO, 'Cargo.lock'), d)
        t = open(os.path.join(d, 'Cargo.toml')).read()
        open(os.path.join(d, 'Cargo.toml'), 'w').write(t.replace('"/repo"', f'"{REPO}"'))
        return d

    def deps():
        try:
            for s in sets:
                # dependencies only matter here: the workspace members are checked again below, under the wrapper
                run(args(s, False), where(s), os.path.join(WORK, f'deps-{s}.log'), RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=os.path.join(WORK, f'nt-{s}'))
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=build_kmir), threading.Thread(target=deps)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    for s in sets:
        pkg, feats, crates = SETS[s]
        tgt = os.path.join(WORK, f'nt-{s}')
        for d in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', 'kameo*' if s != 'uses' else 'uses*')) + glob.glob(os.path.join(tgt, 'debug', 'build', 'kameo*')):
            if not os.path.basename(d).startswith('kameo_macros'):
                shutil.rmtree(d)
        od = os.path.join(WORK, f'out-{s}')
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        roots = os.path.join(WORK, f'roots-{s}')
        open(roots, 'w').write('*\n')
        more = {'KMIR_STATICS': '1'} if s == 'uses' else {}
        try:
            run(args(s), where(s), os.path.join(WORK, f'extract-{s}.log'), RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=tgt,
                RUSTC_WORKSPACE_WRAPPER=wrapper, KMIR_OUT=od, KMIR_CRATES=','.join(crates), KMIR_ROOTS=roots, **more)
        except ExtractError as e:
            raise UsesError(str(e)) if s == 'uses' else e
        out[s] = [os.path.join(od, f'{c}.json') for c in crates]
        for f in out[s]:
            if not os.path.exists(f):
                raise ExtractError('no extraction produced: ' + f)
    return out, round(time.time() - t0, 1)
