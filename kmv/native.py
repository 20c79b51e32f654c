"""Runs the scenarios of /verif/replay against the real crate (replay of failed obligations; bounded stand-in)."""
import os, re, subprocess
from . import extract


def run(scens, pid, tier, seed):
    """`scens`: (crate, names) or a list of those."""
    out = {'failures': [], 'summary': '', 'output': '', 'cmd': ''}
    for scen in (scens if isinstance(scens, list) else [scens]):
        o = run_one(scen, pid, tier, seed)
        out['failures'] += o['failures']
        for k, sep in (('summary', '; '), ('output', '\n'), ('cmd', ' ; ')):
            out[k] += (sep if out[k] else '') + o[k]
    return out


def run_one(scen, pid, tier, seed):
    out = {'failures': [], 'summary': '', 'output': '', 'cmd': ''}
    try:
        crate, names = scen
        src = os.path.join(extract.VERIF, crate)
        tgt = os.path.join(extract.WORK, 'nt-' + crate)
        lock = os.path.join(src, 'Cargo.lock')
        if not os.path.exists(lock):
            import shutil
            
            have = os.path.join(extract.REPO, 'Cargo.lock')
            shutil.copy(have if os.path.exists(have) else os.path.join(extract.VERIF, 'kmv', 'Cargo.lock.repo'), lock)
        extract.run(['cargo', 'build', '--offline'], src, os.path.join(extract.WORK, f'{crate}-{pid}.log'), CARGO_TARGET_DIR=tgt)
        exe = os.path.join(tgt, 'debug', crate)
        cmd = [exe] + list(names)
        out['cmd'] = ' '.join(cmd)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, env=extract.env(VERIF_SEED=str(seed), VERIF_TIER=tier))
        t = p.stdout.decode(errors='replace')
        out['output'] = t
        out['failures'] = re.findall(r'^FAIL (.*)$', t, re.M)
        ran = re.findall(r'^(?:OK|FAIL) ', t, re.M)
        if p.returncode not in (0, 1) and not out['failures']:
            out['failures'] = [f'the scenario process ended with status {p.returncode}']
        out['summary'] = f'{len(ran)} scenarios, {len(out["failures"])} failing'
    except subprocess.TimeoutExpired:
        out['failures'] = ['a scenario did not terminate (300 s)']
        out['summary'] = 'timeout'
    except Exception as e:
        out['summary'] = f'not run: {str(e)[-600:]}'
    return out
