#!/usr/bin/env python3
"""check.py PROPERTY: verify one property of /repo's working tree (see DESIGN.md, "A check run")."""
import fnmatch, importlib, json, multiprocessing as mp, os, re, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from kmv import extract, native          # noqa: E402

FILES = {}


def load(pid):
    import contracts.index as index
    return index.PROPS[pid]


def work(a):
    mod, i, files = a
    from kmv import job
    from kmv.engine import Prog
    sys.setrecursionlimit(20000)
    try:
        j = importlib.import_module('contracts.' + mod).JOBS[i]
        if files[j.crate] not in FILES:
            FILES[files[j.crate]] = Prog(*files[j.crate].split(','))
        import copy
        r = job.run(j, copy_prog(FILES[files[j.crate]]))
        r['obls'] = [(norm(o.name), o.status, o.info[:6000], round(o.secs, 4)) for o in r['obls']]
        return r
    except BaseException as e:
        return {'job': f'{mod}[{i}]', 'status': 'unsupported', 'error': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()[-2000:], 'obls': [],
                'finals': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0, 'inlined': [], 'contracts': [], 'opaque': [], 'loops': {}, 'bounded': None}


def copy_prog(p):
    return p


def norm(n):
    return re.sub(r'\bc\d+\b', 'c#', re.sub(r'#\d+', '#', n))


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) obligation=`([^`]*)` (.*)', l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    prop = load(pid)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, '.work', 'replays'), exist_ok=True)
    lk = extract.lock()
    jobs = []
    for mod, pats in prop['jobs']:
        m = importlib.import_module('contracts.' + mod)
        for i, j in enumerate(m.JOBS):
            if any(fnmatch.fnmatchcase(j.name, p) for p in pats):
                jobs.append((mod, i, j))
    sets = sorted({j.crate for _, _, j in jobs})
    try:
        files, ex_s = extract.extract(sets)
    except extract.UsesError as e:
        return uses_broken(pid, prop, tier, seed, t0, str(e))
    files = {k: ','.join(v) for k, v in files.items()}
    print(f'{pid}: extracted {", ".join(sets)} in {ex_s}s; {len(jobs)} functions under contract')
    with mp.get_context('fork').Pool(min(8, max(1, len(jobs)))) as pool:
        res = pool.map(work, [(m, i, files) for m, i, _ in jobs], chunksize=1)
    obls = [(r['job'],) + o for r in res for o in r['obls']]
    # one verdict per obligation name: an obligation holds when it holds on every path it was generated for
    by = {}
    for jn, n, s, info, secs in obls:
        cur = by.setdefault((jn, n), [s, info, 0, 0.0])
        cur[2] += 1
        cur[3] += secs
        rank = {'valid': 0, 'undecided': 1, 'failed': 2}
        if rank[s] > rank[cur[0]]:
            cur[0], cur[1] = s, info
    failed = [(k, v) for k, v in by.items() if v[0] == 'failed']
    # a job whose function could not be brought into the verifier decides nothing
    lost = {r['job'] for r in res if r['status'] == 'lost'}
    failed = [(k, v) for k, v in failed if k[0] not in lost]
    undecided = [(k, v) for k, v in by.items() if v[0] == 'undecided'] + [(k, v) for k, v in by.items() if v[0] == 'failed' and k[0] in lost]
    unsupported = [r for r in res if r['status'] != 'ok']
    findings = known(pid)
    new, listed = [], []
    for k, v in failed:
        hit = [f for f in findings if f[0] == k[1]]
        (listed if hit else new).append((k, v))
    for f, what in findings:
        if any(k[1] == f for k, _ in listed):
            print(f'KNOWN-FINDING: property={pid} {what}')
    for r in unsupported:
        print(f'{pid}: {r["job"]}: not decided by the verifier ({r["error"]})')
    for (jn, n), v in undecided:
        print(f'{pid}: undecided: {n}')
    nat = None
    scen = prop.get('replay')
    need = bool(new or undecided or unsupported)
    if scen and (need or tier == 'thorough'):
        nat = native.run(scen, pid, tier, seed)
        print(f'{pid}: bounded native run: {nat["summary"]}')
    violation = None
    if new:
        for (jn, n), v in new[:20]:
            print(f'{pid}: FAILED obligation: {n}')
    if new or (nat and nat['failures']):
        rp = os.path.join(VERIF, '.work', 'replays', f'{pid}.txt')
        with open(rp, 'w') as f:
            f.write(f'property {pid}: {prop["title"]}\n\n')
            for (jn, n), v in new:
                f.write(f'FAILED obligation (function contract job {jn}):\n  {n}\n{v[1]}\n\n')
            if nat:
                f.write('native runs against the real crate (%s)\n' % nat['cmd'])
                for x in nat['failures']:
                    f.write(f'FAILING INPUT: {x}\n')
                f.write(nat['output'][-8000:])
        violation = rp
    valid = sum(1 for v in by.values() if v[0] == 'valid')
    trusted, inl, fns = set(), set(), []
    for r in res:
        trusted |= set(r['contracts'])
        inl |= set(r['inlined'])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'proof'),
        'coverage': {
            'obligations': len(obls), 'discharged': sum(1 for o in obls if o[2] == 'valid'),
            'checker_cmd': f'python3-vt check.py {pid} (kmv: symbolic execution of rustc MIR with contracts; z3 {z3v()} discharges)',
            'trusted_base': sorted(prop.get('trusted', [])) + ['assumed contract: ' + c for c in sorted(trusted)],
            **({'explanation': prop['note']} if prop.get('level') == 'other' else {}),
            'named_obligations': len(by), 'named_discharged': valid,
            'obligation_names': [f'{n} (x{v[2]}, {v[0]})' for (jn, n), v in sorted(by.items())][:400],
            'functions_under_contract': [{'job': r['job'], 'status': r['status'], 'error': r['error'], 'paths': r['finals'], 'obligations': len(r['obls']),
                                          'solver_queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'],
                                          'loops_with_invariants': r['loops'], 'opaque_calls': r['opaque'], 'bounded': r['bounded']} for r in res],
            'bodies_executed_inline': sorted(inl),
            'solver_s': round(sum(r['solver_s'] for r in res), 2), 'extraction_s': ex_s,
            'undecided': [n for (jn, n), v in undecided] + [f'{r["job"]}: {r["error"]}' for r in unsupported],
            'known_findings': [k[1] for k, _ in listed],
            'bounded_native_runs': None if nat is None else {'summary': nat['summary'], 'failures': nat['failures'], 'label': 'bounded, not counted as proved'},
        },
        'assumptions': prop.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {ev["coverage"]["discharged"]}/{len(obls)} obligations discharged ({valid}/{len(by)} named), {len(undecided)} undecided, '
          f'{len(unsupported)} functions not decided, {ev["wall_s"]}s')
    if violation:
        tail = '' if nat and nat['failures'] else ' no-failing-input-found'
        print(f'VIOLATION property={pid} replay={violation}{tail}')
        return 1
    return 0


def uses_broken(pid, prop, tier, seed, t0, text):
    """kameo builds, but a program using its macros as documented (/verif/uses) no longer does: that program is the failing input"""
    rp = os.path.join(VERIF, '.work', 'replays', f'{pid}.txt')
    open(rp, 'w').write(f'property {pid}: {prop["title"]}\n\nFAILING INPUT: the crate /verif/uses, which uses the macros; what they generate for it does not compile\n{text}\n')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop['level'],
          'coverage': {'obligations': 1, 'discharged': 0, 'explanation': 'the generated code does not compile', 'checker_cmd': f'python3-vt check.py {pid}', 'trusted_base': sorted(prop['trusted'])},
          'assumptions': prop['assumptions'], 'wall_s': round(time.time() - t0, 1), 'violations': 1}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid}: what the macros generate for /verif/uses does not compile')
    print(f'VIOLATION property={pid} replay={rp}')
    return 1


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except extract.ExtractError as e:
        print('extraction failed:', str(e)[-3000:])
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
