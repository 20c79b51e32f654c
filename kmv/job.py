"""Verification jobs: one function (or lemma) of the code base against its contract."""
import copy, re, time, traceback
import z3
from .engine import *
from . import lib


class Job:
    """name: label; root: regexes identifying the function on the extracted crate; extra: contracts of callees
    that override the library table / inlining; setup(ctx), monitor(ctx, st, name, args), finish(ctx, st, kind, value)"""

    def __init__(self, name, root, setup=None, monitor=None, finish=None, extra=(), ghost=None, drive=True, crate='core', cands=None, budget=120,
                 expect=(), no_panic=(), bounded=None, config=None, args=None, entry=None, needs=(), chain=None, each=False, endless=False):
        self.name, self.root, self.setup, self.monitor, self.finish = name, [root] if isinstance(root, str) else list(root), setup, monitor, finish
        self.extra, self.ghost, self.drive, self.crate, self.cands, self.budget = extra, ghost or {}, drive, crate, cands, budget
        self.expect, self.no_panic, self.bounded, self.config = expect, no_panic, bounded, config
        self.args, self.entry = args, entry
        self.endless = endless # a function that never returns
        self.chain = chain     # (ctx, st, value) -> None | ('poll', future) | ('call', closure, args): goes on with what the function returned
        self.each = each       # one contract for every function matching root
        self.needs = needs     # functions whose contract the specification is stated over: if one is gone, nothing is decided


def watch(job, ctx, st, name, args):
    """what holds in every job, then the job's own monitor"""
    if name == 'scope_cancelled' and args[0] == 'timeout' and 'elapsed' not in st.ghost and not ctx.mute:
        if getattr(ctx, 'timed', None) and ctx.timed(ctx, st):
            raise Unsupported('a timeout of another kind where one was asked for')
        ctx.prove(st, False, 'only a timeout that was asked for cuts anything short')
    if job.monitor:
        job.monitor(ctx, st, name, args)


PLAIN = {'Result': ('Ok', 'Err'), 'Option': ('None', 'Some'), 'Poll': ('Ready', 'Pending')}


class Ctx:
    def __init__(self, eng, job, body):
        self.eng, self.job, self.body = eng, job, body
        self.P = eng.P
        self.seen = {}
        self.finals = 0
        self.mute = False      # track without proving

    # ---- spec helpers
    def term(self, st, v):
        return self.eng.term(st, v)

    def content(self, st, v):
        return lib.content(self.eng, st, v)

    def cterm(self, st, v):
        return lib.cterm(self.eng, st, v)

    def prove(self, st, cond, name):
        if self.mute:
            return True
        self.seen[name] = self.seen.get(name, 0) + (0 if self.eng.dry else 1)
        return self.eng.prove(st, cond, self.job.name + ': ' + name)

    def eq(self, st, a, b):
        a = a if isinstance(a, z3.ExprRef) else self.eng.term(st, a)
        b = b if isinstance(b, z3.ExprRef) else self.eng.term(st, b)
        return True if a.eq(b) else a == b

    def is_variant(self, st, v, name):
        """condition: enum value v is of the named variant (several: a|b)"""
        names = name.split('|')
        if isinstance(v, Agg) and v.tid is not None:
            return self.P.t(v.tid)['variants'][v.variant]['name'] in names
        if isinstance(v, Sym) and v.tid is not None:
            d = self.eng.discriminant(st, v)
            cs = [d == int(x['discr']) for x in self.P.t(v.tid)['variants'] if x['name'] in names]
            return z3.Or(*cs) if cs else False
        if isinstance(v, Agg):
            ns = PLAIN.get(v.path.split('::')[-1])
            if ns:
                return ns[v.variant] in names
            raise Unsupported('untyped enum')
        raise Unsupported(f'is_variant of {v!r}'[:100])

    def payload(self, st, v, name, i=0):
        """field i of variant `name` of an enum value / field of a struct (name=None)"""
        if isinstance(v, Agg):
            if name is not None:        # the payload of another variant: there is none, nothing is known of it
                vs = self.P.t(v.tid)['variants'] if v.tid is not None else None
                if vs is not None and len(vs) > 1 and vs[v.variant]['name'] != name:
                    o = [x for x in vs if x['name'] == name]
                    return self.eng.fresh_val(st, o[0]['fields'][i][1], 'no_payload') if o else Sym(self.eng.fresh('no_payload'), None)
                ns = PLAIN.get(v.path.split('::')[-1]) if vs is None else None
                if ns and ns[v.variant] != name:
                    return Sym(self.eng.fresh('no_payload'), None)
            return v.fields[i]
        t = self.P.t(v.tid)
        if name is None:
            vi = 0
        else:
            vi = [k for k, x in enumerate(t['variants']) if x['name'] == name][0]
        return self.eng.field_of(st, v, vi, i, t['variants'][vi]['fields'][i][1])

    def field(self, st, v, fname):
        """named field of a struct value"""
        v = self.content(st, v)
        t = self.P.t(v.tid)
        names = [f[0] for f in t['variants'][0]['fields']]
        i = names.index(fname)
        return self.eng.field_of(st, v, 0 if isinstance(v, Agg) else None, i, t['variants'][0]['fields'][i][1])

    def field_loc(self, st, ref, fname):
        c, p = self.eng.deref(st, ref)
        v = self.eng.load(st, c, p)
        t = self.P.t(v.tid)
        i = [f[0] for f in t['variants'][0]['fields']].index(fname)
        return Ref(c, tuple(p) + (('f', None, i, t['variants'][0]['fields'][i][1]),))


def run(job, prog, cutset=None, trace=False):
    """returns dict(status, obligations, stats)"""
    if job.each:
        return run_each(job, prog)
    t0 = time.time()
    cutset = set() if cutset is None else cutset
    tries = 0
    while True:
        tries += 1
        eng = Engine(prog)
        eng.cutset = cutset
        eng.deadline = t0 + job.budget
        eng.no_panic = job.no_panic
        eng.trace_on = trace
        lib.install(eng, job.extra)
        res = {'job': job.name, 'status': 'ok', 'error': None}
        ctx = None
        try:
            for pat in job.needs:
                if not any(re.search(pat, n) for n in prog.names):
                    res['status'] = 'lost'
                    raise Unsupported(f'anchor lost: {pat}')
            key = prog.find(*job.root)
            body = prog.bodies[key]
            ctx = Ctx(eng, job, body)
            eng.ctx = ctx
            if job.config:
                job.config(eng, ctx)
            st = State()
            st.ghost = {k: v for k, v in job.ghost.items()}
            eng.monitor = lambda s, n, a: watch(job, ctx, s, n, a)
            if job.cands:
                eng.inv_candidates = job.cands
            args = []
            for i in range(1, body['argc'] + 1):
                args.append(eng.fresh_val(st, body['locals'][i], f'arg{i}'))
            args = [mat(eng, st, a, body['locals'][i + 1]) for i, a in enumerate(args)]
            ctx.args = args
            if job.args:
                args = job.args(ctx, st, args)
                ctx.args = args
            if job.setup:
                job.setup(ctx, st, args)

            def final(s, kind, v):
                s.stack = []
                s.dead = (kind, v)
                return [s]

            def drive(s, v, k):
                eng.push_cont(s, lambda s2, k2, r: k(s2, k2, r.fields[0] if k2 == 'ret' else r), 'drive')
                return lib.poll_at(eng, s, eng.alloc(s, v), (), None, None)

            def chained(s, kind, v):
                nxt = job.chain(ctx, s, v) if job.chain and kind == 'ret' else None
                if nxt is None:
                    return final(s, kind, v)
                if nxt[0] == 'poll':
                    return drive(s, nxt[1], final)
                if nxt[0] == 'run':        # a call, and the future it returns
                    eng.push_cont(s, lambda s2, k2, r: drive(s2, r, final) if k2 == 'ret' and is_future(r) else final(s2, k2, r), 'chain')
                    return eng.call_value(s, nxt[1], nxt[2])
                eng.push_cont(s, final, 'chain')
                return eng.call_value(s, nxt[1], nxt[2])

            def after(s, kind, v):
                if kind == 'ret' and job.drive and is_future(v):
                    return drive(s, v, chained)
                return chained(s, kind, v)
            eng.push_cont(st, after, 'root')
            eng.push_fn(st, key, args)
            eng.push_hook = None
            done = eng.explore([st])
            for s in done:
                ctx.finals += 1
                if job.finish:
                    job.finish(ctx, s, s.dead[0], s.dead[1])
            if not done and not job.endless:
                raise Unsupported('no path reaches the end')
            for e in job.expect:
                if not ctx.seen.get(e):
                    raise Unsupported(f'vacuous: clause {e!r} was never generated')
        except Restart as r:
            if tries > 40:
                res['status'], res['error'] = 'unsupported', 'too many loop cuts'
                break
            cutset.add(r.site)
            continue
        except (Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, EngineError, z3.Z3Exception) as e:
            res['status'] = 'lost' if res['status'] == 'lost' else 'unsupported'
            res['error'] = f'{type(e).__name__}: {e}'[:500]
            res['trace'] = traceback.format_exc()[-1500:]
        break
    res['obls'] = eng.obls
    res['finals'] = ctx.finals if ctx else 0
    res['queries'], res['solver_s'], res['wall_s'] = eng.queries, round(eng.qtime, 3), round(time.time() - t0, 3)
    res['inlined'] = sorted(eng.inlined)
    res['contracts'] = sorted(eng.contract_used)
    res['opaque'] = sorted(eng.opaque_calls)
    res['loops'] = {f'{k[0]}@bb{k[1]}': sorted(v) for k, v in eng.loops_cut.items()}
    res['bounded'] = job.bounded
    return res


def run_each(job, prog):
    out = None
    keys = sorted(k for k in prog.roots if any(re.search(p, k) for p in job.root))
    for k in keys:
        j = copy.copy(job)
        j.each, j.root = False, ['^' + re.escape(k) + '$']
        r = run(j, prog)
        if out is None:
            out = r
            continue
        out['obls'] += r['obls']
        for x in ('finals', 'queries', 'solver_s', 'wall_s'):
            out[x] = round(out[x] + r[x], 3)
        for x in ('inlined', 'contracts', 'opaque'):
            out[x] = sorted(set(out[x]) | set(r[x]))
        out['loops'].update(r['loops'])
        if r['status'] != 'ok' and out['status'] == 'ok':
            out['status'], out['error'], out['trace'] = r['status'], f'{k}: {r["error"]}', r.get('trace')
    if out is None:
        out = {'job': job.name, 'status': 'unsupported', 'error': f'anchor lost: no function matches {job.root}', 'obls': [], 'finals': 0, 'queries': 0, 'solver_s': 0, 'wall_s': 0,
               'inlined': [], 'contracts': [], 'opaque': [], 'loops': {}, 'bounded': None, 'trace': ''}
    return out


def is_future(v):
    if isinstance(v, Agg) and v.path.startswith('coroutine:'):
        return True
    if isinstance(v, Obj) and v.kind in ('Wrap', 'Fut', 'MapFut'):
        return True
    return isinstance(v, Agg) and v.path.endswith('pin::Pin')


def mat(eng, st, v, tid):
    """arguments: references become real references to symbolic content"""
    t = eng.P.t(tid)
    if t['k'] == 'ref' and isinstance(v, Sym):
        c, p = eng.deref(st, v, t['to'])
        return Ref(c, p)
    return v


def summarize(res):
    n = {'valid': 0, 'failed': 0, 'undecided': 0}
    for o in res['obls']:
        n[o.status] += 1
    return n
