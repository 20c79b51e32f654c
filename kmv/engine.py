"""kmv: a deductive verifier for Rust functions, working on the MIR rustc builds for them.

Forward symbolic execution generates the verification conditions (one per contract clause, per path),
z3 discharges them.  Callees that carry a contract are replaced by the contract; callees without one are
executed symbolically in the caller's context; loops whose number of iterations depends on symbolic data
are cut at the loop head with an inductive invariant (candidate conjuncts filtered by Houdini and then
re-proved).  Anything not understood *taints* the path: an obligation failing only on tainted paths is
reported as undecided, never as violated.
"""
import json, re, sys, time, itertools, hashlib
import z3

V = z3.DeclareSort('V')
SeqV = z3.SeqSort(V)
DomV = z3.ArraySort(V, z3.BoolSort())
MapV = z3.ArraySort(V, V)


class Unsupported(Exception):
    pass


class EngineError(Exception):
    pass


# ------------------------------------------------------------------ values
class Val:
    __slots__ = ()


class I(Val):
    __slots__ = ('e', 'bits', 'signed')

    def __init__(self, e, bits=64, signed=False):
        self.e, self.bits, self.signed = e, bits, signed

    def __repr__(self):
        return f'{self.e}'


class B(Val):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f'{self.e}'


class Agg(Val):
    """struct / enum variant / tuple / closure / coroutine value"""
    __slots__ = ('path', 'variant', 'fields', 'tid')

    def __init__(self, path, variant, fields, tid=None):
        self.path, self.variant, self.fields, self.tid = path, variant, tuple(fields), tid

    def __repr__(self):
        return f'{self.path.split("::")[-1]}#{self.variant}{self.fields}'


class Ref(Val):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return f'&{self.cell}{"".join("."+str(p) for p in self.path)}'


class BoxV(Val):
    __slots__ = ('cell', 'dyn')

    def __init__(self, cell, dyn=None):
        self.cell, self.dyn = cell, dyn

    def __repr__(self):
        return f'box@{self.cell}'


class FrozenBox(Val):
    __slots__ = ('v', 'dyn')

    def __init__(self, v, dyn=None):
        self.v, self.dyn = v, dyn

    def __repr__(self):
        return f'box({self.v})'


class Sym(Val):
    __slots__ = ('t', 'tid')

    def __init__(self, t, tid):
        self.t, self.tid = t, tid

    def __repr__(self):
        return f'{self.t}'


class FnV(Val):
    __slots__ = ('callee',)

    def __init__(self, callee):
        self.callee = callee

    def __repr__(self):
        return f'fn:{self.callee.get("path")}'


class Str(Val):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class Obj(Val):
    """state of a library object whose operations are given by contracts"""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind, self.a = kind, a

    def with_(self, **kw):
        d = dict(self.a)
        d.update(kw)
        o = Obj(self.kind)
        o.a = d
        return o

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, 'a')[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f'{self.kind}{self.a}'


class _Moved(Val):
    def __repr__(self):
        return 'MOVED'


MOVED = _Moved()
UNIT = Agg('tuple', 0, ())


def is_conc(x):
    return isinstance(x, (int, bool))


def simp_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def bnot(e):
    return (not e) if isinstance(e, bool) else z3.Not(e)


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def zi(e):
    return z3.IntVal(e) if isinstance(e, int) else e


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, *files):
        self.types, self.bodies, self.roots, self.fns = [], {}, {}, []
        for f in files:
            d = json.load(open(f))
            off = len(self.types)
            if off:
                d = self._shift(d, off)
            self.types += d['types']
            self.bodies.update(d['bodies'])
            for k, v in d['roots'].items():
                self.roots[k] = v
            self.fns += d['fns']
        self._heads = {}
        self._mods = {}
        names = {f[0] for f in self.fns} | set(self.roots)

        def scan(x):
            if isinstance(x, dict):
                if isinstance(x.get('path'), str):
                    names.add(x['path'])
                for y in x.values():
                    if isinstance(y, (dict, list)):
                        scan(y)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, (dict, list)):
                        scan(y)
        for b in self.bodies.values():
            for blk in (b or {}).get('blocks') or ():
                t = (blk or {}).get('t')
                if t and t[0] not in ('goto', 'return', 'switch', 'drop'):
                    scan(t)
        self.names = names

    def _shift(self, d, off):
        raise EngineError('load one crate per Prog')

    def t(self, tid):
        return self.types[tid]

    def find(self, *pats):
        """the unique root matching one of the patterns (regex on the def path)"""
        for p in pats:
            r = [k for k in self.roots if re.search(p, k)]
            if len(r) == 1:
                return self.roots[r[0]]
            if len(r) > 1:
                raise Unsupported(f'anchor {p!r} is ambiguous: {r[:4]}')
        raise Unsupported(f'anchor lost: no function matches {pats}')

    def type_by_str(self, s):
        for i, t in enumerate(self.types):
            if t['s'] == s:
                return i
        return None

    def _succ(self, blk):
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'yield':
            return [t[2]]
        return []

    def heads(self, key):
        """loop heads of a body (targets of back edges), and the natural loop of each"""
        if key in self._heads:
            return self._heads[key]
        blocks = self.bodies[key]['blocks']
        color, back = {}, []
        stack = [(0, iter(self._succ(blocks[0])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(self._succ(blocks[s]))))
                    break
                elif color[s] == 1:
                    back.append((n, s))
            else:
                color[n] = 2
                stack.pop()
        preds = {}
        for i, b in enumerate(blocks):
            for s in self._succ(b):
                preds.setdefault(s, []).append(i)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            wl = [n]
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl += preds.get(x, [])
        out = {}
        for h, body in loops.items():
            # an await loop polls until Ready; polls are modelled as completing, so it never iterates
            inner_yield = any(blocks[b]['t'][0] == 'yield' for b in body)
            own = set(body)
            for h2, b2 in loops.items():
                if h2 != h and b2 < body:
                    own -= b2
            await_loop = inner_yield and any(blocks[b]['t'][0] == 'yield' for b in own)
            out[h] = {'body': body, 'await': await_loop}
        self._heads[key] = out
        return out


# ------------------------------------------------------------------ frames and state
class Frame:
    __slots__ = ('key', 'locals', 'bb', 'idx', 'dest', 'target', 'unwind', 'id', 'visits', 'body')

    def copy(self):
        f = Frame()
        f.key, f.bb, f.idx, f.dest, f.target, f.unwind, f.id, f.body = (
            self.key, self.bb, self.idx, self.dest, self.target, self.unwind, self.id, self.body)
        f.locals = dict(self.locals)
        f.visits = dict(self.visits)
        return f


class Cont:
    """a native continuation: fn(state, kind, value) -> list of states; kind in ret|panic|cancel"""
    __slots__ = ('fn', 'tag')

    def __init__(self, fn, tag=''):
        self.fn, self.tag = fn, tag

    def copy(self):
        return self


class State:
    __slots__ = ('stack', 'heap', 'pc', 'ghost', 'trace', 'symref', 'taint', 'facts', 'dead', 'steps', 'loopctx', 'panicking', 'touched')

    def __init__(self):
        self.stack, self.heap, self.pc, self.ghost, self.trace = [], {}, [], {}, ()
        self.symref, self.taint, self.facts, self.dead, self.steps = {}, (), {}, None, 0
        self.loopctx = ()
        self.panicking = None
        self.touched = None

    def fork(self):
        s = State()
        s.stack = [f.copy() for f in self.stack]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.symref = dict(self.symref)
        s.taint = self.taint
        s.facts = dict(self.facts)
        s.steps = self.steps
        s.loopctx = self.loopctx
        s.panicking = self.panicking
        s.touched = set(self.touched) if self.touched is not None else None
        return s


class Obligation:
    def __init__(self, name, status, info='', secs=0.0, path=''):
        self.name, self.status, self.info, self.secs, self.path = name, status, info, secs, path


class Loop:
    pass


class Engine:
    def __init__(self, prog, timeout_ms=10000):
        self.P = prog
        self.timeout = timeout_ms
        self.axioms = []
        self.qcache = {}
        self.literals = {}
        self.axseen = set()
        self.keep = {}
        self.termval = {}
        self.fns = {}
        self.cnt = itertools.count()
        self.contracts = []      # (regex, handler)
        self.ccache = {}
        self.obls = []
        self.queries = 0
        self.qtime = 0.0
        self.dry = False
        self.monitor = None
        self.inv_candidates = None
        self.cutset = set()
        self.inlined = set()
        self.call_dest = None
        self.contract_used = set()
        self.opaque_calls = set()
        self.deadline = None
        self.max_steps = 60000
        self.unroll = 8
        self.feas = {}
        self.loops_cut = {}
        self.step_filter = None
        self.undecided = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.nax_in_solver = 0

    # ---------------------------------------------------------------- logic
    def fresh(self, name, sort=V):
        return z3.Const(f'{name}!{next(self.cnt)}', sort)

    def F(self, name, dom, rng):
        k = (name, tuple(str(d) for d in dom), str(rng))
        if k not in self.fns:
            self.fns[k] = z3.Function(name, *dom, rng)
        return self.fns[k]

    def axiom(self, e):
        i = e.get_id()
        if i not in self.axseen:
            self.axseen.add(i)
            self.axioms.append(e)

    def kid(self, e):
        """id of a term, which stays unique because the term is kept alive"""
        i = e.get_id()
        self.keep[i] = e
        return i

    def _sync(self):
        while self.nax_in_solver < len(self.axioms):
            self.solver.add(self.axioms[self.nax_in_solver])
            self.nax_in_solver += 1

    def check(self, pc, extra=None, want_model=False):
        """sat / unsat / unknown of axioms & pc & extra"""
        self._sync()
        es = [e for e in pc if not z3.is_true(e)]
        if extra is not None:
            es = es + [extra]
        key = frozenset(self.kid(e) for e in es)
        hit = self.qcache.get(key)
        if hit is not None and (hit[0] == 'unsat' or (hit[1] == len(self.axioms) and not want_model)):
            self.last_model = None
            return hit[0]
        r = self._check(es, want_model)
        if r != 'unknown':
            self.qcache[key] = (r, len(self.axioms))
        return r

    def _check(self, es, want_model):
        self.queries += 1
        t = time.time()
        self.solver.push()
        self.solver.add(*es)
        r = self.solver.check()
        self.last_model = self.solver.model() if r == z3.sat and want_model else None
        self.last_reason = self.solver.reason_unknown() if r == z3.unknown else ''
        self.solver.pop()
        if r == z3.unknown:
            # fresh solver, second attempt
            s = z3.Solver()
            s.set('timeout', self.timeout)
            s.add(*self.axioms)
            s.add(*es)
            r = s.check()
            self.last_model = s.model() if r == z3.sat and want_model else None
        self.qtime += time.time() - t
        return 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'

    def by_length(self, es):
        """what the solver gave up on, with the length of a sequence as a function of its own: a model need not
        build sequences of thousands of elements. Where sequences are only named, measured and compared (no pieces
        of them, none put together), a model of the one is one of the other: there are sequences of every length,
        and more than enough of each but the empty one"""
        es = list(self.axioms) + es
        bad, seqs, seen, todo = False, [], set(), list(es)
        while todo and not bad:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return 'unknown'
            if x.sort() == SeqV:
                if x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SEQ_EMPTY):
                    return 'unknown'
                seqs.append(x)
            elif z3.is_app(x) and x.num_args() and any(c.sort() == SeqV for c in x.children()) and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SEQ_LENGTH, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                return 'unknown'
            elif isinstance(x.sort(), z3.SeqSortRef) or isinstance(x.sort(), z3.ArraySortRef) and 'Seq' in str(x.sort()):
                return 'unknown'
            todo += x.children()
        if not seqs:
            return 'unknown'
        t = time.time()
        length = z3.Function('lengthOf', SeqV, z3.IntSort())
        pair = (z3.Length(seqs[0]).decl(), length(z3.Var(0, SeqV)))
        empty = z3.Empty(SeqV)
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*[z3.substitute_funs(e, pair) for e in es])
        s.add(length(empty) == 0)
        s.add(*[z3.And(length(q) >= 0, (length(q) == 0) == (q == empty)) for q in map(lambda q: z3.substitute_funs(q, pair), seqs)])
        r = s.check()
        self.queries += 1
        self.qtime += time.time() - t
        self.last_model = s.model() if r == z3.sat else None
        return 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'

    def again(self, es):
        """what the solver gave up on, in a context of its own with other seeds (only 'unsat' is taken from it)"""
        t = time.time()
        r = 'unknown'
        for seed in (1, 7, 42):
            ctx = z3.Context()
            s = z3.SolverFor('ALL', ctx=ctx) if seed == 7 else z3.Solver(ctx=ctx)
            s.set('timeout', self.timeout)
            s.set('random_seed', seed)
            for e in list(self.axioms) + es:
                s.add(e.translate(ctx))
            self.queries += 1
            if s.check() == z3.unsat:
                r = 'unsat'
                break
        self.qtime += time.time() - t
        return r

    def feasible(self, st, cond):
        c = simp_bool(cond)
        if c is True:
            return True
        if c is False:
            return False
        k = c.get_id()
        if k in st.facts:
            return st.facts[k]
        r = self.check(st.pc, c)
        return r != 'unsat'

    def entails(self, st, cond):
        c = simp_bool(cond)
        if isinstance(c, bool):
            return c
        return self.check(st.pc, z3.Not(c)) == 'unsat'

    def assume(self, st, cond):
        c = simp_bool(cond)
        if c is True:
            return True
        if c is False:
            return False
        st.pc.append(c)
        st.facts[self.kid(c)] = True
        n = z3.Not(c)
        st.facts[self.kid(n)] = False
        return True

    def branch(self, st, cond):
        """fork on a boolean; returns [(state, bool)]"""
        c = simp_bool(cond)
        if isinstance(c, bool):
            return [(st, c)]
        c = z3.simplify(c)
        c = simp_bool(c)
        if isinstance(c, bool):
            return [(st, c)]
        out = []
        ft = self.feasible(st, c)
        ff = self.feasible(st, z3.Not(c)) if ft else True
        if ft and ff:
            s2 = st.fork()
            self.assume(st, c)
            self.assume(s2, z3.Not(c))
            return [(st, True), (s2, False)]
        if ft:
            self.assume(st, c)
            return [(st, True)]
        self.assume(st, z3.Not(c))
        return [(st, False)]

    def prove(self, st, cond, name):
        if self.dry:
            return True
        c = simp_bool(cond)
        t = time.time()
        if c is True:
            r, model = 'unsat', None
        else:
            r = self.check(st.pc, bnot(zb(c)) if not isinstance(c, bool) else None, True)
            model = self.last_model
            if r == 'unknown':
                r = self.by_length([e for e in st.pc if not z3.is_true(e)] + [bnot(zb(c)) if not isinstance(c, bool) else z3.BoolVal(True)])
                model = self.last_model
            if r == 'unknown':
                r = self.again([e for e in st.pc if not z3.is_true(e)] + [bnot(zb(c)) if not isinstance(c, bool) else z3.BoolVal(True)])
        secs = time.time() - t
        if r == 'unsat':
            self.obls.append(Obligation(name, 'valid', '', secs))
            return True
        if r == 'sat':
            status = 'undecided' if st.taint else 'failed'
            info = self.describe(st, model)
            self.obls.append(Obligation(name, status, info, secs))
            return False
        self.obls.append(Obligation(name, 'undecided', 'solver: unknown', secs))
        return False

    def describe(self, st, model):
        lines = []
        lines.append('path: ' + ' ; '.join(self.ev_str(e) for e in st.trace[-60:]))
        if st.taint:
            lines.append('taint: ' + ', '.join(st.taint))
        lines.append('path condition: ' + ' & '.join(str(x).replace('\n', ' ')[:160] for x in st.pc[-40:]))
        if model is not None:
            try:
                ms = []
                for d in model.decls()[:60]:
                    if d.arity() == 0:
                        ms.append(f'{d.name()}={str(model[d])[:60]}')
                lines.append('model: ' + ', '.join(ms))
            except Exception:
                pass
        return '\n'.join(lines)

    def ev_str(self, e):
        return f"{e[0]}({', '.join(str(x).replace(chr(10), ' ')[:70] for x in e[1:])})"

    # ---------------------------------------------------------------- terms
    def mk(self, name, args, discr=None, fieldnames=None):
        f = self.F('mk:' + name, [a.sort() for a in args], V)
        t = f(*args) if args else self.F('mk:' + name, [], V)()
        return t

    def term(self, st, v):
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, I):
            e = zi(v.e)
            if e.num_args() == 1 and e.decl().name() == 'intOf':
                return e.arg(0)
            t = self.F('ofInt', [z3.IntSort()], V)(e)
            self.axiom(self.F('intOf', [V], z3.IntSort())(t) == e)
            return t
        if isinstance(v, B):
            e = zb(v.e)
            if e.num_args() == 1 and e.decl().name() == 'boolOf':
                return e.arg(0)
            t = self.F('ofBool', [z3.BoolSort()], V)(e)
            self.axiom(self.F('boolOf', [V], z3.BoolSort())(t) == e)
            return t
        if isinstance(v, Str):
            t = z3.Const('str:' + v.s, V)
            self.termval.setdefault(t.get_id(), (v, t))
            if v.s not in self.literals:        # two different texts are two different values
                self.literals[v.s] = len(self.literals)
                self.axiom(self.F('literalOf', [V], z3.IntSort())(t) == self.literals[v.s])
            return t
        if isinstance(v, FnV):
            t = z3.Const('fn:' + v.callee.get('path', '?'), V)
            self.termval.setdefault(t.get_id(), (v, t))
            return t
        if isinstance(v, Agg):
            fs = [self.term(st, f) for f in v.fields]
            t = self.mk(f'{v.path}#{v.variant}', fs)
            src = self.common_source(v, fs)
            if src is not None:
                # rebuilt from the fields of src: it is src (if src is of that variant)
                ty = self.P.t(v.tid) if v.tid is not None else None
                if ty is None or not ty.get('enum'):
                    return src
                self.axiom(z3.Implies(self.F('discr', [V], z3.IntSort())(src) == self.discr_of(v), t == src))
            for i, ft in enumerate(fs):
                self.axiom(self.fld(v.path, v.variant, i)(t) == ft)
            d = self.discr_of(v)
            self.axiom(self.F('discr', [V], z3.IntSort())(t) == d)
            self.termval.setdefault(t.get_id(), (self.freeze(st, v), t))
            return t
        if isinstance(v, BoxV):
            inner = self.term(st, st.heap[v.cell])
            if inner.num_args() == 1 and inner.decl().name() == 'unbox':
                return inner.arg(0)
            t = self.F('box', [V], V)(inner)
            self.axiom(self.F('unbox', [V], V)(t) == inner)
            self.termval.setdefault(t.get_id(), (self.freeze(st, v), t))
            return t
        if isinstance(v, FrozenBox):
            inner = self.term(st, v.v)
            t = self.F('box', [V], V)(inner)
            self.axiom(self.F('unbox', [V], V)(t) == inner)
            return t
        if isinstance(v, Ref):
            t = z3.Const(f'addr:{v.cell}:{v.path}', V)
            self.termval.setdefault(t.get_id(), (v, t))
            return t
        if isinstance(v, Obj):
            if v.kind == 'Seq' and 'seq' in v.a:
                if v.seq.num_args() == 1 and v.seq.decl().name() == 'seqOf':
                    return v.seq.arg(0)
                t = self.F('ofSeq', [SeqV], V)(v.seq)
                self.axiom(self.F('seqOf', [V], SeqV)(t) == v.seq)
                return t
            if v.kind == 'Map':
                t = self.F('ofMap', [DomV, MapV], V)(v.dom, v.val)
                self.axiom(self.F('domOf', [V], DomV)(t) == v.dom)
                self.axiom(self.F('valOf', [V], MapV)(t) == v.val)
                return t
            if 't' in v.a:
                t = v.a['t']
                self.termval.setdefault(t.get_id(), (v, t))
                return t
            key = ('obj', id(v))
            t = self.termval.get(key)
            if t is None:
                t = z3.Const(f'obj:{v.kind}!{next(self.cnt)}', V)
                self.termval[key] = t
                self.termval[t.get_id()] = (v, t)
                self.termval[('keep', id(v))] = v
            return t
        if v is MOVED:
            return z3.Const('MOVED', V)
        raise Unsupported(f'term of {v!r}')

    def common_source(self, v, fs):
        if not fs:
            return None
        src = None
        for i, t in enumerate(fs):
            x = v.fields[i]
            if isinstance(x, Agg) and not x.fields and not (x.tid is not None and self.P.t(x.tid).get('enum')):
                continue
            t = self.unwrap_scalar(t)
            if t.num_args() != 1 or not t.decl().eq(self.fld(v.path, v.variant, i)):
                return None
            a = t.arg(0)
            if src is None:
                src = a
            elif not src.eq(a):
                return None
        return src

    def unwrap_scalar(self, t):
        n = t.decl().name()
        if n in ('ofInt', 'ofBool') and t.num_args() == 1:
            a = t.arg(0)
            if a.num_args() == 1 and a.decl().name() in ('intOf', 'boolOf'):
                return a.arg(0)
        if n == 'ofSeq' and t.arg(0).num_args() == 1 and t.arg(0).decl().name() == 'seqOf':
            return t.arg(0).arg(0)
        if n == 'ofMap' and t.arg(0).num_args() == 1 and t.arg(0).decl().name() == 'domOf' and t.arg(1).num_args() == 1 and t.arg(1).decl().name() == 'valOf' and t.arg(0).arg(0).eq(t.arg(1).arg(0)):
            return t.arg(0).arg(0)
        if n == 'box' and t.arg(0).num_args() == 1 and t.arg(0).decl().name() == 'unbox':
            return t.arg(0).arg(0)
        return t

    def freeze(self, st, v):
        if isinstance(v, BoxV):
            return FrozenBox(self.freeze(st, st.heap[v.cell]), v.dyn)
        if isinstance(v, Agg):
            return Agg(v.path, v.variant, [self.freeze(st, f) for f in v.fields], v.tid)
        return v

    def thaw(self, st, v):
        if isinstance(v, FrozenBox):
            return BoxV(self.alloc(st, self.thaw(st, v.v)), v.dyn)
        if isinstance(v, Agg):
            return Agg(v.path, v.variant, [self.thaw(st, f) for f in v.fields], v.tid)
        return v

    def fld(self, path, variant, i):
        return self.F(f'fld:{path}#{variant}.{i}', [V], V)

    def discr_of(self, agg):
        if agg.tid is not None:
            ty = self.P.t(agg.tid)
            if ty.get('variants'):
                return int(ty['variants'][agg.variant]['discr'])
        return agg.variant

    def from_term(self, st, t, tid):
        """value for a term of sort V with type tid"""
        hit = self.termval.get(t.get_id())
        if hit is not None:
            return self.thaw(st, hit[0])
        return self.sym(st, t, tid)

    def sym(self, st, t, tid):
        if tid is None:
            return Sym(t, None)
        ty = self.P.t(tid)
        k = ty['k']
        if k == 'bool':
            return B(self.F('boolOf', [V], z3.BoolSort())(t))
        if k == 'int':
            e = self.F('intOf', [V], z3.IntSort())(t)
            self.int_range(e, ty)
            return I(e, ty['bits'], ty['signed'])
        if k == 'tuple':
            return Agg('tuple', 0, [self.sym(st, self.fld('tuple', 0, i)(t), f) for i, f in enumerate(ty['fields'])], tid)
        if k == 'adt' and ty['expanded'] and not ty['enum'] and len(ty['variants']) == 1 and not ty['variants'][0]['fields']:
            return Agg(ty['path'], 0, [], tid)
        return Sym(t, tid)

    def int_range(self, e, ty):
        b = ty['bits']
        if ty['signed']:
            self.axiom(z3.And(e >= -(2 ** (b - 1)), e < 2 ** (b - 1)))
        else:
            self.axiom(z3.And(e >= 0, e < 2 ** b))

    def fresh_val(self, st, tid, name='s'):
        return self.sym(st, self.fresh(name), tid)

    def expand(self, st, v, variant):
        """Sym ADT -> Agg with the given variant"""
        ty = self.P.t(v.tid)
        if ty['k'] == 'adt' and ty['expanded']:
            var = ty['variants'][variant]
            fs = [self.from_term(st, self.fld(ty['path'], variant, i)(v.t), ft) for i, (n, ft) in enumerate(var['fields'])]
            return Agg(ty['path'], variant, fs, v.tid)
        if ty['k'] in ('closure', 'coroutine'):
            raise Unsupported('expand closure')
        raise Unsupported(f'expanding opaque type {ty["s"]}')

    def unfold_term(self, st, v, variant):
        # relate a Sym to its expansion (surjectivity), so that terms rebuilt from the fields are equal
        pass

    # ---------------------------------------------------------------- memory
    def alloc(self, st, v):
        c = next(self.cnt)
        st.heap[c] = v
        return c

    def field_of(self, st, v, variant, i, ftid):
        if isinstance(v, Agg):
            if variant is not None and v.variant != variant:
                raise Unsupported(f'downcast mismatch {v} {variant}')
            if i >= len(v.fields):
                raise Unsupported(f'field {i} of {v}')
            return v.fields[i]
        if isinstance(v, Sym):
            if v.tid is None:
                raise Unsupported('field of untyped symbol')
            ty = self.P.t(v.tid)
            var = variant or 0
            if ty['k'] == 'adt':
                t = self.fld(ty['path'], var, i)(v.t)
                return self.from_term(st, t, ftid)
            if ty['k'] == 'tuple':
                return self.from_term(st, self.fld('tuple', 0, i)(v.t), ftid)
            if ty['k'] in ('closure', 'coroutine'):
                return self.from_term(st, self.fld(ty['key'] or 'closure', 0, i)(v.t), ftid)
            raise Unsupported(f'field of {ty["s"]}')
        if isinstance(v, Obj) and v.kind == 'Pinned':
            return v.inner
        if isinstance(v, Obj) and v.kind == 'Entry' and i == 0:
            return v
        if v is MOVED:
            raise Unsupported('use of moved value')
        raise Unsupported(f'field {i} of {type(v).__name__} {v!r}'[:200])

    def read_path(self, st, v, path):
        for p in path:
            if p[0] == 'f':
                v = self.field_of(st, v, p[1], p[2], p[3])
            elif p[0] == 'idx':
                v = self.index_val(st, v, p[1], p[2])
            elif p[0] == 'mapval':
                v = self.from_term(st, z3.Select(v.val, p[1]), p[2])
            else:
                raise Unsupported(f'path {p}')
        return v

    def index_val(self, st, v, i, etid):
        if isinstance(v, Agg) and v.path == 'array':
            if isinstance(i, int):
                return v.fields[i]
            raise Unsupported('symbolic array index')
        if isinstance(v, Obj) and v.kind == 'Seq':
            t = v.seq[zi(i)] if not isinstance(v.seq[zi(i)], z3.SeqRef) else v.seq[zi(i)]
            return self.from_term(st, t, etid if etid is not None else v.a.get('etid'))
        if isinstance(v, Sym):
            s = self.as_seq(st, v)
            return self.index_val(st, s, i, etid)
        raise Unsupported(f'index of {v!r}'[:100])

    def write_path(self, st, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if p[0] == 'f':
            variant, i = p[1], p[2]
            if isinstance(v, Sym):
                ty = self.P.t(v.tid)
                if ty['k'] in ('adt', 'tuple'):
                    v = self.expand(st, v, variant or 0)
            if isinstance(v, Agg):
                old = v.fields[i] if i < len(v.fields) else MOVED
                fs = list(v.fields)
                while len(fs) <= i:
                    fs.append(MOVED)
                fs[i] = self.write_path(st, old, path[1:], nv)
                return Agg(v.path, v.variant, fs, v.tid)
            if isinstance(v, Obj) and v.kind == 'Pinned':
                return v.with_(inner=self.write_path(st, v.inner, path[1:], nv))
            if isinstance(v, Obj) and v.kind == 'Entry' and i == 0:
                return v        # the entry itself stands for its Occupied / Vacant payload
            if v is MOVED:
                raise Unsupported('write into moved aggregate')
            raise Unsupported(f'write field of {v!r}'[:100])
        if p[0] == 'idx':
            if isinstance(v, Agg) and v.path == 'array' and isinstance(p[1], int):
                fs = list(v.fields)
                fs[p[1]] = self.write_path(st, fs[p[1]], path[1:], nv)
                return Agg(v.path, v.variant, fs, v.tid)
            if isinstance(v, Sym):
                v = self.as_seq(st, v)
            if isinstance(v, Obj) and v.kind == 'Seq':
                i = zi(p[1])
                old = self.index_val(st, v, i, p[2])
                n = self.write_path(st, old, path[1:], nv)
                t = self.term(st, n)
                s = v.seq
                ns = z3.Concat(z3.SubSeq(s, 0, i), z3.Unit(t), z3.SubSeq(s, i + 1, z3.Length(s) - i - 1))
                return v.with_(seq=ns)
        if p[0] == 'mapval':
            old = self.from_term(st, z3.Select(v.val, p[1]), p[2])
            n = self.write_path(st, old, path[1:], nv)
            return v.with_(val=z3.Store(v.val, p[1], self.term(st, n)))
        raise Unsupported(f'write path {p}')

    def load(self, st, cell, path=()):
        if cell not in st.heap:
            raise Unsupported(f'dangling cell {cell}')
        return self.read_path(st, st.heap[cell], path)

    def store(self, st, cell, path, nv):
        if st.touched is not None:
            st.touched.add((cell, tuple(p[:3] for p in path)))
        st.heap[cell] = self.write_path(st, st.heap.get(cell, MOVED), path, nv)

    def deref(self, st, v, tid_to=None):
        """(cell, path) a pointer value points to"""
        if isinstance(v, Ref):
            return v.cell, v.path
        if isinstance(v, BoxV):
            return v.cell, ()
        if isinstance(v, FrozenBox):
            c = self.alloc(st, self.thaw(st, v.v))
            return c, ()
        if isinstance(v, Sym):
            to = tid_to
            ty = self.P.t(v.tid) if v.tid is not None else {}
            if ty.get('k') in ('ref', 'ptr'):
                to = ty['to']
            elif ty.get('box'):
                to = ty['args'][0] if to is None else to
                inner = self.F('unbox', [V], V)(v.t)
                k = ('box', self.kid(v.t))
                if k not in st.symref:
                    st.symref[k] = self.alloc(st, self.from_term(st, inner, to))
                return st.symref[k], ()
            k = self.kid(v.t)
            if k not in st.symref:
                inner = self.F('deref', [V], V)(v.t)
                st.symref[k] = self.alloc(st, self.from_term(st, inner, to))
            return st.symref[k], ()
        if isinstance(v, Str):
            return self.alloc(st, v), ()
        if isinstance(v, Agg) and v.path.endswith('pin::Pin'):
            return self.deref(st, v.fields[0], tid_to)
        if isinstance(v, Agg) and len(v.fields) >= 1 and ('ptr::' in v.path):
            return self.deref(st, v.fields[0], tid_to)
        if v is MOVED:
            raise Unsupported('deref of moved value')
        raise Unsupported(f'deref of {v!r}'[:120])

    def place(self, st, fr, pl):
        """resolve a MIR place to (cell, path)"""
        cell = fr.locals.get(pl[0])
        if cell is None:
            cell = fr.locals[pl[0]] = self.alloc(st, MOVED)
        path = []
        variant = None
        for e in pl[1]:
            if e[0] == 'deref':
                v = self.load(st, cell, path)
                cell, path = self.deref(st, v)
                path = list(path)
                variant = None
            elif e[0] == 'f':
                path = list(path) + [('f', variant, e[1], e[2])]
                variant = None
            elif e[0] == 'dc':
                variant = e[1]
            elif e[0] == 'idx':
                iv = self.load(st, fr.locals[e[1]])
                path = list(path) + [('idx', iv.e, None)]
            elif e[0] == 'cidx':
                if e[3]:
                    v = self.load(st, cell, path)
                    n = len(v.fields) if isinstance(v, Agg) else z3.Length(self.as_seq(st, v).seq)
                    path = list(path) + [('idx', n - e[1], None)]
                else:
                    path = list(path) + [('idx', e[1], None)]
            elif e[0] == 'nop':
                pass
            else:
                raise Unsupported(f'projection {e}')
        return cell, tuple(path), variant

    # ---------------------------------------------------------------- operands, rvalues
    def const(self, st, fr, c):
        k = c[0]
        if k == 'int':
            ty = self.P.t(c[2])
            if ty['k'] == 'bool':
                return B(c[1] != '0')
            if ty['k'] == 'char':
                return I(int(c[1]), 32, False)
            return I(int(c[1]), ty['bits'], ty['signed'])
        if k == 'fn':
            return FnV(c[1])
        if k == 'str':
            return Str(c[1])
        if k == 'zst':
            ty = self.P.t(c[2])
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'adt':
                if ty['expanded'] and ty['variants'] and not ty['enum']:
                    return Agg(ty['path'], 0, [self.sym(st, z3.Const('zst', V), f[1]) for f in ty['variants'][0]['fields']], c[2])
                return Sym(z3.Const('zst:' + ty['s'], V), c[2])
            if ty['k'] in ('closure',):
                return Agg('closure:' + str(ty['key']), 0, [], c[2])
            return self.sym(st, z3.Const('zst:' + ty['s'], V), c[2])
        if k == 'adtc':
            ty = self.P.t(c[3])
            return Agg(ty['path'], c[1], [self.const(st, fr, x) for x in c[2]], c[3])
        if k == 'promoted':
            return self.promoted(st, fr, c[1], c[2])
        if k == 'rtcheck':
            return B(False)
        if k == 'static':
            t = z3.Const('static:' + c[1], V)
            return Sym(t, c[2])
        return self.sym(st, z3.Const('const:' + re.sub(r'\w+/#(\d+)', r'#\1', str(c[1])), V), c[2])

    def promoted(self, st, fr, idx, tid):
        b = fr.body['promoted'][idx]
        f = Frame()
        f.key, f.body, f.bb, f.idx, f.locals, f.visits = fr.key, dict(b, promoted=fr.body['promoted']), 0, 0, {}, {}
        f.dest = f.target = f.unwind = None
        f.id = next(self.cnt)
        n = 0
        while True:
            blk = b['blocks'][f.bb]
            for s in blk['s']:
                self.stmt(st, f, s)
            t = blk['t']
            if t[0] == 'return':
                return self.load(st, f.locals[0])
            if t[0] == 'goto':
                f.bb = t[1]
            elif t[0] == 'assert':
                f.bb = t[4]
            elif t[0] == 'drop':
                f.bb = t[2]
            else:
                return self.sym(st, z3.Const(f'promoted:{fr.key}:{idx}', V), tid)
            n += 1
            if n > 200:
                raise Unsupported('promoted loop')

    def operand(self, st, fr, o):
        if o[0] == 'c':
            return self.const(st, fr, o[1])
        cell, path, var = self.place(st, fr, o[1])
        v = self.load(st, cell, path)
        if o[0] == 'mv':
            # copies of scalars / shared refs stay readable; everything else is moved out
            if not isinstance(v, (I, B, Ref, Str, FnV)):
                st.heap[cell] = self.write_path(st, st.heap[cell], path, MOVED)
        return v

    def rvalue(self, st, fr, r, desttid=None):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            cell, path, var = self.place(st, fr, r[2])
            return Ref(cell, path)
        if k == 'agg':
            fs = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'tuple':
                return Agg('tuple', 0, fs)
            if kk[0] == 'array':
                return Agg('array', 0, fs)
            if kk[0] == 'adt':
                return Agg(self.P.t(kk[1])['path'], kk[2], fs, kk[1])
            if kk[0] == 'closure':
                return Agg('closure:' + str(kk[1]), 0, fs, kk[2])
            if kk[0] == 'coroutine':
                return Agg('coroutine:' + str(kk[1]), 0, fs, kk[2])
            if kk[0] == 'rawptr':
                return fs[0]
            raise Unsupported(f'aggregate {kk[0]}')
        if k == 'discr':
            cell, path, var = self.place(st, fr, r[1])
            v = self.load(st, cell, path)
            if v is MOVED and re.match(r'<?(core|alloc|std)::', fr.key):
                # optimised library code hints with what was moved out: nothing depends on it
                return I(self.fresh('undef', z3.IntSort()), 64, True)
            return I(self.discriminant(st, v), 64, True)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3])
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, B):
                    return B(bnot(v.e))
                if isinstance(v, I):
                    return I((-1 - zi(v.e)) if v.signed else (2 ** v.bits - 1 - zi(v.e)), v.bits, v.signed)
            if r[1] == 'Neg':
                return I(-v.e if is_conc(v.e) else -zi(v.e), v.bits, v.signed)
            if r[1] == 'PtrMetadata':
                c, p = self.deref(st, v)
                tgt = self.load(st, c, p)
                if isinstance(tgt, Agg) and tgt.path == 'array':
                    return I(len(tgt.fields))
                s = self.as_seq(st, tgt)
                return I(z3.Length(s.seq))
            raise Unsupported(f'unop {r[1]}')
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return Agg('array', 0, [v] * r[2])
            raise Unsupported('repeat')
        raise Unsupported(f'rvalue {k}')

    def trivial(self, tid):
        ty = self.P.t(tid)
        if ty['k'] == 'tuple' and not ty['fields']:
            return UNIT
        return None

    def discriminant(self, st, v):
        if isinstance(v, Agg):
            return self.discr_of(v)
        if isinstance(v, Sym):
            d = self.F('discr', [V], z3.IntSort())(v.t)
            ty = self.P.t(v.tid)
            vs = [int(x['discr']) for x in ty.get('variants', [])]
            if vs:
                vs = [x if x < 2 ** 63 else x - 2 ** 128 if x > 2 ** 64 else x for x in vs]
                self.axiom(z3.Or(*[d == x for x in vs]))
            # extensionality: a value of a variant that carries nothing is that variant
            for i, x in enumerate(ty.get('variants', [])):
                fs = [self.trivial(ft) for _, ft in x['fields']]
                if all(f is not None for f in fs) and len(ty['variants']) > 1:
                    a = Agg(ty['path'], i, fs, v.tid)
                    self.axiom(z3.Implies(d == vs[i], v.t == self.term(st, a)))
            return d
        if isinstance(v, Obj) and 'discr' in v.a:
            return v.discr
        raise Unsupported(f'discriminant of {v!r}'[:120])

    def cast(self, st, kind, v, tid):
        ty = self.P.t(tid)
        if kind == 'IntToInt':
            if isinstance(v, B):
                return I(int(v.e) if is_conc(v.e) else z3.If(v.e, 1, 0), ty['bits'], ty['signed'])
            if ty['k'] == 'char':
                return I(v.e, 32, False)
            if isinstance(v, I) and ty['k'] == 'int':
                if is_conc(v.e):
                    m = v.e % (2 ** ty['bits'])
                    if ty['signed'] and m >= 2 ** (ty['bits'] - 1):
                        m -= 2 ** ty['bits']
                    return I(m, ty['bits'], ty['signed'])
                if not v.signed and (ty['bits'] > v.bits or (ty['bits'] == v.bits and not ty['signed'])):
                    return I(v.e, ty['bits'], ty['signed'])
                if v.signed and ty['signed'] and ty['bits'] >= v.bits:
                    return I(v.e, ty['bits'], True)
                m = zi(v.e) % (2 ** ty['bits'])
                if ty['signed']:
                    m = z3.If(m >= 2 ** (ty['bits'] - 1), m - 2 ** ty['bits'], m)
                return I(m, ty['bits'], ty['signed'])
        if kind.startswith('Unsize') and isinstance(v, BoxV):
            return BoxV(v.cell, v.dyn)
        if isinstance(v, Sym) and kind.startswith('Unsize') :
            return v
        if isinstance(v, Sym) and ('Ptr' in kind or 'Transmute' in kind):
            return Sym(v.t, tid)
        return v

    def binop(self, st, op, a, b):
        cmpop = {'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y, 'Lt': lambda x, y: x < y,
                 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y}
        if isinstance(a, B) and isinstance(b, B):
            x, y = a.e, b.e
            if is_conc(x) and is_conc(y):
                if op in cmpop:
                    return B(cmpop[op](x, y))
                return B({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op])
            x, y = zb(x), zb(y)
            if op == 'BitAnd':
                return B(z3.And(x, y))
            if op == 'BitOr':
                return B(z3.Or(x, y))
            if op in ('BitXor', 'Ne'):
                return B(x != y)
            if op == 'Eq':
                return B(x == y)
        if isinstance(a, I) and isinstance(b, I):
            x, y = a.e, b.e
            conc = is_conc(x) and is_conc(y)
            if op in cmpop:
                r = cmpop[op](x, y)
                return B(r)
            lo, hi = (-(2 ** (a.bits - 1)), 2 ** (a.bits - 1) - 1) if a.signed else (0, 2 ** a.bits - 1)

            def wrap(e):
                if is_conc(e):
                    m = e % (2 ** a.bits)
                    return m - 2 ** a.bits if a.signed and m > hi else m
                if a.signed:
                    m = e % (2 ** a.bits)
                    return z3.If(m > hi, m - 2 ** a.bits, m)
                return e % (2 ** a.bits)
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if base in ('Add', 'Sub', 'Mul'):
                e = x + y if base == 'Add' else x - y if base == 'Sub' else x * y
                if op.endswith('WithOverflow'):
                    ov = not (lo <= e <= hi) if is_conc(e) else z3.Or(e < lo, e > hi)
                    return Agg('tuple', 0, [I(e, a.bits, a.signed), B(ov)])
                if op.endswith('Unchecked'):
                    return I(e, a.bits, a.signed)
                return I(wrap(e), a.bits, a.signed)
            if op == 'Div' and not a.signed:
                return I(x // y if conc else zi(x) / zi(y), a.bits, a.signed)
            if op == 'Rem' and not a.signed:
                return I(x % y if conc else zi(x) % zi(y), a.bits, a.signed)
            if conc and op in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
                e = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': x << y, 'Shr': x >> y, 'ShlUnchecked': x << y, 'ShrUnchecked': x >> y}[op]
                return I(wrap(e), a.bits, a.signed)
            if op in ('Shr', 'ShrUnchecked', 'Shl', 'ShlUnchecked') and is_conc(y) and not a.signed and 0 <= y < a.bits:
                return I(zi(x) / (2 ** y), a.bits) if op.startswith('Shr') else I(wrap(zi(x) * (2 ** y)), a.bits)
            if op in ('BitAnd', 'BitOr', 'BitXor') and a.bits <= 64:
                xa, ya = z3.Int2BV(zi(x), a.bits), z3.Int2BV(zi(y), a.bits)
                e = {'BitAnd': xa & ya, 'BitOr': xa | ya, 'BitXor': xa ^ ya}[op]
                return I(z3.BV2Int(e, a.signed), a.bits, a.signed)
            if op == 'Cmp':
                path = 'core::cmp::Ordering'
                tid = self.find_adt(path)
                d = z3.If(zi(x) < zi(y), -1, z3.If(zi(x) == zi(y), 0, 1))
                t = self.fresh('ord')
                self.axiom(self.F('discr', [V], z3.IntSort())(t) == d)
                return Sym(t, tid)
        if op in ('Eq', 'Ne'):
            e = self.term(st, a) == self.term(st, b)
            return B(e if op == 'Eq' else z3.Not(e))
        raise Unsupported(f'binop {op} {a!r} {b!r}'[:120])

    def find_adt(self, path):
        for i, t in enumerate(self.P.types):
            if t['k'] == 'adt' and t['path'] == path:
                return i
        return None

    # ---------------------------------------------------------------- statements
    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, fr, s[2])
            cell, path, var = self.place(st, fr, s[1])
            self.store(st, cell, path, v)
        elif k == 'live':
            fr.locals[s[1]] = self.alloc(st, MOVED)
        elif k == 'dead':
            fr.locals.pop(s[1], None)
        elif k == 'setd':
            cell, path, var = self.place(st, fr, s[1])
            v = self.load(st, cell, path)
            if isinstance(v, Agg):
                self.store(st, cell, path, Agg(v.path, s[2], v.fields, v.tid))
            else:
                raise Unsupported('set discriminant')
        elif k == 'assume':
            v = self.operand(st, fr, s[1])
            self.assume(st, v.e)
        elif k == 'unsupported':
            raise Unsupported(s[1])

    # ---------------------------------------------------------------- events
    def emit(self, st, name, *args):
        st.trace = st.trace + ((name,) + args,)
        if self.monitor is not None:
            self.monitor(st, name, args)

    # ---------------------------------------------------------------- frames
    def push_fn(self, st, key, args, dest=None, target=None, unwind=None):
        body = self.P.bodies.get(key)
        if not body:
            raise Unsupported(f'no body for {key}')
        if sum(1 for f in st.stack if isinstance(f, Frame) and f.key == key) > 3:
            raise Unsupported(f'recursion through {body["path"]}')
        f = Frame()
        f.key, f.body, f.bb, f.idx, f.locals, f.visits = key, body, 0, 0, {}, {}
        f.dest, f.target, f.unwind = dest, target, unwind
        f.id = next(self.cnt)
        if body.get('spread') is not None and len(args) != body['argc']:
            sp = body['spread']
            args = list(args[:sp - 1]) + [Agg('tuple', 0, args[sp - 1:])]
        for i, a in enumerate(args):
            f.locals[i + 1] = self.alloc(st, a)
        f.locals[0] = self.alloc(st, MOVED)
        # locals without StorageLive are live from the start
        self.inlined.add(body['path'])
        st.stack.append(f)

    def push_cont(self, st, fn, tag=''):
        st.stack.append(Cont(fn, tag))

    def deliver(self, st, kind, value):
        """the callee on top has finished: give the outcome to whatever is on top of the stack"""
        if not st.stack:
            st.dead = (kind, value)
            return [st]
        top = st.stack[-1]
        if isinstance(top, Cont):
            st.stack.pop()
            return top.fn(st, kind, value)
        call = top.body['blocks'][top.bb]['t']
        if kind == 'ret':
            cell, path, var = self.place(st, top, call[3])
            self.store(st, cell, path, value)
            if call[4] is None:
                raise Unsupported('return from diverging call')
            return self.goto(st, top, call[4])
        if kind == 'panic':
            return self.unwind(st, top, call[5], value)
        if kind == 'cancel':
            # the future is dropped while suspended: drop live locals (approximately: all initialised ones)
            self.drop_frame(st, top)
            st.stack.pop()
            return self.deliver(st, 'cancel', value)
        raise EngineError(kind)

    def drop_frame(self, st, fr):
        for l in sorted(fr.locals, reverse=True):
            c = fr.locals[l]
            v = st.heap.get(c)
            if v is not None and v is not MOVED:
                st.heap[c] = MOVED
                self.drop_val(st, v)

    def unwind(self, st, fr, action, payload):
        if isinstance(action, int):
            heads = self.P.heads(fr.key)
            if st.loopctx and not self.leave_loops(st, fr, action, heads):
                return []
            st.panicking = payload
            fr.bb, fr.idx = action, 0
            return [st]
        # continue unwinding in the caller
        st.stack.pop()
        return self.deliver(st, 'panic', payload)

    def goto(self, st, fr, bb):
        heads = self.P.heads(fr.key) if fr.body is self.P.bodies.get(fr.key) else {}
        h = heads.get(bb)
        if st.loopctx and not self.leave_loops(st, fr, bb, heads):
            return []
        if h is not None and not h['await']:
            return self.at_head(st, fr, bb, h)
        fr.bb, fr.idx = bb, 0
        return [st]

    # ---------------------------------------------------------------- loops
    def leave_loops(self, st, fr, bb, heads):
        """control moves to bb: close the contexts of loops it leaves; False if a dry iteration ends here"""
        keep = []
        for lc in st.loopctx:
            if lc.lk[0] == fr.id and bb not in heads[lc.lk[1]]['body']:
                if lc.arrivals is not None:
                    return False
                continue
            keep.append(lc)
        if len(keep) != len(st.loopctx):
            st.loopctx = tuple(keep)
        return True

    def at_head(self, st, fr, bb, h):
        lk = (fr.id, bb)
        for lc in reversed(st.loopctx):
            if lc.lk == lk:
                # arrival over the back edge of a cut loop
                return lc.back(self, st)
        site = (fr.body['path'], bb)
        if site in self.cutset:
            return self.cut_loop(st, fr, bb, h)
        n = fr.visits.get(bb, 0)
        if n:
            pcl = fr.visits.get(('pc', bb))
            if len(st.pc) != pcl and not (n < 16 and self.below_pollfn(st, fr)):
                # symbolic iteration: needs an invariant
                self.cutset.add(site)
                raise Restart(site)
        if n > 64:
            raise Unsupported(f'loop in {fr.body["path"]} exceeds the unrolling limit')
        fr.visits[bb] = n + 1
        fr.visits[('pc', bb)] = len(st.pc)
        fr.bb, fr.idx = bb, 0
        return [st]

    def below_pollfn(self, st, fr):
        """fr is the closure of a poll_fn: its loop over the branches of select! is unrolled"""
        i = st.stack.index(fr) if fr in st.stack else -1
        return i > 0 and isinstance(st.stack[i - 1], Cont) and st.stack[i - 1].tag == 'pollfn'

    def cut_loop(self, st, fr, bb, h):
        """verify a loop by invariant; returns the states that continue from an arbitrary iteration"""
        site = (fr.body['path'], bb)
        self.loops_cut.setdefault(site, set())
        depth = len(st.stack)
        lk = (fr.id, bb)
        fr.bb, fr.idx = bb, 0
        S0 = st
        if S0.touched is not None:
            outer = set(S0.touched)
        # 1. which cells / ghosts does an iteration change?
        modified, gmod = set(), set()
        cands = None
        for _round in range(25):
            H, hv = self.havoc(S0, modified, gmod, site)
            cs = self.loop_cands(S0, H, hv, site) if cands is None else cands
            live = [c for c in cs if c[0] not in getattr(self, '_dropped', set())]
            S = H.fork()
            for name, fn in live:
                self.assume(S, fn(S))
            arrivals = self.run_iteration(S, lk, depth)
            changed = False
            for a in arrivals:
                for c, v in S0.heap.items():
                    if c in modified:
                        continue
                    hvv = H.heap.get(c)
                    av = a.heap.get(c)
                    if av is not hvv and not self.same(av, hvv):
                        modified.add(c)
                        changed = True
                for g, v in S0.ghost.items():
                    if g in gmod:
                        continue
                    if a.ghost.get(g) is not H.ghost.get(g) and not self.same_g(a.ghost.get(g), H.ghost.get(g)):
                        gmod.add(g)
                        changed = True
            if changed:
                continue
            break
        else:
            raise Unsupported('loop frame inference did not stabilise')
        # what havoc leaves as it is must really stay as it is
        for a in arrivals:
            for c in modified:
                if not self.covered(H.heap.get(c), a.heap.get(c)):
                    raise Unsupported(f'a reference or variant changes in a loop of {site[0]}')
        # 2. Houdini over candidate conjuncts
        H, hv = self.havoc(S0, modified, gmod, site)
        cs = self.loop_cands(S0, H, hv, site)
        cs = [c for c in cs if self.check(S0.pc, bnot(zb(simp_bool(c[1](S0)))) if not isinstance(simp_bool(c[1](S0)), bool) else (z3.BoolVal(not simp_bool(c[1](S0))))) == 'unsat']
        for _round in range(40):
            S = H.fork()
            ok = True
            for name, fn in cs:
                self.assume(S, fn(S))
            arrivals = self.run_iteration(S, lk, depth)
            bad = set()
            for a in arrivals:
                for name, fn in cs:
                    if name in bad:
                        continue
                    try:
                        e = simp_bool(fn(a))
                    except Unsupported:
                        bad.add(name)
                        continue
                    if e is True:
                        continue
                    if e is False or self.check(a.pc, z3.Not(e)) != 'unsat':
                        bad.add(name)
            if not bad:
                break
            cs = [c for c in cs if c[0] not in bad]
        self.loops_cut[site] = set(n for n, _ in cs)
        # 3. continue for real from the havocked head, invariant assumed; back-edge arrivals are closed
        #    (their preservation was just proved; recorded as obligations)
        S = H.fork()
        for name, fn in cs:
            self.assume(S, fn(S))
        if not self.dry:
            for name, fn in cs:
                self.prove(S0, fn(S0), f'loop-invariant-entry:{site[0]}:{name}')
        lc = LoopCtx(lk, depth, None, cs, self, site)
        S.loopctx = S.loopctx + (lc,)
        S.trace = S.trace + (('loop', site[0]),)
        if S0.touched is not None:
            S.touched = outer | {(c, ()) for c in modified}
        return [S]

    def run_iteration(self, S, lk, depth):
        """run from the loop head in dry mode; returns the states arriving over the back edge"""
        arrivals = []
        S = S.fork()
        lc = LoopCtx(lk, depth, arrivals, None, self, None)
        S.loopctx = S.loopctx + (lc,)
        old = self.dry
        self.dry = True
        try:
            self.explore([S], stop_depth=depth)
        finally:
            self.dry = old
        return arrivals

    def havoc(self, S0, modified, gmod, site):
        H = S0.fork()
        hv = {}
        for c in modified:
            v = S0.heap.get(c)
            nv = self.havoc_val(H, v)
            H.heap[c] = nv
            hv[c] = nv
        for g in gmod:
            H.ghost[g] = self.havoc_g(S0.ghost[g], g)
        return H, hv

    def havoc_g(self, v, name):
        if isinstance(v, bool):
            return self.fresh('g_' + name, z3.BoolSort())
        if isinstance(v, int):
            return self.fresh('g_' + name, z3.IntSort())
        if isinstance(v, z3.ExprRef):
            return self.fresh('g_' + name, v.sort())
        if isinstance(v, Val):
            return Sym(self.fresh('g_' + name), getattr(v, 'tid', None))
        if v is None or isinstance(v, (tuple, str, Unknown)):
            return Unknown(name)
        raise Unsupported(f'ghost {name} cannot be havocked: {v!r}')

    def havoc_val(self, st, v):
        if isinstance(v, I):
            e = self.fresh('h', z3.IntSort())
            self.int_range(e, {'bits': v.bits, 'signed': v.signed})
            return I(e, v.bits, v.signed)
        if isinstance(v, B):
            return B(self.fresh('h', z3.BoolSort()))
        if isinstance(v, Sym):
            return self.sym(st, self.fresh('h'), v.tid)
        if isinstance(v, Agg):
            if v.path.startswith('coroutine') or v.path.startswith('closure') or v.path in ('tuple', 'array'):
                return Agg(v.path, v.variant, [self.havoc_val(st, f) for f in v.fields], v.tid)
            ty = self.P.t(v.tid) if v.tid is not None else None
            if ty and ty['k'] == 'adt' and not ty['enum']:
                return Agg(v.path, v.variant, [self.havoc_val(st, f) for f in v.fields], v.tid)
            if ty and ty['k'] == 'adt':
                return self.sym(st, self.fresh('h'), v.tid)
            return Agg(v.path, v.variant, [self.havoc_val(st, f) for f in v.fields], v.tid)
        if isinstance(v, Obj):
            a = {}
            for k, x in v.a.items():
                if isinstance(x, z3.ExprRef):
                    a[k] = self.fresh('h_' + k, x.sort())
                elif isinstance(x, (I, B)):
                    a[k] = self.havoc_val(st, x)
                else:
                    a[k] = x
            o = Obj(v.kind)
            o.a = a
            return o
        if v is MOVED or v is None:
            return MOVED
        if isinstance(v, (Ref, Str, FnV)):
            return v
        if isinstance(v, BoxV):
            return v
        raise Unsupported(f'havoc of {v!r}'[:100])

    def covered(self, h, v):
        """may the havocked value h stand for v?"""
        if h is v or h is MOVED or h is None or v is MOVED or v is None:
            return True
        if isinstance(h, (Sym, I, B)):
            return True
        if isinstance(h, Agg):
            return isinstance(v, Agg) and h.path == v.path and h.variant == v.variant and len(h.fields) == len(v.fields) and all(self.covered(x, y) for x, y in zip(h.fields, v.fields)) or (isinstance(v, Sym) and v.tid == h.tid and h.tid is not None and not self.P.t(h.tid).get('enum'))
        if isinstance(h, Obj):
            return isinstance(v, Obj) and h.kind == v.kind and set(h.a) == set(v.a) and all(isinstance(x, (z3.ExprRef, I, B)) or (self.covered(x, v.a[k]) if isinstance(x, Val) else self.same_g(x, v.a[k])) for k, x in h.a.items())
        return self.same(h, v)

    def same(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            # cell appears/disappears only for temporaries
            return (a is None or a is MOVED) and (b is None or b is MOVED)
        if type(a) is not type(b):
            return False
        if isinstance(a, (I, B)):
            return self.same_g(a.e, b.e)
        if isinstance(a, Sym):
            return a.t.eq(b.t)
        if isinstance(a, Agg):
            return a.path == b.path and a.variant == b.variant and len(a.fields) == len(b.fields) and all(self.same(x, y) for x, y in zip(a.fields, b.fields))
        if isinstance(a, Ref):
            return a.cell == b.cell and len(a.path) == len(b.path) and all(self.same_p(x, y) for x, y in zip(a.path, b.path))
        if isinstance(a, BoxV):
            return a.cell == b.cell
        if isinstance(a, Str):
            return a.s == b.s
        if isinstance(a, FnV):
            return a.callee.get('path') == b.callee.get('path')
        if isinstance(a, Obj):
            return a.kind == b.kind and set(a.a) == set(b.a) and all(self.same(x, b.a[k]) if isinstance(x, Val) else self.same_g(x, b.a[k]) for k, x in a.a.items())
        return a == b

    def same_p(self, a, b):
        return all((x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) else (not isinstance(x, z3.ExprRef) and not isinstance(y, z3.ExprRef) and x == y)) for x, y in zip(a, b))

    def same_g(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            return False
        if isinstance(a, Val) and isinstance(b, Val):
            return self.same(a, b)
        try:
            return type(a) is type(b) and a == b
        except Exception:
            return False

    def leaves(self, st, cells):
        """(name, getter) for every Seq/Map/int/bool/enum leaf in the given cells"""
        out = []

        def walk(v, c, path, nm):
            if isinstance(v, Obj):
                for k, x in v.a.items():
                    if isinstance(x, (z3.ExprRef, I, B)):
                        out.append((f'{nm}.{k}', c, tuple(path), k, x))
            elif isinstance(v, Agg):
                for i, f in enumerate(v.fields):
                    walk(f, c, path + [('f', v.variant, i, None)], f'{nm}.{i}')
            elif isinstance(v, (I, B, Sym)):
                out.append((nm, c, tuple(path), None, v))
        for c in cells:
            v = st.heap.get(c)
            if v is not None and v is not MOVED:
                walk(v, c, [], f'c{c}')
        return out

    def leaf_get(self, st, c, path, k):
        v = st.heap.get(c, MOVED)
        for p in path:
            if isinstance(v, Agg) and p[2] < len(v.fields):
                v = v.fields[p[2]]
            else:
                raise Unsupported('leaf')
        if k is not None:
            if not isinstance(v, Obj) or k not in v.a:
                raise Unsupported('leaf')
            v = v.a[k]
        if isinstance(v, I):
            return zi(v.e)
        if isinstance(v, B):
            return zb(v.e)
        if isinstance(v, z3.ExprRef):
            return v
        return self.term(st, v)

    def walked(self, st, c, path):
        """the length of the sequence an iterator over references walks over"""
        v = st.heap.get(c, MOVED)
        for p in path:
            if not isinstance(v, Agg) or p[2] >= len(v.fields):
                raise Unsupported('leaf')
            v = v.fields[p[2]]
        if not (isinstance(v, Obj) and v.kind == 'SeqRefIter'):
            raise Unsupported('leaf')
        return z3.Length(self.as_seq(st, self.load(st, v.cell, v.path)).seq)

    def loop_cands(self, S0, H, hv, site):
        """candidate invariants: ghost state against program state, plus user supplied ones"""
        cands = []
        leaves = self.leaves(H, list(hv))

        def g0(g):
            v = S0.ghost[g]
            return zb(v) if isinstance(v, bool) else zi(v) if isinstance(v, int) else v

        def gz(s, g):
            v = s.ghost[g]
            if isinstance(v, Unknown):
                raise Unsupported('unknown ghost')
            if isinstance(v, Val):
                return self.term(s, v)
            return zb(v) if isinstance(v, bool) else zi(v) if isinstance(v, int) else v
        gs = [g for g in S0.ghost if isinstance(S0.ghost[g], (bool, int, z3.ExprRef))]
        # program leaf unchanged (only useful if it is in a modified cell)
        for nm, c, path, k, x in leaves:
            try:
                x0 = self.leaf_get(S0, c, path, k)
            except Unsupported:
                continue
            cands.append((f'{nm} unchanged', lambda s, c=c, path=path, k=k, x0=x0: self.eqz(self.leaf_get(s, c, path, k), x0)))
        for g in gs:
            if g not in H.ghost or self.same_g(H.ghost[g], S0.ghost[g]):
                continue
            v0 = g0(g)
            cands.append((f'ghost {g} unchanged', lambda s, g=g, v0=v0: self.eqz(gz(s, g), v0)))
        for g in gs:
            if self.same_g(H.ghost[g], S0.ghost[g]):
                continue
            so = g0(g).sort()
            for nm, c, path, k, x in leaves:
                try:
                    xz = self.leaf_get(S0, c, path, k)
                except Unsupported:
                    continue
                if xz.sort() == so and so != V:
                    cands.append((f'ghost {g} == {nm}', lambda s, g=g, c=c, path=path, k=k: self.eqz(gz(s, g), self.leaf_get(s, c, path, k))))
                    if so == DomV:
                        D0 = g0(g)
                        X0 = xz
                        cands.append((f'ghost {g} == init minus {nm}', lambda s, g=g, c=c, path=path, k=k, X0=X0: self.eqz(gz(s, g), set_minus(X0, self.leaf_get(s, c, path, k)))))
                        cands.append((f'{nm} within init', lambda s, c=c, path=path, k=k, X0=X0: self.eqz(set_minus(self.leaf_get(s, c, path, k), X0), z3.K(V, False))))
                    if so == SeqV:
                        X0 = xz
                        cands.append((f'ghost {g} ++ {nm} == init', lambda s, g=g, c=c, path=path, k=k, X0=X0: self.eqz(z3.Concat(gz(s, g), self.leaf_get(s, c, path, k)), X0)))
        # integers of the program and lengths of its sequences against each other; positions within the sequence they walk over
        nums = []
        for nm, c, path, k, x in leaves:
            if isinstance(x, I) or isinstance(x, z3.ExprRef) and x.sort() == z3.IntSort():
                nums.append((nm, lambda s, c=c, path=path, k=k: self.leaf_get(s, c, path, k)))
            elif isinstance(x, z3.ExprRef) and x.sort() == SeqV:
                nums.append((f'len {nm}', lambda s, c=c, path=path, k=k: z3.Length(self.leaf_get(s, c, path, k))))
            if k == 'pos':
                f = lambda s, c=c, path=path: self.walked(s, c, path)
                try:
                    f(S0)
                except Unsupported:
                    continue
                cands.append((f'{nm} within its sequence', lambda s, c=c, path=path, k=k, f=f: z3.And(self.leaf_get(s, c, path, k) >= 0, self.leaf_get(s, c, path, k) <= f(s))))
        if 2 <= len(nums) <= 6:
            for i, (na, a) in enumerate(nums):
                for j, (nb, b) in enumerate(nums):
                    if i < j:
                        try:
                            d = z3.simplify(a(S0) - b(S0))
                            u = z3.simplify(a(S0) + b(S0))
                        except Unsupported:
                            continue
                        cands.append((f'{na} - {nb} unchanged', lambda s, a=a, b=b, d=d: a(s) - b(s) == d))
                        cands.append((f'{na} + {nb} unchanged', lambda s, a=a, b=b, u=u: a(s) + b(s) == u))
                    if i != j:
                        cands.append((f'{na} <= {nb}', lambda s, a=a, b=b: a(s) <= b(s)))
        # booleans of the program against ghost booleans (also negated / concrete)
        for nm, c, path, k, x in leaves:
            if isinstance(x, B):
                for val in (True, False):
                    cands.append((f'{nm} is {val}', lambda s, c=c, path=path, k=k, val=val: self.eqz(self.leaf_get(s, c, path, k), z3.BoolVal(val))))
                for g in gs:
                    if g0(g).sort() == z3.BoolSort():
                        cands.append((f'{nm} == !ghost {g}', lambda s, g=g, c=c, path=path, k=k: self.leaf_get(s, c, path, k) != gz(s, g)))
            if isinstance(x, Sym) and x.tid is not None and self.P.t(x.tid).get('enum'):
                d = self.F('discr', [V], z3.IntSort())
                for i, var in enumerate(self.P.t(x.tid)['variants']):
                    cands.append((f'{nm} is {var["name"]}', lambda s, c=c, path=path, k=k, i=int(var['discr']): d(self.leaf_get(s, c, path, k)) == i))
                # what a ghost recorded about an outcome, against the program value that holds the outcome
                for g in gs:
                    so = g0(g).sort()
                    for i, var in enumerate(self.P.t(x.tid)['variants']):
                        di = int(var['discr'])
                        if so == z3.BoolSort():
                            cands.append((f'ghost {g} == {nm} is {var["name"]}', lambda s, g=g, c=c, path=path, k=k, i=di: gz(s, g) == (d(self.leaf_get(s, c, path, k)) == i)))
                        elif so == V and len(var['fields']) == 1:
                            f = self.fld(self.P.t(x.tid)['path'], i, 0)
                            cands.append((f'ghost {g} == {nm} as {var["name"]}', lambda s, g=g, c=c, path=path, k=k, i=di, f=f: z3.Implies(d(self.leaf_get(s, c, path, k)) == i, gz(s, g) == f(self.leaf_get(s, c, path, k)))))
        if self.inv_candidates is not None:
            cands += self.inv_candidates(self, S0, H, site, leaves, gz)
        return cands

    def eqz(self, a, b):
        if a.sort() != b.sort():
            raise Unsupported('sort mismatch')
        if a.eq(b):
            return True
        return a == b

    # ---------------------------------------------------------------- calls
    def contract_for(self, callee):
        names = [callee.get('path', '')]
        r = callee.get('res') or {}
        if r.get('path'):
            names.insert(0, r['path'])
        k = tuple(names)
        if k in self.ccache:
            return self.ccache[k]
        h = None
        for pat, fn in self.contracts:
            if any(pat.search(n) for n in names):
                h = fn
                break
        self.ccache[k] = h
        return h

    def call_value(self, st, fv, args):
        """call a callable value with already-evaluated (untupled) arguments; result is delivered to stack top"""
        if isinstance(fv, Ref):
            inner = self.load(st, fv.cell, fv.path)
            if isinstance(inner, Agg) and inner.path.startswith('closure:'):
                return self.enter_closure(st, inner, fv, args)
            return self.call_value(st, inner, args)
        if isinstance(fv, BoxV):
            return self.call_value(st, Ref(fv.cell), args)
        if isinstance(fv, Agg) and fv.path.startswith('closure:'):
            return self.enter_closure(st, fv, None, args)
        if isinstance(fv, FnV):
            return self.call_callee(st, fv.callee, args, fv.callee.get('out'), None)
        if isinstance(fv, Sym):
            h = getattr(self, 'on_sym_call', None)
            if h is not None:
                r = h(self, st, fv, args)
                if r is not None:
                    return r
            st.taint = st.taint + (f'call of unknown function value {fv.t}',)
            return self.deliver(st, 'ret', Sym(self.fresh('fv'), None))
        raise Unsupported(f'call of {fv!r}'[:100])

    def enter_closure(self, st, clo, ref, args):
        key = clo.path[len('closure:'):]
        body = self.P.bodies.get(key)
        if not body:
            raise Unsupported(f'closure body missing {key[:80]}')
        self_tid = body['locals'][1]
        byref = self.P.t(self_tid)['k'] == 'ref'
        if byref:
            selfv = ref if ref is not None else Ref(self.alloc(st, clo))
        else:
            selfv = clo
            if ref is not None:
                self.store(st, ref.cell, ref.path, MOVED)
        self.push_fn(st, key, [selfv] + list(args))
        return [st]

    def call_callee(self, st, callee, args, dest_tid, arg_tids):
        """perform the call; the result is delivered to the top of the stack. returns states"""
        if callee.get('ctor'):
            tid = callee['ctor_ty']
            return self.deliver(st, 'ret', Agg(self.P.t(tid)['path'], callee['ctor_variant'], args, tid))
        h = self.contract_for(callee)
        info = CallInfo(callee, args, dest_tid, arg_tids, self)
        if h is not None:
            self.contract_used.add((callee.get('res') or {}).get('path') or callee['path'])
            return h(self, st, info)
        r = callee.get('res') or {}
        tr = callee.get('trait') or ''
        if tr in ('core::ops::function::FnOnce', 'core::ops::function::FnMut', 'core::ops::function::Fn',
                  'core::ops::FnOnce', 'core::ops::FnMut', 'core::ops::Fn'):
            tup = args[1]
            if isinstance(tup, Agg):
                self.call_dest = dest_tid
                return self.call_value(st, args[0], list(tup.fields))
            raise Unsupported('Fn call with opaque arguments')
        if r.get('key'):
            self.push_fn(st, r['key'], args)
            return [st]
        if callee['path'] == 'core::clone::Clone::clone' or (r.get('kind') == 'shim' and callee.get('name') == 'clone'):
            return self.clone_call(st, args[0], info)
        return self.opaque_call(st, callee, args, dest_tid, info)

    def clone_call(self, st, a, info):
        c, p = self.deref(st, a)
        v = self.load(st, c, p)
        return self.deliver(st, 'ret', self.clone_val(st, v))

    def clone_val(self, st, v):
        if isinstance(v, BoxV):
            return BoxV(self.alloc(st, self.clone_val(st, st.heap[v.cell])), v.dyn)
        if isinstance(v, Agg):
            return Agg(v.path, v.variant, [self.clone_val(st, f) for f in v.fields], v.tid)
        return v

    def opaque_call(self, st, callee, args, dest_tid, info):
        name = (callee.get('res') or {}).get('path') or callee['path']
        self.opaque_calls.add(name)
        st.taint = st.taint + ('opaque call: ' + name,)
        st.trace = st.trace + (('opaque', name),)
        for a, at in zip(args, info.arg_tids or [None] * len(args)):
            if at is not None and self.P.t(at)['k'] == 'ref' and self.P.t(at)['mut']:
                c, p = self.deref(st, a)
                v = self.load(st, c, p)
                self.store(st, c, p, self.havoc_val(st, v))
        if dest_tid is None:
            return self.deliver(st, 'ret', Sym(self.fresh('opaque'), None))
        if self.P.t(dest_tid)['k'] == 'never':
            return self.deliver(st, 'panic', Sym(self.fresh('opaque_panic'), None))
        return self.deliver(st, 'ret', self.fresh_val(st, dest_tid, 'opaque'))

    # ---------------------------------------------------------------- drops
    def drop_val(self, st, v):
        """effects of dropping a value (only library objects with drop contracts matter)"""
        if isinstance(v, Agg):
            for f in v.fields:
                self.drop_val(st, f)
        elif isinstance(v, BoxV):
            if v.cell in st.heap:
                x = st.heap[v.cell]
                st.heap[v.cell] = MOVED
                self.drop_val(st, x)
        elif isinstance(v, Obj):
            h = DROPS.get(v.kind)
            if h is not None:
                h(self, st, v)
        elif isinstance(v, Sym) and v.tid is not None:
            h = getattr(self, 'on_sym_drop', None)
            if h is not None:
                h(self, st, v)

    # ---------------------------------------------------------------- main loop
    def step(self, st):
        """execute until the next fork / call boundary; returns successor states"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        st.steps += 1
        if st.steps > self.max_steps:
            raise Unsupported('step limit')
        fr = st.stack[-1]
        if isinstance(fr, Cont):
            raise EngineError('continuation on top without value')
        blk = fr.body['blocks'][fr.bb]
        ss = blk['s']
        while fr.idx < len(ss):
            i = fr.idx
            fr.idx += 1
            self.stmt(st, fr, ss[i])
        t = blk['t']
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t[2], t[3], t[4])
        if k == 'return':
            v = self.load(st, fr.locals[0]) if fr.locals.get(0) is not None else UNIT
            if v is MOVED:
                v = UNIT
            st.stack.pop()
            return self.deliver(st, 'ret', v)
        if k == 'drop':
            cell, path, var = self.place(st, fr, t[1])
            try:
                v = self.load(st, cell, path)
            except Unsupported:
                v = MOVED
            if v is not MOVED:
                self.store(st, cell, path, MOVED)
                self.drop_val(st, v)
            return self.goto(st, fr, t[2])
        if k == 'call':
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, o) for o in t[2]]
            if isinstance(f, FnV):
                return self.call_callee(st, f.callee, args, t[6], t[7])
            return self.call_value(st, f, args)
        if k == 'assert':
            c = self.operand(st, fr, t[1]).e
            c = c if t[2] else bnot(c)
            out = []
            for s, val in self.branch(st, c):
                f2 = s.stack[-1]
                if val:
                    out += self.goto(s, f2, t[4])
                else:
                    self.emit(s, 'assert_panic', t[3])
                    out += self.unwind(s, f2, t[5], Str('assert ' + t[3]))
            return out
        if k == 'resume':
            p = st.panicking
            st.panicking = None
            st.stack.pop()
            return self.deliver(st, 'panic', p)
        if k == 'unreachable':
            return []
        if k == 'yield':
            raise Unsupported('yield reached (a poll returned Pending outside select)')
        if k == 'abort':
            st.stack = []
            st.dead = ('abort', None)
            return [st]
        raise Unsupported(f'terminator {k}')

    def switch(self, st, fr, v, targets, otherwise, tid):
        if isinstance(v, B):
            e = v.e
            if is_conc(e):
                val = 1 if e else 0
                for tv, bb in targets:
                    if int(tv) == val:
                        return self.goto(st, fr, bb)
                return self.goto(st, fr, otherwise)
            out = []
            for s, val in self.branch(st, e):
                f2 = s.stack[-1]
                tgt = otherwise
                for tv, bb in targets:
                    if int(tv) == (1 if val else 0):
                        tgt = bb
                out += self.goto(s, f2, tgt)
            return out
        if isinstance(v, Sym):
            v = I(self.F('intOf', [V], z3.IntSort())(v.t))
        e = v.e
        ty = self.P.t(tid)
        bits = ty.get('bits', 64)

        def tval(s):
            x = int(s)
            if ty.get('signed') and x >= 2 ** (bits - 1):
                x -= 2 ** bits
            return x
        if is_conc(e):
            for tv, bb in targets:
                if tval(tv) == e:
                    return self.goto(st, fr, bb)
            return self.goto(st, fr, otherwise)
        out = []
        cur = st
        for tv, bb in targets:
            c = e == tval(tv)
            alive = None
            for s, val in self.branch(cur, c):
                if val:
                    out += self.goto(s, s.stack[-1], bb)
                else:
                    alive = s
            cur = alive
            if cur is None:
                return out
        # otherwise: skip if it is plainly unreachable
        ob = fr.body['blocks'][otherwise]
        if ob['t'][0] == 'unreachable' and not ob['s']:
            return out
        out += self.goto(cur, cur.stack[-1], otherwise)
        return out

    def explore(self, states, stop_depth=None):
        """run to completion; returns finished states (dead set)"""
        done = []
        work = list(states)
        while work:
            st = work.pop()
            if st.dead is not None:
                done.append(st)
                continue
            if stop_depth is not None and len(st.stack) < stop_depth:
                continue      # left the loop's frame: not an arrival
            if not st.stack:
                done.append(st)
                continue
            for s in self.step(st):
                work.append(s)
            if len(work) > 4000:
                raise Unsupported('path explosion')
        return done


class Restart(Exception):
    def __init__(self, site):
        self.site = site


class Unknown:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'?{self.n}'

    def lost(self, *a):
        raise Unsupported(f'the ghost {self.n} is not known after this loop')
    __add__ = __radd__ = __iter__ = __len__ = __bool__ = __getitem__ = __sub__ = __rsub__ = lost


class LoopCtx:
    def __init__(self, lk, depth, arrivals, cs, eng, site):
        self.lk, self.depth, self.arrivals, self.cs, self.site = lk, depth, arrivals, cs, site

    def back(self, eng, st):
        if self.arrivals is not None:
            self.arrivals.append(st)
            return []
        if self.cs is not None and not eng.dry:
            for name, fn in self.cs:
                eng.prove(st, fn(st), f'loop-invariant-preserved:{self.site[0]}:{name}')
        return []


class CallInfo:
    def __init__(self, callee, args, dest_tid, arg_tids, eng):
        self.callee, self.args, self.dest, self.arg_tids, self.eng = callee, args, dest_tid, arg_tids, eng
        self.path = (callee.get('res') or {}).get('path') or callee['path']


def set_minus(a, b):
    return z3.Map(_and_f, a, z3.Map(_not_f, b))


_x = z3.Bool('x')
_y = z3.Bool('y')
_and_f = z3.And(_x, _y).decl()
_or_f = z3.Or(_x, _y).decl()
_not_f = z3.Not(_x).decl()


def set_union(a, b):
    return z3.Map(_or_f, a, b)


DROPS = {}
