"""Shared pieces of the specifications: contracts of kameo's own functions at call sites whose bodies are verified by
another job (or that are trait methods of a type parameter), and helpers over events."""
import re
import z3
from kmv.engine import *
from kmv import lib
from kmv.lib import (ret, mkfut, fut, content, cterm, variant, some, none, field_tid, ty, choose, cancel_points, as_map, as_seq, newtype, env_await,
                     poll_at, location, ready)
from kmv.job import Job


def boxed(eng, st, fv, dest):
    return ret(eng, st, Agg('core::pin::Pin', 0, [BoxV(eng.alloc(st, fv))], dest))


def arc_content(ctx, st, v):
    c, p = lib.arc_cell(ctx.eng, st, v if not isinstance(v, Ref) else content(ctx.eng, st, v))
    return ctx.eng.load(st, c, p)


def once_of(ctx, st, aref, name):
    """term of the OnceLock behind actor_ref.<name>"""
    return ctx.eng.term(st, arc_content(ctx, st, ctx.field(st, aref, name)))


def inc(st, g, n=1):
    st.ghost[g] = st.ghost[g] + n


def gz(v):
    return zb(v) if isinstance(v, bool) else zi(v) if isinstance(v, int) else v


def simple_fut(op, may_panic=False, cancellable=True):
    """an async function under contract: arbitrary result, events op(args) and op_done(result)"""
    @fut(op)
    def f(eng, st, fv, out):
        eng.emit(st, op, *fv.args)
        for c, p in fv.a.get('muts', ()):
            eng.store(st, c, p, eng.havoc_val(st, eng.load(st, c, p)))
        res = cancel_points(eng, st) if cancellable else []
        if may_panic and op not in (getattr(eng, 'no_panic', None) or ()):
            s2 = st.fork()
            pl = Sym(eng.fresh('payload'), None)
            eng.emit(s2, op + '_panicked', pl)
            res += eng.deliver(s2, 'panic', pl)
        r = eng.fresh_val(st, out, op) if out is not None else UNIT
        eng.emit(st, op + '_done', r)
        return res + ret(eng, st, r)


def muts_of(eng, st, info):
    m = []
    for a, t in zip(info.args, info.arg_tids or [None] * len(info.args)):
        if t is not None and ty(eng, t)['k'] == 'ref' and ty(eng, t)['mut'] and isinstance(a, (Ref, Sym)):
            m.append(eng.deref(st, a))
    return tuple(m)


def fut_contract(op, may_panic=False, box=False):
    """(handler) for an async fn / boxed-future fn: events op(args), op_done(result)"""
    simple_fut(op, may_panic)

    def h(eng, st, info):
        f = mkfut(op, *info.args, muts=muts_of(eng, st, info))
        return boxed(eng, st, f, info.dest) if box else ret(eng, st, f)
    h.__doc__ = f'contract {op}: arbitrary result, havocs what it borrows mutably'
    return h


def sync_contract(op, may_panic=False):
    """event op(args), arbitrary result, event op_done(result)"""
    def h(eng, st, info):
        eng.emit(st, op, *info.args)
        for c, p in muts_of(eng, st, info):
            eng.store(st, c, p, eng.havoc_val(st, eng.load(st, c, p)))
        r = eng.fresh_val(st, info.dest, op)
        eng.emit(st, op + '_done', r)
        return ret(eng, st, r)
    h.__doc__ = f'contract {op}: arbitrary result'
    return h


def pure(op):
    """an uninterpreted function of its arguments"""
    def h(eng, st, info):
        ts = [cterm(eng, st, a) for a in info.args]
        f = eng.F('fn:' + op, [V] * len(ts), V)
        return ret(eng, st, eng.sym(st, f(*ts), info.dest))
    h.__doc__ = f'contract {op}: a function of its arguments'
    return h


# ---- signal mailboxes (verified in mailbox.py against the channel)
SIGNALS = [
    (r'SignalMailbox::signal_startup_finished$', sync_contract('sig_startup')),
    (r'SignalMailbox::signal_link_died$', fut_contract('sig_link_died', box=True)),
    (r'SignalMailbox::signal_stop$', fut_contract('sig_stop', box=True)),
]

# ---- the state behind the actor loop (ActorBehaviour's methods are verified against these in lifecycle.py)


def h_state_new(eng, st, info):
    t = eng.F('stateOf', [V, V], V)(eng.term(st, info.args[0]), eng.term(st, info.args[1]))
    eng.axiom(eng.F('stateActor', [V], V)(t) == eng.term(st, info.args[0]))
    eng.emit(st, 'state_new', *info.args)
    return ret(eng, st, Sym(t, info.dest))


h_state_new.__doc__ = 'new_from_actor(a, r): a state holding the actor a'


@fut('state_shutdown')
def f_state_shutdown(eng, st, fv, out):
    t = eng.F('stateActor', [V], V)(eng.term(st, fv.args[0]))
    r = eng.sym(st, t, out)
    eng.emit(st, 'state_shutdown', fv.args[0], r)
    return ret(eng, st, r)


def h_state_shutdown(eng, st, info):
    """shutdown(state): the actor inside the state"""
    return ret(eng, st, mkfut('state_shutdown', *info.args))


STATE = [
    (r'^actor::kind::ActorState::new_from_actor$', h_state_new),
    (r'^actor::kind::ActorState::shutdown$', h_state_shutdown),
    (r'^actor::kind::ActorState::on_shutdown$', fut_contract('st_on_shutdown')),
    (r'^actor::kind::ActorState::next$', fut_contract('st_next')),
    (r'^actor::kind::ActorState::handle_startup_finished$', fut_contract('st_startup')),
    (r'^actor::kind::ActorState::handle_message$', fut_contract('st_message')),
    (r'^actor::kind::ActorState::handle_link_died$', fut_contract('st_link_died')),
    (r'^actor::kind::ActorState::handle_stop$', fut_contract('st_stop')),
]

ERROR_HOOK = [(r'^error::invoke_actor_error_hook$', sync_contract('error_hook'))]

# ---- the error carried by a stop reason: constructors are injective on what they carry


def h_panic_new(eng, st, info):
    """PanicError::new(e): carries e"""
    t = eng.F('panicOf', [V], V)(cterm_box(eng, st, info.args[0]))
    return ret(eng, st, Sym(t, info.dest))


def h_panic_any(eng, st, info):
    """PanicError::new_from_panic_any(p): carries the payload p"""
    t = eng.F('panicOfPayload', [V], V)(cterm_box(eng, st, info.args[0]))
    return ret(eng, st, Sym(t, info.dest))


def cterm_box(eng, st, v):
    if isinstance(v, BoxV) and v.cell in st.heap:
        return eng.term(st, st.heap[v.cell])
    return eng.term(st, v)


PANIC = [(r'^error::PanicError::new$', h_panic_new), (r'^error::PanicError::new_from_panic_any$', h_panic_any)]


def panic_new_term(ctx, st, v):
    return ctx.eng.F('panicOf', [V], V)(cterm_box(ctx.eng, st, v))


def panic_any_term(ctx, st, v):
    return ctx.eng.F('panicOfPayload', [V], V)(cterm_box(ctx.eng, st, v))


def held(ctx, st, pat):
    """values of a type matching pat that the code under verification owns at this point (locals of its live frames)"""
    rx = re.compile(pat)
    out = []

    def walk(v, d=0):
        if d > 12:
            return
        tid = getattr(v, 'tid', None)
        if isinstance(v, (Agg, Sym)) and tid is not None and ctx.P.t(tid)['k'] == 'adt' and rx.search(ctx.P.t(tid)['path']):
            if not (isinstance(v, Agg) and any(f is MOVED for f in v.fields)):
                out.append(v)
                return
        if isinstance(v, Agg):
            for f in v.fields:
                walk(f, d + 1)
        elif isinstance(v, BoxV) and v.cell in st.heap:
            walk(st.heap[v.cell], d + 1)
        elif isinstance(v, Sym) and tid is not None:
            t = ctx.P.t(tid)
            if t['k'] == 'adt' and t.get('expanded') and d < 4:
                for i, x in enumerate(t['variants']):
                    if len(t['variants']) == 1:
                        for k, (_, ft) in enumerate(x['fields']):
                            ft_ = ctx.P.t(ft)
                            if ft_['k'] == 'adt' and rx.search(ft_['path']):
                                out.append(v)
    for f in st.stack:
        for c in (getattr(f, 'locals', None) or {}).values():
            v = st.heap.get(c)
            if v is not None and v is not MOVED:
                walk(v)
    return out


def P(*js):
    return list(js)


def deep_eq(ctx, st, a, b, d=0):
    """condition: two values are equal, comparing structs and known enum variants part by part"""
    a, b = ctx.content(st, a), ctx.content(st, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, BoxV):
            y2 = y
            if isinstance(y, BoxV):
                y2 = st.heap[y.cell]
            if x.cell in st.heap and not isinstance(y, Sym):
                return deep_eq(ctx, st, st.heap[x.cell], y2, d + 1)
    if d < 8 and (isinstance(a, Agg) or isinstance(b, Agg)):
        x, y = (a, b) if isinstance(a, Agg) else (b, a)
        tid = x.tid if x.tid is not None else getattr(y, 'tid', None)
        if isinstance(y, (Agg, Sym)) and tid is not None and ctx.P.t(tid)['k'] == 'adt' and getattr(y, 'tid', None) is not None:
            t = ctx.P.t(tid)
            cs = []
            if len(t['variants']) > 1:
                n = t['variants'][x.variant]['name']
                if isinstance(y, Agg) and y.variant != x.variant:
                    return z3.BoolVal(False)
                cs.append(gz(ctx.is_variant(st, y, n)))
                vi = x.variant
            else:
                vi = 0
            for i, (fn, ft) in enumerate(t['variants'][vi]['fields']):
                xf = x.fields[i]
                yf = y.fields[i] if isinstance(y, Agg) else ctx.eng.field_of(st, y, vi if len(t['variants']) > 1 else None, i, ft)
                if xf is MOVED or yf is MOVED:
                    return z3.BoolVal(False)
                cs.append(deep_eq(ctx, st, xf, yf, d + 1))
            return z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(a, I) and isinstance(b, I):
        return a.e == b.e
    if isinstance(a, B) and isinstance(b, B):
        return zb(a.e) == zb(b.e)
    return gz(ctx.eq(st, a, b))


def int_of(ctx, st, v):
    """integer behind an id-like value"""
    return v.e


def seq_eq(ctx, st, a, b):
    """condition: two ActorIDs (of this node) have the same sequence id"""
    return ctx.field(st, a, 'sequence_id').e == ctx.field(st, b, 'sequence_id').e
