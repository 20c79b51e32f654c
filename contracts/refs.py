"""Actor references: what they address, how they are stopped and waited for, links, weak references, recipients."""
from .base import *
from .mailbox import on_chan, is_sig, err_is, is_ok, same_kind

AR = r'^actor::actor_ref::ActorRef::<A>::'
WR = r'^actor::actor_ref::WeakActorRef::<A>::'
RC = r'^actor::actor_ref::Recipient::<M>::'
WC = r'^actor::actor_ref::WeakRecipient::<M>::'
MH = r'^<actor::actor_ref::ActorRef<A> as actor::actor_ref::MessageHandler<M>>::'
WMH = r'^<actor::actor_ref::WeakActorRef<A> as actor::actor_ref::WeakMessageHandler<M>>::'
EFFECTS = ('send_attempt', 'abort', 'acquire', 'closed', 'chan_close', 'spawn', 'lock', 'map_insert', 'map_remove', 'once_set', 'add_permits')


def fld(ctx, st, name, ref=None):
    return ctx.field(st, ctx.args[0] if ref is None else ref, name)


def setup(ctx, st, args):
    ctx.mb = fld(ctx, st, 'mailbox_sender', args[0])
    ctx.id = ctx.term(st, fld(ctx, st, 'id', args[0]))
    ctx.self0 = ctx.cterm(st, args[0])
    st.ghost.update(n=0, ev=(), sent=None, chan=None, value=None, err=None, q=None, acq=None, closed=None, forgot=0)


def permit(ctx, st, sem):
    return ctx.term(st, sem)


def monitor(ctx, st, name, args):
    g = st.ghost
    if name in EFFECTS:
        g['ev'] += (name,)
    if name == 'send_attempt':
        g['chan'], g['value'], g['how'] = ctx.term(st, args[0]), args[1], args[2]
    elif name == 'send':
        g['sent'] = True
    elif name == 'send_refused':
        g['sent'], g['err'] = False, args[2]
    elif name == 'abort':
        g['handle'] = ctx.term(st, args[0])
    elif name == 'acquire':
        g['sem'] = ctx.term(st, args[0])
    elif name == 'acquire_done':
        # contract of run_actor_lifecycle (C01): permits are added only after startup_error is set
        su = once_of(ctx, st, ctx.args[0], 'startup_error')
        if g['sem'].eq(sem_of(ctx, st)):
            once_is_set(ctx, st, su)
            g['acq'] = True
    elif name == 'permit_forgotten':
        g['forgot'] += 1
    elif name == 'closed':
        g['chan'] = ctx.term(st, args[0])
    elif name == 'closed_done':
        # contract of run_actor_lifecycle (C05 job): the mailbox closes only after shutdown_error is set
        once_is_set(ctx, st, once_of(ctx, st, ctx.args[0], 'shutdown_error'))
        g['closed'] = True
    elif name == 'chan_query':
        g['q'] = (ctx.term(st, args[0]), args[1])
    elif name == 'downcast':
        g['asked'] = ctx.term(st, args[0])


def sem_of(ctx, st):
    return ctx.term(st, arc_content(ctx, st, ctx.field(st, ctx.args[0], 'startup_semaphore')))


def once_is_set(ctx, st, cell):
    key = ('once', ctx.eng.kid(cell))
    st.ghost[key] = True
    pt = next(i for i, t in enumerate(ctx.P.types) if t['k'] == 'adt' and t['path'].endswith('option::Option') and 'error::PanicError' in t['s'] and '&' not in t['s'])
    st.ghost[('oncev',) + key] = ctx.eng.sym(st, ctx.eng.F('onceVal', [V], V)(cell), pt)


# ------------------------------------------------------------------ stop, kill, is_alive, waiting
def stop_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    ctx.prove(st, g['ev'] == ('send_attempt',) and on_chan(ctx, st, ctx.mb, g['chan']), "one signal is sent, to the actor's own mailbox")
    if g['value'] is None:
        return
    ctx.prove(st, is_sig(ctx, st, g['value'], 'Stop'), 'it is the stop signal')
    ctx.prove(st, g['how'] in ('wait', 'unbounded'), 'it waits for its turn in a full mailbox')
    ctx.prove(st, is_ok(ctx, st, v) == gz(g['sent']), 'Ok exactly when the request is in the mailbox')
    if not g['sent']:
        ctx.prove(st, err_is(ctx, st, ctx.payload(st, v, 'Err'), 'ActorNotRunning'), 'an actor that is gone is reported as not running')


def kill_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['ev'] == ('abort',) and gz(g['handle'] == ctx.term(st, fld(ctx, st, 'abort_handle'))), "kill aborts the actor's own loop, and does nothing else")


def alive_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['q'] is not None and g['q'][1] == 'is_closed' and g['ev'] == () and on_chan(ctx, st, ctx.mb, g['q'][0]), "it asks the actor's mailbox")
    if g['q'] is not None:
        q = ctx.eng.sym(st, ctx.eng.F('q:is_closed:', [V], V)(g['q'][0]), bool_tid(ctx))
        ctx.prove(st, zb(v.e) == z3.Not(zb(q.e)), 'alive exactly while the mailbox is open')


def bool_tid(ctx):
    return next(i for i, t in enumerate(ctx.P.types) if t['k'] == 'bool')


def wait_start_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['ev'] == ('acquire',) and gz(g['sem'] == sem_of(ctx, st)), "it waits for the actor's startup, once")
    ctx.prove(st, g['forgot'] == 0, 'the permit is given back, so that others can wait too')


def once_val(ctx, st, name):
    cell = once_of(ctx, st, ctx.args[0], name)
    return st.ghost.get(('oncev', 'once', ctx.eng.kid(cell)))


def result_finish(which):
    def f(ctx, st, kind, v):
        g = st.ghost
        val = once_val(ctx, st, which)
        ctx.prove(st, g['ev'] == (('acquire',) if which == 'startup_error' else ('closed',)) and g['acq' if which == 'startup_error' else 'closed'] is True, 'it waits for the outcome first')
        if which == 'startup_error':
            ctx.prove(st, g['forgot'] == 0, 'the permit is given back, so that others can wait too')
        else:
            ctx.prove(st, on_chan(ctx, st, ctx.mb, g['chan']), "it is the actor's own mailbox")
        if val is None:
            return
        if kind != 'ret':
            ctx.prove(st, not g.get('typed', True), 'reports an outcome that is an error of the actor')
            if which == 'startup_error':      # contract of run_actor_lifecycle: shutdown_error carries what on_stop returned, so it is always an error of the actor
                ctx.prove(st, False, 'also reports a hook that panicked, instead of panicking')
            return
        ok = is_ok(ctx, st, v)
        ctx.prove(st, ok == gz(ctx.is_variant(st, val, 'None')), 'Ok exactly when the hook succeeded')
        if isinstance(v, Agg) and v.variant == 0 and ctx.is_variant(st, v, 'Ok') is True:
            return
        ctx.prove(st, gz(g.get('asked') is not None) if g.get('asked') is None else gz(g['asked'] == ctx.term(st, ctx.payload(st, val, 'Some'))), "the error is the hook's error")
        ctx.prove(st, gz(g.get('down') is not None and ctx.eq(st, ctx.payload(st, v, 'Err'), g['down'])), "the error is the hook's error")
    return f


def h_downcast_ref(eng, st, info):
    """PanicError::with_downcast_ref(e, f): Some(f(&t)) when e holds a t of the asked type, else None (proved in errors.py)"""
    e = content(eng, st, info.args[0])
    eng.emit(st, 'downcast', e)
    tid = [x for x in info.callee['args'] if isinstance(x, int)][0]
    inner = eng.F('errorIn:' + ty(eng, tid)['s'], [V], V)(eng.term(st, e))
    s2 = st.fork()
    s2.ghost['typed'] = False
    st.ghost['typed'] = True
    v = eng.sym(st, inner, tid)
    st.ghost['down'] = inner
    dest = info.dest

    def k(s, kind, r):
        return ret(eng, s, some(eng, dest, r)) if kind == 'ret' else eng.deliver(s, kind, r)
    eng.push_cont(st, k, 'with_downcast_ref')
    return eng.call_value(st, info.args[1], [Ref(eng.alloc(st, v))]) + ret(eng, s2, none(eng, dest))


DOWN = [(r'^error::PanicError::with_downcast_ref$', h_downcast_ref)]


def wait_stop_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['ev'] == ('closed',) and on_chan(ctx, st, ctx.mb, g['chan']), "it waits until the actor's mailbox is closed")


def cur_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['ev'] == (), 'it only looks')
    if kind != 'ret':
        return
    cur = [x for k, x in g.items() if isinstance(k, str) and k.startswith('tls:') and x is not None]
    if g.get('tls_unset') or not cur:
        ctx.prove(st, z3.Not(zb(v.e)), 'outside of any actor, no actor is current')
    else:
        ctx.prove(st, zb(v.e) == seq_eq(ctx, st, cur[0], fld(ctx, st, 'id')), 'an actor is current exactly inside its own task')


def J(name, root, finish, expect=(), **kw):
    kw.setdefault('setup', setup)
    kw.setdefault('monitor', monitor)
    return Job(name, root, finish=finish, expect=expect, **kw)


# ------------------------------------------------------------------ links
def link_setup(ctx, st, args):
    ctx.sib = args[1]
    ctx.same = seq_eq(ctx, st, fld(ctx, st, 'id', args[0]), fld(ctx, st, 'id', args[1]))
    ctx.mux = [ctx.term(st, arc_content(ctx, st, ctx.field(st, fld(ctx, st, 'links', a), '0'))) for a in args[:2]]
    ctx.idt = [ctx.term(st, fld(ctx, st, 'id', a)) for a in args[:2]]
    ctx.seqs = [ctx.field(st, fld(ctx, st, 'id', a), 'sequence_id').e for a in args[:2]]
    # distinct actors have distinct link tables (each is created once, in ActorRef::new, C01 spawning)
    ctx.eng.assume(st, z3.Implies(z3.Not(ctx.same), ctx.mux[0] != ctx.mux[1]))
    ctx.eng.assume(st, z3.Not(ctx.same) == (ctx.idt[0] != ctx.idt[1]))
    st.ghost.update(locks=(), held=(), first={}, last={}, vals={}, other=0)


def link_monitor(ctx, st, name, args):
    g = st.ghost
    if name == 'lock':
        m = ctx.term(st, args[0])
        who = 0 if ctx.eng.entails(st, m == ctx.mux[0]) else 1 if ctx.eng.entails(st, m == ctx.mux[1]) else None
        ctx.prove(st, who is not None, 'only the two actors are touched')
        ctx.prove(st, who not in g['held'], 'no table is locked twice')
        if g['held'] and who is not None and g['held'][0] != who:
            o = g['held'][0]
            ctx.prove(st, ctx.seqs[o] <= ctx.seqs[who], 'the tables are locked in the order of the sequence ids, so no two callers wait for each other')
        ctx.prove(st, not g['vals'] , 'both sides change together: nothing is waited for in between')
        g['locks'] += (who,)
        g['held'] += (who,)
        g['first'] = dict(g['first'], **{str(who): args[1]})
    elif name == 'unlock':
        m = ctx.term(st, args[0])
        who = 0 if ctx.eng.entails(st, m == ctx.mux[0]) else 1
        g['held'] = tuple(x for x in g['held'] if x != who)
        g['last'] = dict(g['last'], **{str(who): args[1]})
    elif name in ('map_insert', 'map_remove'):
        ctx.prove(st, set(g['held']) == {0, 1}, 'the tables change only while both are locked')
        g['vals'] = dict(g['vals'], **{str(len(g['vals'])): (name, args[0], args[2] if name == 'map_insert' else None)})
    elif name in EFFECTS:
        g['other'] += 1


def link_finish(op):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        same = ctx.eng.entails(st, ctx.same)
        if not g['locks']:
            ctx.prove(st, ctx.same, 'only linking with itself does nothing')
            return
        ctx.prove(st, z3.Not(ctx.same), 'an actor is never linked with itself')
        ctx.prove(st, set(g['locks']) == {0, 1} and len(g['locks']) == 2 and g['other'] == 0, 'both tables are locked, once')
        if set(g['last']) != {'0', '1'} or set(g['first']) != {'0', '1'}:
            ctx.prove(st, False, 'both tables are released')
            return
        for who, key in ((0, 1), (1, 0)):
            a, b = g['first'][str(who)], g['last'][str(who)]
            k = ctx.idt[key]
            side = "the caller's table" if who == 0 else "the other's table"
            if op == 'insert':
                ctx.prove(st, b.dom == z3.Store(a.dom, k, z3.BoolVal(True)), f'{side} holds the other actor, and everything it held before')
                ctx.prove(st, z3.Store(a.val, k, z3.Select(b.val, k)) == b.val, f'{side}: no other link changes')
                vs = [x for x in g['vals'].values() if x[0] == 'map_insert' and ctx.eng.entails(st, ctx.term(st, x[1]) == k)]
                ok = False
                if len(vs) == 1:
                    val = vs[0][2]
                    ctx.prove(st, z3.Select(b.val, k) == ctx.term(st, val), f'{side}: the link stays')
                    w = ctx.payload(st, val, 'Local')
                    w = st.heap[w.cell] if isinstance(w, BoxV) else ctx.content(st, w)
                    mb = fld(ctx, st, 'mailbox_sender', ctx.args[key])
                    ok = z3.And(gz(ctx.is_variant(st, val, 'Local')), weak_of(ctx, st, w, mb))
                elif not vs:
                    # a link under that id was there, and stays: it reaches that actor (whoever enters one shows that it does, and ids are not used twice)
                    ok = z3.And(z3.Select(a.dom, k), z3.Select(b.val, k) == z3.Select(a.val, k))
                ctx.prove(st, ok, f"{side}: the link reaches the other actor's own mailbox, weakly")
            else:
                ctx.prove(st, b.dom == z3.Store(a.dom, k, z3.BoolVal(False)), f'{side} no longer holds the other actor, and keeps the rest')
                ctx.prove(st, z3.Store(a.val, k, z3.Select(b.val, k)) == b.val, f'{side}: no other link changes')
    return f


def weak_of(ctx, st, w, mb):
    """condition: w is a weak handle of the mailbox mb, of the same kind"""
    cs = []
    for n in ('Bounded', 'Unbounded'):
        if ctx.is_variant(st, w, n) is False or ctx.is_variant(st, mb, n) is False:
            continue
        t = ctx.eng.F('weakOf', [V], V)(ctx.term(st, ctx.payload(st, mb, n)))
        cs.append(z3.And(gz(ctx.is_variant(st, mb, n)), gz(ctx.is_variant(st, w, n)), gz(ctx.eq(st, ctx.payload(st, w, n), t))))
    return z3.Or(*cs) if cs else z3.BoolVal(False)


# ------------------------------------------------------------------ weak references, clones
PAIR = {'id': 'id', 'abort_handle': 'abort_handle', 'links': 'links', 'startup_semaphore': 'startup_notify', 'startup_error': 'startup_error', 'shutdown_error': 'shutdown_error'}


def weak_setup(ctx, st, args):
    ctx.mb = fld(ctx, st, 'mailbox', args[0])
    ctx.id = ctx.term(st, fld(ctx, st, 'id', args[0]))
    st.ghost.update(n=0, ev=(), sent=None, chan=None, value=None, err=None, q=None, acq=None, closed=None, forgot=0, up=None)


def ref_monitor(ctx, st, name, args):
    if name == 'upgrade':
        st.ghost['up'], st.ghost['chan'] = args[1], ctx.term(st, args[0])
    else:
        monitor(ctx, st, name, args)


def parts_eq(ctx, st, strong, weak):
    return z3.And(*[deep_eq(ctx, st, ctx.field(st, strong, a), ctx.field(st, weak, b)) for a, b in PAIR.items()])


def unbox(ctx, st, v):
    v = ctx.content(st, v)
    return st.heap[v.cell] if isinstance(v, BoxV) else v


def down_finish(boxed):
    def f(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret' and st.ghost['ev'] == (), 'nothing else happens')
        if kind != 'ret':
            return
        w = unbox(ctx, st, ctx.field(st, v, 'handler')) if boxed else v
        ctx.prove(st, parts_eq(ctx, st, ctx.args[0], w), 'the weak reference is of the same actor')
        ctx.prove(st, weak_of(ctx, st, ctx.field(st, w, 'mailbox'), ctx.mb), "it holds the actor's mailbox only weakly")
    return f


def up_finish(boxed):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and g['ev'] == () and g['up'] is not None, 'it asks whether the actor is still referenced')
        if kind != 'ret' or g['up'] is None:
            return
        ctx.prove(st, on_chan(ctx, st, ctx.mb, g['chan']), "it is the actor's own mailbox")
        ctx.prove(st, gz(ctx.is_variant(st, v, 'Some')) == gz(g['up']), 'a reference comes back exactly while a strong one exists')
        if g['up']:
            r = ctx.payload(st, v, 'Some')
            r = unbox(ctx, st, ctx.field(st, r, 'handler')) if boxed else r
            ctx.prove(st, parts_eq(ctx, st, r, ctx.args[0]), 'it is a reference to the same actor')
            m = ctx.field(st, r, 'mailbox_sender')
            ctx.prove(st, z3.And(on_chan(ctx, st, m, ctx.eng.F('strongOf', [V], V)(g['chan'])), same_kind(ctx, st, m, ctx.content(st, ctx.mb))), 'with a strong handle of the same mailbox')
    return f


def clone_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['ev'] == () and deep_eq(ctx, st, v, ctx.args[0]), 'the clone is of the same actor, all of it')


def recipient_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['ev'] == () and deep_eq(ctx, st, unbox(ctx, st, ctx.field(st, v, 'handler')), ctx.args[0]), 'the recipient is that actor')


def count_finish(q):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and g['ev'] == () and g['q'] is not None and g['q'][1] == q and on_chan(ctx, st, ctx.mb, g['q'][0]), f"it asks the actor's mailbox for its {q}")
        if g['q'] is not None:
            ctx.prove(st, gz(v.e == ctx.eng.sym(st, ctx.eng.F(f'q:{q}:', [V], V)(g['q'][0]), v.tid if hasattr(v, 'tid') and v.tid is not None else ctx.body['locals'][0]).e), 'and reports it as it is')
    return f


def id_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['ev'] == () and deep_eq(ctx, st, v, fld(ctx, st, 'id')), "it is the actor's id")


# a recipient's handler is an actor behind a trait object: its methods are the jobs of the impl below
def h_dyn(op, box=False):
    simple_fut('dyn_' + op)

    def h(eng, st, info):
        ts = [info.args[0]] + [a for a in info.args[1:]]
        if box:
            return boxed(eng, st, mkfut('dyn_' + op, *ts), info.dest)
        eng.emit(st, 'dyn_' + op, *ts)
        r = eng.fresh_val(st, info.dest, op)
        eng.emit(st, 'dyn_' + op + '_done', r)
        return ret(eng, st, r)
    h.__doc__ = f'{op} of the actor behind the trait object: proved for every actor in refs.py / requests.py'
    return h


DYN = [(rf'^actor::actor_ref::MessageHandler::{n}$', h_dyn(n, n in ('stop_gracefully', 'wait_for_startup', 'wait_for_shutdown', 'tell')))
       for n in ('id', 'is_alive', 'downgrade', 'strong_count', 'weak_count', 'is_current', 'stop_gracefully', 'kill', 'wait_for_startup', 'wait_for_shutdown', 'tell', 'try_tell', 'blocking_tell')]
DYN += [(rf'^actor::actor_ref::WeakMessageHandler::{n}$', h_dyn(n)) for n in ('id', 'upgrade', 'strong_count', 'weak_count')]


def rc_setup(ctx, st, args):
    st.ghost.update(calls=(), r=None)


def rc_monitor(ctx, st, name, args):
    g = st.ghost
    if name.startswith('dyn_') and name.endswith('_done'):
        g['r'] = args[0]
    elif name.startswith('dyn_'):
        g['calls'] += ((name, ctx.cterm(st, args[0])),)


def rc_finish(op):
    def f(ctx, st, kind, v):
        g = st.ghost
        h = fld(ctx, st, 'handler')
        c, p = ctx.eng.deref(st, h)
        want = (ctx.cterm(st, h), ctx.term(st, ctx.eng.load(st, c, p)))
        ctx.prove(st, kind == 'ret' and len(g['calls']) == 1 and g['calls'][0][0] == 'dyn_' + op, f'it asks the actor behind it, {op}')
        if len(g['calls']) != 1:
            return
        ctx.prove(st, z3.Or(*[g['calls'][0][1] == w for w in want]), 'that one actor')
        if op not in ('kill', 'wait_for_startup', 'wait_for_shutdown'):
            ctx.prove(st, g['r'] is not None and gz(ctx.eq(st, v, g['r'])), 'and answers what it answers')
    return f


JOBS = [
    J('stop_gracefully', AR + 'stop_gracefully$', stop_finish, ('it is the stop signal', 'an actor that is gone is reported as not running')),
    J('kill', AR + 'kill$', kill_finish),
    J('is_alive', AR + 'is_alive$', alive_finish, ('alive exactly while the mailbox is open',)),
    J('wait_for_startup', AR + 'wait_for_startup$', wait_start_finish),
    J('wait_startup', AR + 'wait_startup$', wait_start_finish),
    J('wait_for_startup_result', AR + 'wait_for_startup_result$', result_finish('startup_error'), ("the error is the hook's error",), extra=DOWN, needs=[DOWN[0][0]]),
    J('wait_startup_result', AR + 'wait_startup_result$', result_finish('startup_error'), ("the error is the hook's error",), extra=DOWN, needs=[DOWN[0][0]]),
    J('wait_for_shutdown', AR + 'wait_for_shutdown$', wait_stop_finish),
    J('wait_for_stop', AR + 'wait_for_stop$', wait_stop_finish),
    J('wait_for_shutdown_result', AR + 'wait_for_shutdown_result$', result_finish('shutdown_error'), ("the error is the hook's error",), extra=DOWN, needs=[DOWN[0][0]]),
    J('is_current', AR + 'is_current$', cur_finish, ('an actor is current exactly inside its own task', 'outside of any actor, no actor is current')),
]

J2 = lambda name, root, finish, expect=(), **kw: J(name, root, finish, expect, setup=link_setup, monitor=link_monitor, **kw)
JOBS += [
    J2('link', AR + 'link$', link_finish('insert'), ("the caller's table: the link reaches the other actor's own mailbox, weakly",)),
    J2('blocking_link', AR + 'blocking_link$', link_finish('insert'), ("the caller's table: the link reaches the other actor's own mailbox, weakly",)),
    J2('unlink', AR + 'unlink$', link_finish('remove'), ("the caller's table no longer holds the other actor, and keeps the rest",)),
    J2('blocking_unlink', AR + 'blocking_unlink$', link_finish('remove'), ("the caller's table no longer holds the other actor, and keeps the rest",)),
    J('id', AR + 'id$', id_finish),
    J('downgrade', AR + 'downgrade$', down_finish(False)),
    J('recipient', AR + 'recipient$', recipient_finish),
    J('strong_count', AR + 'strong_count$', count_finish('strong_count')),
    J('weak_count', AR + 'weak_count$', count_finish('weak_count')),
    J('ActorRef::clone', r'^<actor::actor_ref::ActorRef<A> as core::clone::Clone>::clone$', clone_finish),
    J('WeakActorRef::id', WR + 'id$', id_finish, setup=weak_setup),
    J('WeakActorRef::upgrade', WR + 'upgrade$', up_finish(False), ('it is a reference to the same actor',), setup=weak_setup, monitor=ref_monitor),
    J('WeakActorRef::strong_count', WR + 'strong_count$', count_finish('strong_count'), setup=weak_setup),
    J('WeakActorRef::weak_count', WR + 'weak_count$', count_finish('weak_count'), setup=weak_setup),
    J('WeakActorRef::clone', r'^<actor::actor_ref::WeakActorRef<A> as core::clone::Clone>::clone$', clone_finish, setup=weak_setup),
    # the actor behind a recipient
    J('handler: id', MH + 'id$', id_finish),
    J('handler: is_alive', MH + 'is_alive$', alive_finish),
    J('handler: downgrade', MH + 'downgrade$', down_finish(True)),
    J('handler: strong_count', MH + 'strong_count$', count_finish('strong_count')),
    J('handler: weak_count', MH + 'weak_count$', count_finish('weak_count')),
    J('handler: is_current', MH + 'is_current$', cur_finish),
    J('handler: stop_gracefully', MH + 'stop_gracefully$', stop_finish),
    J('handler: kill', MH + 'kill$', kill_finish),
    J('handler: wait_for_startup', MH + 'wait_for_startup$', wait_start_finish),
    J('handler: wait_for_shutdown', MH + 'wait_for_shutdown$', wait_stop_finish),
    J('weak handler: id', WMH + 'id$', id_finish, setup=weak_setup),
    J('weak handler: upgrade', WMH + 'upgrade$', up_finish(True), ('it is a reference to the same actor',), setup=weak_setup, monitor=ref_monitor),
    J('weak handler: strong_count', WMH + 'strong_count$', count_finish('strong_count'), setup=weak_setup),
    J('weak handler: weak_count', WMH + 'weak_count$', count_finish('weak_count'), setup=weak_setup),
] + [J('Recipient::' + n, RC + n + '$', rc_finish(n), setup=rc_setup, monitor=rc_monitor, extra=DYN) for n in
     ('id', 'is_alive', 'downgrade', 'strong_count', 'weak_count', 'is_current', 'stop_gracefully', 'kill', 'wait_for_startup', 'wait_for_shutdown')] + [
    J('WeakRecipient::' + n, WC + n + '$', rc_finish(n), setup=rc_setup, monitor=rc_monitor, extra=DYN) for n in ('id', 'upgrade', 'strong_count', 'weak_count')]
