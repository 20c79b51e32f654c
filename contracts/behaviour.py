"""ActorBehaviour: what each signal does to the actor, and the default hooks of the Actor trait."""
from .base import *

B0 = r'^<actor::kind::ActorBehaviour<A> as actor::kind::ActorState<A>>::'
HOOKS = [(r'^actor::Actor::on_message$', lib.hook('on_message'))]
NEED = [r'^actor::Actor::on_message$', r'^actor::Actor::on_link_died$', r'^actor::Actor::on_panic$']


def fld(ctx, st, name):
    r = ctx.field_loc(st, ctx.selfref, name)
    return ctx.eng.load(st, r.cell, r.path)


def seqt(ctx, st, v):
    return ctx.eng.as_seq(st, v).seq


def bh_setup(ctx, st, args):
    ctx.selfref = args[0]
    ctx.a0 = {n: fld(ctx, st, n) for n in ('actor_ref', 'state', 'finished_startup', 'startup_buffer')}
    ctx.t0 = {n: ctx.term(st, v) for n, v in ctx.a0.items()}
    ctx.fin0 = zb(ctx.a0['finished_startup'].e) if isinstance(ctx.a0['finished_startup'], B) else ctx.t0['finished_startup']
    ctx.buf0 = seqt(ctx, st, ctx.a0['startup_buffer'])
    st.ghost.update(n_hook=0, hook=None, res=None, pan=None, n_lock=0, n_unlink=0, statev=None)


def unchanged(ctx, st, *names):
    for n in names:
        v = fld(ctx, st, n)
        if n == 'startup_buffer':
            ctx.prove(st, seqt(ctx, st, v) == ctx.buf0, 'the startup buffer is untouched')
        elif n == 'finished_startup':
            ctx.prove(st, zb(v.e) == ctx.fin0, 'the startup flag is untouched')
        else:
            ctx.prove(st, ctx.eq(st, v, ctx.t0[n]), f'{n} is untouched')


def is_state(ctx, st, ref):
    want = ctx.field_loc(st, ctx.selfref, 'state')
    c, p = lib.location(ctx.eng, st, ref)
    return c == want.cell and [x[:3] for x in p] == [x[:3] for x in want.path]


def buf_is_empty(ctx):
    return z3.Length(ctx.buf0) == 0


HOOKN = ('on_message', 'on_link_died', 'on_panic', 'next', 'on_start', 'on_stop', 'handle', 'handle_dyn')


def track(ctx, st, name, args, expected):
    """common bookkeeping: the one hook this signal may run"""
    g = st.ghost
    if name in HOOKN:
        g['n_hook'] += 1
        ctx.prove(st, name in expected and g['n_hook'] == 1, 'only the hook for this signal runs, at most once')
        g['hook'] = args
        ctx.prove(st, is_state(ctx, st, args[0]), 'the hook runs on the actor state')
    elif name.endswith('_panicked') and name[:-9] in HOOKN:
        g['pan'] = args[0]
        g['statev'] = fld(ctx, st, 'state')
    elif name.endswith('_done') and name[:-5] in HOOKN:
        g['res'] = args[0]
        g['statev'] = fld(ctx, st, 'state')


# ------------------------------------------------------------------ handle_message
def hm_setup(ctx, st, args):
    bh_setup(ctx, st, args)
    ctx.msg, ctx.aref, ctx.reply, ctx.within = args[1:5]
    ctx.buffering = z3.And(z3.Not(zb(ctx.within.e)), z3.Not(ctx.fin0))
    ctx.tm = [ctx.term(st, x) for x in args[1:5]]


def hm_monitor(ctx, st, name, args):
    track(ctx, st, name, args, ('on_message',))
    if name == 'on_message':
        ctx.prove(st, z3.Not(ctx.buffering), 'a message sent from outside is not handled before startup finished')
        for a, t, n in zip(args[1:], ctx.tm, ('message', 'actor_ref', 'reply')):
            ctx.prove(st, ctx.eq(st, a, t), f'on_message gets the {n} of the signal')


def hm_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'a panicking handler does not escape')
    if kind != 'ret':
        return
    ctx.prove(st, ctx.buffering == gz(g['n_hook'] == 0), 'a message is handled exactly when it is not buffered')
    if g['n_hook'] == 0:
        ctx.prove(st, ctx.is_variant(st, v, 'Continue'), 'buffering goes on')
        buf = seqt(ctx, st, fld(ctx, st, 'startup_buffer'))
        last = ctx.eng.sym(st, buf[z3.Length(ctx.buf0)], sig_tid(ctx, st))
        ctx.prove(st, z3.And(z3.Length(buf) == z3.Length(ctx.buf0) + 1, z3.Extract(buf, z3.IntVal(0), z3.Length(ctx.buf0)) == ctx.buf0), 'a buffered message goes to the end of the buffer')
        ctx.prove(st, ctx.is_variant(st, last, 'Message'), 'what is buffered is the message')
        names = vfields(ctx, last, 'Message')
        for n, t in zip(('message', 'actor_ref', 'reply', 'sent_within_actor'), ctx.tm):
            x = ctx.payload(st, last, 'Message', names.index(n))
            ctx.prove(st, ctx.eq(st, x, t), f'the buffered message keeps its {n}')
        unchanged(ctx, st, 'actor_ref', 'state', 'finished_startup')
        return
    unchanged(ctx, st, 'actor_ref', 'finished_startup', 'startup_buffer')
    ctx.prove(st, ctx.eq(st, fld(ctx, st, 'state'), g['statev']), 'the actor state is what the handler left')
    outcome(ctx, st, v, unit=True)


def vfields(ctx, v, name):
    t = ctx.P.t(v.tid)
    return [[f[0] for f in x['fields']] for x in t['variants'] if x['name'] == name][0]


def sig_tid(ctx, st):
    return ctx.eng.as_seq(st, fld(ctx, st, 'startup_buffer')).etid


def outcome(ctx, st, v, unit, wrap=True):
    """the flow returned for the hook's outcome: Continue/its flow for Ok, Panicked(error) for an error, Panicked(payload) for a panic"""
    g = st.ghost
    br = gz(ctx.is_variant(st, v, 'Break'))

    def carries(t):
        if isinstance(v, Agg) and ctx.is_variant(st, v, 'Break') is False:
            return z3.BoolVal(False)
        r = ctx.payload(st, v, 'Break')
        p = gz(ctx.is_variant(st, r, 'Panicked'))
        if isinstance(r, Agg) and ctx.is_variant(st, r, 'Panicked') is False:
            return z3.BoolVal(False)
        return z3.And(br, p, gz(ctx.eq(st, ctx.payload(st, r, 'Panicked'), t)))
    if g['pan'] is not None:
        ctx.prove(st, carries(panic_any_term(ctx, st, g['pan'])), 'a panic becomes Panicked with its payload')
        return
    res = g['res']
    ok = gz(ctx.is_variant(st, res, 'Ok'))
    if unit:
        ctx.prove(st, z3.Implies(ok, gz(ctx.is_variant(st, v, 'Continue'))), 'a handled message lets the actor go on')
    else:
        if not (isinstance(res, Agg) and res.variant == 1):
            ctx.prove(st, z3.Implies(ok, gz(ctx.eq(st, v, ctx.payload(st, res, 'Ok')))), "the hook's own decision is followed")
    if not (isinstance(res, Agg) and res.variant == 0):
        e = ctx.payload(st, res, 'Err')
        ctx.prove(st, z3.Implies(z3.Not(ok), carries(panic_new_term(ctx, st, e))), 'an error becomes Panicked with that error')


JOB_MSG = Job('handle_message', B0 + 'handle_message$', setup=hm_setup, monitor=hm_monitor, finish=hm_finish, extra=HOOKS + PANIC, needs=NEED[:1],
              expect=('a buffered message goes to the end of the buffer', 'a panic becomes Panicked with its payload', 'a handled message lets the actor go on'))


# ------------------------------------------------------------------ handle_link_died
def ld_setup(ctx, st, args):
    bh_setup(ctx, st, args)
    ctx.tm = [ctx.term(st, x) for x in args[1:3]]
    ctx.links = ctx.term(st, arc_content(ctx, st, ctx.payload(st, ctx.field(st, ctx.a0['actor_ref'], 'links'), None, 0)))
    st.ghost.update(lockdom=None)


def ld_monitor(ctx, st, name, args):
    g = st.ghost
    track(ctx, st, name, args, ('on_link_died',))
    if name == 'on_link_died':
        ctx.prove(st, ctx.eq(st, args[1], ctx.t0['actor_ref']), 'the hook gets a reference to the actor')
        ctx.prove(st, z3.And(gz(ctx.eq(st, args[2], ctx.tm[0])), gz(ctx.eq(st, args[3], ctx.tm[1]))), 'the hook gets the id and the reason of the dead link')
    elif name == 'lock':
        g['n_lock'] += 1
        g['lockdom'] = args[1].dom
    elif name == 'unlock':
        g['n_unlink'] += 1
        ctx.prove(st, g['lockdom'] is not None and args[1].dom == z3.Store(g['lockdom'], ctx.tm[0], False), 'exactly the dead actor leaves the links')
        ctx.prove(st, ctx.eq(st, args[0], ctx.links), "it is the actor's own links")


def ld_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'a panicking hook does not escape')
    if kind != 'ret':
        return
    ctx.prove(st, g['n_hook'] == 1, 'on_link_died ran exactly once')
    ctx.prove(st, g['n_lock'] == 1 and g['n_unlink'] == 1, 'the dead link is removed')
    unchanged(ctx, st, 'actor_ref', 'finished_startup', 'startup_buffer')
    outcome(ctx, st, v, unit=False)


JOB_LINKDIED = Job('handle_link_died', B0 + 'handle_link_died$', setup=ld_setup, monitor=ld_monitor, finish=ld_finish, extra=HOOKS + PANIC, needs=NEED[1:2],
                   expect=('exactly the dead actor leaves the links', 'a panic becomes Panicked with its payload', "the hook's own decision is followed"))


# ------------------------------------------------------------------ on_shutdown
def os_setup(ctx, st, args):
    bh_setup(ctx, st, args)
    ctx.reason = args[1]
    ctx.t_reason = ctx.term(st, args[1])


def os_monitor(ctx, st, name, args):
    track(ctx, st, name, args, ('on_panic',))
    if name == 'on_panic':
        ctx.prove(st, gz(ctx.is_variant(st, ctx.reason, 'Panicked')), 'on_panic runs only for errors and panics')
        ctx.prove(st, ctx.eq(st, args[1], ctx.t0['actor_ref']), 'the hook gets a reference to the actor')
        ctx.prove(st, ctx.eq(st, args[2], ctx.payload(st, ctx.reason, 'Panicked')), 'the hook gets the error')


def os_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    pan = gz(ctx.is_variant(st, ctx.reason, 'Panicked'))
    unchanged(ctx, st, 'actor_ref', 'finished_startup', 'startup_buffer')
    if g['n_hook'] == 0:
        ctx.prove(st, z3.Not(pan), 'an error or panic always reaches on_panic')
        ctx.prove(st, gz(ctx.is_variant(st, v, 'Break')), 'the other reasons stop the actor')
        ctx.prove(st, ctx.eq(st, ctx.payload(st, v, 'Break'), ctx.t_reason), 'the reason is kept')
    else:
        outcome(ctx, st, v, unit=False)


JOB_SHUT = Job('on_shutdown', B0 + 'on_shutdown$', setup=os_setup, monitor=os_monitor, finish=os_finish, extra=HOOKS + PANIC, needs=NEED[2:], no_panic={'on_panic'},
               crate='remote', expect=('the reason is kept', "the hook's own decision is followed", 'the hook gets the error'))


# ------------------------------------------------------------------ next, startup, stop, constructor, shutdown
def nx_monitor(ctx, st, name, args):
    track(ctx, st, name, args, ('next',))
    if name == 'next':
        ctx.prove(st, z3.Or(z3.Not(ctx.fin0), buf_is_empty(ctx)), 'buffered messages come before anything still in the mailbox')
        ctx.prove(st, ctx.eq(st, args[1], ctx.t0['actor_ref']), 'the hook gets a reference to the actor')
        ctx.prove(st, lib.location(ctx.eng, st, args[2])[0] == ctx.rxcell, "it reads the actor's own mailbox")
    elif name == 'recv':
        ctx.prove(st, False, 'signals are read only through the next hook')


def nx_setup(ctx, st, args):
    bh_setup(ctx, st, args)
    ctx.rxcell = lib.location(ctx.eng, st, args[1])[0]


def nx_finish(ctx, st, kind, v):
    g = st.ghost
    if kind != 'ret':
        ctx.prove(st, g['pan'] is not None, 'panics only if the hook does')
        return
    unchanged(ctx, st, 'actor_ref', 'finished_startup')
    if g['n_hook']:
        unchanged(ctx, st, 'startup_buffer')
        ctx.prove(st, ctx.eq(st, v, g['res']), 'the signal is the one the hook returned')
    else:
        unchanged(ctx, st, 'state')
        buf = seqt(ctx, st, fld(ctx, st, 'startup_buffer'))
        ctx.prove(st, gz(ctx.is_variant(st, v, 'Some')), 'a signal is returned')
        ctx.prove(st, z3.And(ctx.fin0, z3.Length(ctx.buf0) > 0, ctx.term(st, ctx.payload(st, v, 'Some')) == ctx.buf0[0],
                             z3.Concat(z3.Unit(ctx.buf0[0]), buf) == ctx.buf0), 'the oldest buffered signal is returned, and only it leaves the buffer')


JOB_NEXT = Job('next', B0 + 'next$', setup=nx_setup, monitor=nx_monitor, finish=nx_finish, extra=HOOKS,
               expect=('the oldest buffered signal is returned, and only it leaves the buffer', 'the signal is the one the hook returned'))


def su_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['n_hook'] == 0, 'finishing startup runs no hook')
    if kind == 'ret':
        ctx.prove(st, zb(fld(ctx, st, 'finished_startup').e), 'startup is finished')
        ctx.prove(st, gz(ctx.is_variant(st, v, 'Continue')), 'the actor goes on')
        unchanged(ctx, st, 'actor_ref', 'state', 'startup_buffer')


def no_hook(ctx, st, name, args):
    track(ctx, st, name, args, ())


JOB_STARTUP = Job('handle_startup_finished', B0 + 'handle_startup_finished$', setup=bh_setup, monitor=no_hook, finish=su_finish, extra=HOOKS, expect=('startup is finished',))


def stop_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['n_hook'] == 0, 'a stop signal runs no hook')
    if kind != 'ret':
        return
    buf = seqt(ctx, st, fld(ctx, st, 'startup_buffer'))
    now = gz(ctx.is_variant(st, v, 'Break'))
    ctx.prove(st, now == buf_is_empty(ctx), 'the actor stops at once exactly when nothing is left in its buffer')
    if not (isinstance(v, Agg) and ctx.is_variant(st, v, 'Break') is False):
        ctx.prove(st, z3.Implies(now, gz(ctx.is_variant(st, ctx.payload(st, v, 'Break'), 'Normal'))), 'a graceful stop is a normal stop')
    last = ctx.eng.sym(st, buf[z3.Length(ctx.buf0)], sig_tid(ctx, st))
    ctx.prove(st, z3.Implies(z3.Not(now), z3.And(z3.Length(buf) == z3.Length(ctx.buf0) + 1, z3.Extract(buf, z3.IntVal(0), z3.Length(ctx.buf0)) == ctx.buf0,
                                                  gz(ctx.is_variant(st, last, 'Stop')))), 'otherwise the stop waits behind the buffered messages')
    ctx.prove(st, z3.Implies(z3.Not(now), zb(fld(ctx, st, 'finished_startup').e)), 'and the buffered messages are released')
    unchanged(ctx, st, 'actor_ref', 'state')


JOB_STOP = Job('handle_stop', B0 + 'handle_stop$', setup=bh_setup, monitor=no_hook, finish=stop_finish, extra=HOOKS,
               expect=('otherwise the stop waits behind the buffered messages', 'a graceful stop is a normal stop'))


def new_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, ctx.eq(st, ctx.field(st, v, 'state'), ctx.term(st, ctx.args[0])), 'the state is the actor')
        ctx.prove(st, ctx.eq(st, ctx.field(st, v, 'actor_ref'), ctx.term(st, ctx.args[1])), 'the reference is the given one')
        ctx.prove(st, z3.Not(zb(ctx.field(st, v, 'finished_startup').e)), 'startup is not finished yet')
        ctx.prove(st, z3.Length(seqt(ctx, st, ctx.field(st, v, 'startup_buffer'))) == 0, 'nothing is buffered yet')


JOB_NEW = Job('new_from_actor', B0 + 'new_from_actor$', finish=new_finish, expect=('startup is not finished yet',))


def down_setup(ctx, st, args):
    ctx.t_state = ctx.term(st, ctx.field(st, args[0], 'state'))


def down_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, ctx.eq(st, v, ctx.t_state), 'shutdown returns the actor inside the state')


JOB_DOWN = Job('shutdown', B0 + 'shutdown$', setup=down_setup, finish=down_finish, expect=('shutdown returns the actor inside the state',))


# ------------------------------------------------------------------ the default hooks
def d_setup(ctx, st, args):
    ctx.ts = [ctx.term(st, a) for a in args]
    ctx.content0 = ctx.cterm(st, args[0])
    st.ghost.update(n=0, res=None)


def d_pure_state(ctx, st):
    ctx.prove(st, ctx.eq(st, ctx.cterm(st, ctx.args[0]), ctx.content0), 'the default hook leaves the actor alone')


def d_ok_unit(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'Ok')), 'the default hook succeeds')
    d_pure_state(ctx, st)


def d_panic_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'Ok')), 'the default hook succeeds')
    if kind == 'ret':
        fl = ctx.payload(st, v, 'Ok')
        ctx.prove(st, gz(ctx.is_variant(st, fl, 'Break')), 'by default an error stops the actor')
        r = ctx.payload(st, fl, 'Break')
        ctx.prove(st, z3.And(gz(ctx.is_variant(st, r, 'Panicked')), gz(ctx.eq(st, ctx.payload(st, r, 'Panicked'), ctx.ts[2]))), 'with that error as the reason')
        d_pure_state(ctx, st)


def d_link_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'Ok')), 'the default hook succeeds')
    if kind != 'ret':
        return
    fl = ctx.payload(st, v, 'Ok')
    reason = ctx.args[3]
    normal = gz(ctx.is_variant(st, reason, 'Normal'))
    peer = gz(ctx.is_variant(st, reason, 'PeerDisconnected'))
    cont = gz(ctx.is_variant(st, fl, 'Continue'))
    ctx.prove(st, cont == normal, 'by default the actor survives exactly the normal end of a linked actor')
    d_pure_state(ctx, st)
    if isinstance(fl, Agg) and ctx.is_variant(st, fl, 'Break') is False:
        return
    r = ctx.payload(st, fl, 'Break')
    rp = gz(ctx.is_variant(st, r, 'PeerDisconnected'))
    ctx.prove(st, z3.Implies(z3.Not(cont), rp == peer), 'a lost peer stops the actor as PeerDisconnected')
    if isinstance(r, Agg) and ctx.is_variant(st, r, 'LinkDied') is False:
        ctx.prove(st, z3.Or(cont, peer), 'any other end stops the actor as LinkDied')
        return
    names = vfields(ctx, r, 'LinkDied')
    why = ctx.payload(st, r, 'LinkDied', names.index('reason'))
    ctx.prove(st, z3.Implies(z3.And(z3.Not(cont), z3.Not(peer)), gz(ctx.is_variant(st, r, 'LinkDied'))), 'any other end stops the actor as LinkDied')
    ctx.prove(st, z3.Implies(z3.And(z3.Not(cont), z3.Not(peer)), z3.And(gz(ctx.eq(st, ctx.payload(st, r, 'LinkDied', names.index('id')), ctx.ts[2])),
                             cterm_box(ctx.eng, st, why) == ctx.ts[3])), 'with the id and the reason of the dead actor')


def d_next_monitor(ctx, st, name, args):
    if name in ('mrecv', 'recv'):
        st.ghost['n'] += 1
        ctx.prove(st, st.ghost['n'] == 1, 'one signal is taken')
        ctx.prove(st, lib.location(ctx.eng, st, args[0])[0] == lib.location(ctx.eng, st, ctx.args[2])[0], 'from the mailbox')
    elif name in ('mrecv_done', 'recv_done'):
        st.ghost['res'] = args[0]


def d_next_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['res'] is not None and gz(ctx.eq(st, v, st.ghost['res'])), 'the default next is the next signal of the mailbox')


def d_msg_monitor(ctx, st, name, args):
    g = st.ghost
    if name == 'handle_dyn':
        g['n'] += 1
        ctx.prove(st, g['n'] == 1 and gz(z3.And(gz(cterm_box(ctx.eng, st, args[0]) == ctx.mt), gz(ctx.eq(st, args[2], ctx.ts[2])), gz(ctx.eq(st, args[3], ctx.ts[3])))),
                  'the message is handled once, with its own reference and reply sender')
        ctx.prove(st, lib.location(ctx.eng, st, args[1])[0] == lib.location(ctx.eng, st, ctx.args[0])[0], 'on the actor state')
    elif name == 'handle_dyn_done':
        g['res'] = args[0]


def d_msg_setup(ctx, st, args):
    d_setup(ctx, st, args)
    ctx.mt = cterm_box(ctx.eng, st, args[1])


def d_msg_finish(ctx, st, kind, v):
    if kind == 'ret':
        ctx.prove(st, st.ghost['n'] == 1 and gz(ctx.eq(st, v, st.ghost['res'])), 'the outcome is that of the handler')
    else:
        ctx.prove(st, st.ghost['n'] == 1, 'panics only if the handler does')


MRECV = [(r'^mailbox::MailboxReceiver::<A>::recv$', fut_contract('mrecv'))]
D = r'^actor::Actor::'
JOBS = [JOB_MSG, JOB_LINKDIED, JOB_SHUT, JOB_NEXT, JOB_STARTUP, JOB_STOP, JOB_NEW, JOB_DOWN,
        Job('default on_start', D + 'on_start$', setup=d_setup, finish=d_ok_unit),
        Job('default on_stop', D + 'on_stop$', setup=d_setup, finish=d_ok_unit),
        Job('default on_panic', D + 'on_panic$', setup=d_setup, finish=d_panic_finish),
        Job('default on_link_died', D + 'on_link_died$', setup=d_setup, finish=d_link_finish, crate='remote', expect=('with the id and the reason of the dead actor',)),
        Job('default next', D + 'next$', setup=d_setup, monitor=d_next_monitor, finish=d_next_finish, extra=MRECV, needs=[MRECV[0][0]]),
        Job('default on_message', D + 'on_message$', setup=d_msg_setup, monitor=d_msg_monitor, finish=d_msg_finish, needs=[r'^message::DynMessage::handle_dyn$'])]
