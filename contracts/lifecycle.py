"""Property `lifecycle`: hooks run in order, once each, with the right arguments; the reason is the right one."""
from .base import *
from .mailbox import on_chan

LOOP = [(r'^actor::spawn::abortable_actor_loop$', fut_contract('loop'))]
RECV = [(r'^actor::spawn::recv_mailbox_loop$', fut_contract('recv_loop'))]


# ------------------------------------------------------------------ run_actor_lifecycle
def life_setup(ctx, st, args):
    ctx.actor, ctx.aref, ctx.mrx, ctx.reg = args
    ctx.su = once_of(ctx, st, ctx.aref, 'startup_error')
    ctx.sd = once_of(ctx, st, ctx.aref, 'shutdown_error')
    ctx.t_actor, ctx.t_aref = ctx.term(st, ctx.actor), ctx.term(st, ctx.aref)
    st.ghost.update(n_start=0, n_su=0, n_sd=0, n_sig=0, n_loop=0, n_down=0, n_stop=0, n_permits=0, n_shut=0, n_hook=0, n_hook2=0)
    for k in ('start', 'sig', 'final', 'inner', 'loc', 'stopres', 'flow'):
        st.ghost[k] = None


def start_err(ctx, st):
    """(ok?, expected PanicError term) of the recorded on_start outcome on this path"""
    kind, r = st.ghost['start']
    if kind == 'panicked':
        return False, panic_any_term(ctx, st, r)
    ok = ctx.is_variant(st, r, 'Ok')
    return ok, ctx.eng.F('panicOf', [V], V)(ctx.term(st, ctx.payload(st, r, 'Err')))


def expected_reason(ctx, st, reason):
    """condition: `reason` is the reason this actor stopped for"""
    f = st.ghost['final']
    if f is None:
        return False
    if f[0] == 'loop':
        return ctx.eq(st, reason, f[1])
    if f[0] == 'killed':
        return ctx.is_variant(st, reason, 'Killed')
    flow = f[1]
    brk = ctx.is_variant(st, flow, 'Break')
    ok, err = start_err(ctx, st)
    pan = ctx.is_variant(st, reason, 'Panicked')
    same_err = ctx.eq(st, ctx.payload(st, reason, 'Panicked'), err) if not (isinstance(reason, Agg) and pan is False) else False
    return z3.Or(z3.And(gz(brk), gz(ctx.eq(st, reason, ctx.payload(st, flow, 'Break')))),
                 z3.And(z3.Not(gz(brk)), gz(pan), gz(same_err)))


def life_monitor(ctx, st, name, args):
    g = st.ghost
    if name in TAKES and g['final'] is None:
        ctx.prove(st, z3.Not(gz(on_chan(ctx, st, ctx.mrx, args[0]))), 'nothing else is taken from the mailbox, and it stays open')
    elif name == 'on_start':
        inc(st, 'n_start')
        ctx.prove(st, g['n_start'] == 1 and g['n_loop'] == 0 and g['n_stop'] == 0, 'on_start runs once, before everything else')
        ctx.prove(st, z3.And(gz(ctx.eq(st, ctx.cterm(st, args[0]), ctx.t_actor)), gz(ctx.eq(st, ctx.term(st, args[1]), ctx.t_aref))), 'on_start gets the actor and a reference to it')
        g['aloc'] = location(ctx.eng, st, args[0])
    elif name == 'on_start_done':
        g['start'] = ('done', args[0])
        g['after_start'] = ctx.eng.load(st, *g['aloc'])
    elif name == 'on_start_panicked':
        g['start'] = ('panicked', args[0])
        g['after_start'] = ctx.eng.load(st, *g['aloc'])
    elif name == 'state_new':
        ctx.prove(st, g['start'] is not None and gz(ctx.eq(st, args[0], g['after_start'])), 'the started actor becomes the state')
    elif name in ('once_set', 'once_set_again'):
        cell = ctx.term(st, args[0])
        if cell.eq(ctx.su):
            inc(st, 'n_su')
            ok, err = start_err(ctx, st)
            isnone = gz(ctx.is_variant(st, args[1], 'None'))
            ctx.prove(st, g['n_su'] == 1 and name == 'once_set' and isnone == gz(ok), 'startup_error is set once: None exactly when on_start succeeded')
            if not (isinstance(args[1], Agg) and args[1].variant == 0):
                ctx.prove(st, z3.Or(isnone, gz(ctx.eq(st, ctx.payload(st, args[1], 'Some'), err))), 'startup_error carries what on_start failed with')
        elif cell.eq(ctx.sd):
            inc(st, 'n_sd')
            ctx.prove(st, g['n_sd'] == 1 and name == 'once_set' and g['stopres'] is not None, 'shutdown_error is set once, after on_stop')
            if g['stopres'] is not None:
                r = g['stopres']
                isnone = gz(ctx.is_variant(st, args[1], 'None'))
                ctx.prove(st, isnone == gz(ctx.is_variant(st, r, 'Ok')), 'shutdown_error is None exactly when on_stop succeeded')
                if not (isinstance(args[1], Agg) and args[1].variant == 0):
                    ctx.prove(st, z3.Or(isnone, gz(ctx.eq(st, ctx.payload(st, args[1], 'Some'), ctx.eng.F('panicOf', [V], V)(ctx.term(st, ctx.payload(st, r, 'Err')))))),
                              'shutdown_error carries what on_stop failed with')
        else:
            ctx.prove(st, False, 'no other write-once cell is set')
    elif name == 'error_hook':
        r = g['stopres']
        if r is None:
            inc(st, 'n_hook')
            ok, err = start_err(ctx, st) if g['start'] else (True, None)
            ctx.prove(st, z3.And(z3.Not(gz(ok)), gz(ctx.eq(st, ctx.cterm(st, args[0]), err))) if err is not None else False, 'the error hook hears of a failed on_start, with its error')
        else:
            inc(st, 'n_hook2')
            ctx.prove(st, z3.And(gz(ctx.is_variant(st, r, 'Err')), gz(ctx.eq(st, ctx.cterm(st, args[0]), ctx.eng.F('panicOf', [V], V)(ctx.term(st, ctx.payload(st, r, 'Err')))))) if ctx.is_variant(st, r, 'Ok') is not True else False,
                      'the error hook hears of a failed on_stop, with its error')
    elif name == 'add_permits':
        inc(st, 'n_permits')
        ctx.prove(st, g['n_su'] == 1 and g['n_permits'] == 1, 'wait_for_startup is released once, after startup_error is set')
        ctx.prove(st, ctx.eq(st, ctx.term(st, args[0]), ctx.term(st, arc_content(ctx, st, ctx.field(st, ctx.aref, 'startup_semaphore')))), "it is the actor's own startup semaphore")
    elif name == 'sig_startup':
        inc(st, 'n_sig')
        ctx.prove(st, g['start'] is not None and g['n_sig'] == 1 and g['n_loop'] == 0, 'StartupFinished is signalled once, after on_start and before the loop')
    elif name == 'sig_startup_done':
        g['sig'] = args[0]
    elif name == 'loop':
        inc(st, 'n_loop')
        ok = start_err(ctx, st)[0] if g['start'] else False
        ctx.prove(st, z3.And(gz(ok), gz(g['n_loop'] == 1 and g['n_stop'] == 0 and g['n_sig'] == 1 and g['n_permits'] == 1)),
                  'messages are processed only after on_start succeeded (one loop)')
        ctx.prove(st, len(held(ctx, st, r'^(actor::actor_ref::ActorRef|mailbox::MailboxSender)$')) == 0, 'the actor does not keep itself alive: no strong reference is held while it runs')
        if g['sig'] is not None:
            full = z3.And(gz(ctx.is_variant(st, g['sig'], 'Err')), gz(ctx.is_variant(st, ctx.payload(st, g['sig'], 'Err'), 'MailboxFull'))) if not (
                isinstance(g['sig'], Agg) and g['sig'].variant == 0) else z3.BoolVal(False)
            flag = [a for a in args if isinstance(a, B)]
            ctx.prove(st, len(flag) == 1 and zb(flag[0].e) == full, 'startup is finished by hand exactly when the signal did not fit the mailbox')
        ctx.prove(st, ctx.eq(st, ctx.cterm(st, args[1]), ctx.term(st, ctx.mrx)), "the loop receives from the actor's own mailbox")
    elif name == 'loop_done':
        g['final'] = ('loop', args[0])
    elif name == 'scope_cancelled':
        ctx.prove(st, args[0] == 'abortable', 'only kill cancels')
        g['final'] = ('killed', None)
    elif name == 'st_on_shutdown':
        inc(st, 'n_shut')
        ok, err = start_err(ctx, st)
        ctx.prove(st, z3.And(gz(g['n_shut'] == 1), z3.Not(gz(ok)), gz(ctx.is_variant(st, args[1], 'Panicked')), gz(ctx.eq(st, ctx.payload(st, args[1], 'Panicked'), err))),
                  'a failed on_start is passed to on_panic with its error')
    elif name == 'st_on_shutdown_done':
        g['final'] = ('failed', args[0])
    elif name == 'state_shutdown':
        inc(st, 'n_down')
        g['inner'] = args[1]
        ctx.prove(st, g['n_down'] == 1 and g['final'] is not None, 'the state is taken down once, after processing ended')
    elif name == 'on_stop':
        inc(st, 'n_stop')
        ctx.prove(st, g['n_stop'] == 1 and g['final'] is not None and g['inner'] is not None, 'on_stop runs once, after message processing ended')
        ctx.prove(st, g['inner'] is not None and gz(ctx.eq(st, ctx.cterm(st, args[0]), ctx.term(st, g['inner']))), 'on_stop runs on the final actor state')
        ctx.prove(st, expected_reason(ctx, st, args[2]), 'on_stop gets the reason the actor stopped for')
        g['loc'] = location(ctx.eng, st, args[0])
    elif name == 'on_stop_done':
        g['stopres'] = args[0]
        g['after_stop'] = ctx.eng.load(st, *g['loc'])
    elif name == 'upgrade':
        g['alive'] = args[1]
    elif name in ('st_message', 'st_next', 'st_startup', 'handle', 'on_panic', 'on_link_died'):
        ctx.prove(st, False, 'no processing outside the loop')


def life_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'the lifecycle never panics')
    if kind != 'ret':
        return
    ctx.prove(st, g['n_start'] == 1 and g['n_stop'] == 1, 'on_start and on_stop each ran exactly once')
    ctx.prove(st, g['n_su'] == 1 and g['n_permits'] == 1, 'startup outcome published and waiters released')
    ctx.prove(st, g.get('alive') is not True or g['n_sd'] == 1, 'shutdown outcome published when anybody can still ask for it')
    ok = start_err(ctx, st)[0]
    ctx.prove(st, gz(ok) == gz(g['n_loop'] == 1 or g['final'][0] == 'killed'), 'processing happened iff on_start succeeded')
    failed = gz(ctx.is_variant(st, g['stopres'], 'Err')) if g['stopres'] is not None else z3.BoolVal(False)
    ctx.prove(st, z3.And(zi(g['n_hook']) == z3.If(gz(ok), 0, 1), zi(g['n_hook2']) == z3.If(failed, 1, 0)), 'the error hook hears of every failed on_start and on_stop, once')
    if not isinstance(v, Agg):
        v = Agg('tuple', 0, [ctx.payload(st, v, None, 0), ctx.payload(st, v, None, 1)])
    ctx.prove(st, gz(ctx.eq(st, ctx.term(st, v.fields[0]), ctx.term(st, g['after_stop']))), 'the final actor state is returned')
    ctx.prove(st, expected_reason(ctx, st, v.fields[1]), 'the final reason is returned')


JOB_LIFE = Job('run_actor_lifecycle', r'^actor::spawn::run_actor_lifecycle$', setup=life_setup, monitor=life_monitor, finish=life_finish,
               extra=LOOP + STATE + SIGNALS + ERROR_HOOK + PANIC, no_panic={'on_stop'},
               expect=('the error hook hears of a failed on_start, with its error', 'the error hook hears of a failed on_stop, with its error', 'on_start runs once, before everything else', 'on_stop gets the reason the actor stopped for', 'a failed on_start is passed to on_panic with its error'))



# ------------------------------------------------------------------ recv_mailbox_loop: every signal goes to its own handler, once, in order
HANDLERS = {'st_startup': ('StartupFinished', ()), 'st_message': ('Message', ('message', 'actor_ref', 'reply', 'sent_within_actor')),
            'st_link_died': ('LinkDied', ('id', 'reason')), 'st_stop': ('Stop', ())}


def variant_fields(ctx, st, v, name):
    t = ctx.P.t(v.tid)
    vi = [k for k, x in enumerate(t['variants']) if x['name'] == name][0]
    return [f[0] for f in t['variants'][vi]['fields']]


def outcome(ctx, st, flow):
    """remember whether a handler said Continue, and otherwise the reason it broke with"""
    st.ghost['cont'] = gz(ctx.is_variant(st, flow, 'Continue'))
    if not isinstance(flow, Agg) or flow.variant == 1:
        st.ghost['why'] = ctx.term(st, ctx.payload(st, flow, 'Break'))


def broke_with(ctx, st, v):
    return z3.And(z3.Not(gz(st.ghost['cont'])), gz(ctx.eq(st, v, st.ghost['why'])))


def recv_setup(ctx, st, args):
    ctx.t_state, ctx.t_rx = args[0], args[1]
    st.ghost.update(pending=0, sig=None, why=ctx.eng.fresh('no_break'), cont=True)


TAKES = ('recv', 'chan_close')


def recv_monitor(ctx, st, name, args):
    g = st.ghost
    if name in TAKES:
        ctx.prove(st, z3.Not(gz(on_chan(ctx, st, ctx.t_rx, args[0]))), 'nothing else is taken from the mailbox, and it stays open')
    elif name == 'st_next':
        ctx.prove(st, g['pending'] == 0, 'the next signal is taken only after the previous one was handled')
        ctx.prove(st, gz(g['cont']), 'processing goes on only while handlers say Continue')
        ctx.prove(st, lib.location(ctx.eng, st, args[1])[0] == lib.location(ctx.eng, st, ctx.t_rx)[0], "signals come from the actor's own mailbox")
    elif name == 'st_next_done':
        st.ghost['pending'], st.ghost['sig'] = 1, args[0]
    elif name in HANDLERS:
        want, fields = HANDLERS[name]
        ctx.prove(st, g['pending'] == 1, 'each signal is handled at most once')
        sig = g['sig']
        if sig is None:
            return
        isnone = gz(ctx.is_variant(st, sig, 'None'))
        if isinstance(sig, Agg) and sig.variant == 0:
            ctx.prove(st, name == 'st_stop', 'each signal reaches the handler for its kind')
        else:
            inner = ctx.payload(st, sig, 'Some')
            here = gz(ctx.is_variant(st, inner, want))
            ctx.prove(st, z3.Or(isnone, here) if name == 'st_stop' else z3.And(z3.Not(isnone), here), 'each signal reaches the handler for its kind')
            if fields:
                names = variant_fields(ctx, st, inner, want)
                for f, a in zip(fields, args[1:]):
                    ctx.prove(st, ctx.eq(st, a, ctx.payload(st, inner, want, names.index(f))), f'the {want} handler gets the signal\'s own {f}')
        st.ghost['pending'], st.ghost['sig'] = 0, None
    elif name.endswith('_done') and name[:-5] in HANDLERS:
        outcome(ctx, st, args[0])
    elif name == 'st_on_shutdown':
        ctx.prove(st, False, 'the receive loop does not shut the actor down itself')


def recv_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'the loop never panics')
    if kind == 'ret':
        ctx.prove(st, gz(st.ghost['pending'] == 0), 'no signal is dropped')
        ctx.prove(st, broke_with(ctx, st, v), "the loop ends only with a handler's Break, and with its reason")


JOB_RECV = Job('recv_mailbox_loop', r'^actor::spawn::recv_mailbox_loop$', setup=recv_setup, monitor=recv_monitor, finish=recv_finish, extra=STATE,
               expect=("the loop ends only with a handler's Break, and with its reason", 'each signal reaches the handler for its kind'),
               needs=[p for p, _ in STATE])


# ------------------------------------------------------------------ abortable_actor_loop
def abl_setup(ctx, st, args):
    ctx.t_rx = args[1]
    ctx.byhand = args[2]
    st.ghost.update(why=ctx.eng.fresh('no_break'), reason=ctx.eng.fresh('no_reason'), n_hand=0, n_recv=0, cont=True, decided=1)


def abl_monitor(ctx, st, name, args):
    g = st.ghost
    if name in TAKES:
        ctx.prove(st, z3.Not(gz(on_chan(ctx, st, ctx.t_rx, args[0]))), 'nothing else is taken from the mailbox, and it stays open')
    elif name == 'st_startup':
        ctx.prove(st, z3.And(zb(ctx.byhand.e), gz(gz(g['n_recv']) == 0), gz(gz(g['n_hand']) == 0)), 'startup is finished by hand only when asked to, first')
        inc(st, 'n_hand')
    elif name == 'st_startup_done':
        outcome(ctx, st, args[0])
    elif name == 'recv_loop':
        ctx.prove(st, zb(ctx.byhand.e) == gz(gz(g['n_hand']) == 1), 'when the startup signal did not fit, startup is finished by hand before any signal is taken')
        ctx.prove(st, gz(g['cont']), 'processing goes on only while handlers say Continue')
        ctx.prove(st, gz(g['decided'] == 1), 'every stop reason is passed to on_shutdown')
        ctx.prove(st, lib.location(ctx.eng, st, args[1])[0] == lib.location(ctx.eng, st, ctx.t_rx)[0], "signals come from the actor's own mailbox")
        g['n_recv'] = 1
    elif name == 'recv_loop_done':
        g['reason'], g['decided'] = ctx.term(st, args[0]), 0
    elif name == 'st_on_shutdown':
        ctx.prove(st, z3.And(gz(gz(g['decided']) == 0), gz(ctx.eq(st, args[1], g['reason']))), 'on_shutdown decides about the reason the loop ended with')
        g['decided'] = 1
    elif name == 'st_on_shutdown_done':
        outcome(ctx, st, args[0])
    elif name in ('st_message', 'st_link_died', 'st_stop', 'st_next'):
        ctx.prove(st, False, 'signals are handled in the receive loop only')


def abl_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'the loop never panics')
    if kind == 'ret':
        ctx.prove(st, broke_with(ctx, st, v), "the actor ends only with a Break, and with its reason")


JOB_ABL = Job('abortable_actor_loop', r'^actor::spawn::abortable_actor_loop$', setup=abl_setup, monitor=abl_monitor, finish=abl_finish, extra=RECV + STATE,
              expect=('the actor ends only with a Break, and with its reason', 'on_shutdown decides about the reason the loop ended with'),
              needs=[RECV[0][0]] + [p for p, _ in STATE])

# ------------------------------------------------------------------ C05: what the end of an actor does to its links
SWARM = [(r'^remote::swarm::ActorSwarm::signal_link_died$', fut_contract('swarm_link_died'))]


def drops(pat, name):
    rx = re.compile(pat)

    def f(eng, ctx):
        def on(eng2, st, v):
            t = ctx.P.t(v.tid)
            if t['k'] == 'adt' and rx.search(t['path']):
                eng2.emit(st, name, v)
        eng.on_sym_drop = on
    return f


def lk_setup(ctx, st, args):
    life_setup(ctx, st, args)
    ctx.links = ctx.term(st, arc_content(ctx, st, ctx.payload(st, ctx.field(st, ctx.aref, 'links'), None, 0)))
    ctx.aid = ctx.term(st, ctx.field(st, ctx.aref, 'id'))
    ctx.remote = any(n == 'remote::swarm::ActorSwarm::signal_link_died' for n in ctx.P.names)
    st.ghost.update(pend=0, entry=None, all=None, n_drain=0, n_end=0, n_unlock=0, n_reg=0, undriven=0, closed=0)


def lk_monitor(ctx, st, name, args):
    g = st.ghost
    ctx.mute = True
    life_monitor(ctx, st, name, args)
    ctx.mute = False
    if name == 'lock':
        if gz(ctx.eq(st, args[0], ctx.links)) is not False and ctx.term(st, args[0]).eq(ctx.links):
            ctx.prove(st, g['n_down'] == 1, 'links are notified only after the actor has stopped processing')
            g['all'] = args[1].dom
    elif name in ('map_drain', 'map_into_iter', 'map_iter') and isinstance(g['all'], z3.ExprRef) and args[0].dom.eq(g['all']):
        g['n_drain'] += 1
        ctx.prove(st, g['n_drain'] == 1, 'the links are taken once')
    elif name == 'iter_end':
        ctx.prove(st, gz(g['pend'] == 0), 'every link is notified')
        g['n_end'] = 1
    elif name == 'iter_next':
        ctx.prove(st, gz(g['pend'] == 0), 'every link is notified before the next one is taken')
        g['pend'], g['entry'] = 1, args
    elif name == 'global_get' and not args[1] and isinstance(g['entry'], tuple):
        ctx.prove(st, gz(ctx.is_variant(st, g['entry'][1], 'Remote')), 'only a remote link can do without the swarm')
        g['pend'] = 0
    elif name in ('sig_link_died', 'swarm_link_died'):
        ctx.prove(st, gz(g['pend'] == 1), 'a link is notified at most once')
        if not isinstance(g['entry'], tuple):
            return
        k, v = g['entry']
        if name == 'sig_link_died':
            ctx.prove(st, gz(ctx.is_variant(st, v, 'Local')), 'local links are notified through their mailbox')
            a, b = ctx.cterm(st, args[0]), cterm_box(ctx.eng, st, ctx.payload(st, v, 'Local'))
            ctx.prove(st, same_box(ctx, a, b), "the notification goes to this link's mailbox")
            ctx.prove(st, ctx.eq(st, args[1], ctx.aid), 'the notification names the actor that died')
            ctx.prove(st, expected_reason(ctx, st, args[2]), 'the notification carries the reason the actor stopped for')
        else:
            ctx.prove(st, gz(ctx.is_variant(st, v, 'Remote')), 'remote links are notified through the swarm')
            ctx.prove(st, z3.And(gz(ctx.eq(st, args[1], ctx.aid)), gz(ctx.eq(st, args[2], ctx.term(st, k)))), 'the notification names the actor that died and the one to tell')
            ctx.prove(st, ctx.eq(st, args[3], ctx.payload(st, v, 'Remote')), 'the notification names the type of the one to tell')
            ctx.prove(st, expected_reason(ctx, st, args[4]), 'the notification carries the reason the actor stopped for')
        g['pend'] = 0
    elif name == 'unlock' and ctx.term(st, args[0]).eq(ctx.links):
        g['n_unlock'] += 1
        ctx.prove(st, gz(g['pend'] == 0), 'every link is notified')
        ctx.prove(st, args[1].dom == z3.K(V, z3.BoolVal(False)), 'nobody stays linked to a dead actor')
    elif name == 'fu_dropped':
        ctx.prove(st, zi(args[0].e) <= 0, 'every notification is delivered before the actor is gone')
    elif name == 'map_remove':
        g['n_reg'] += 1
        ctx.prove(st, ctx.eq(st, args[0], ctx.aid), 'the actor leaves the registry of linked actors')
    elif name == 'drop_rx':
        g['closed'] = 1
        ctx.prove(st, g['n_unlock'] == 1 and g['n_stop'] == 1, 'the mailbox closes only after links were notified and on_stop finished')
        ctx.prove(st, g.get('alive') is not True or g['n_sd'] == 1, 'the mailbox closes only after the shutdown result was published')


def same_box(ctx, a, b):
    """the same object, seen as a box or as what the box holds"""
    if a.eq(b):
        return True
    for x, y in ((a, b), (b, a)):
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in ('unbox', 'deref'):
            return gz(x.arg(0) == y)
    return a == b


def lk_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'the lifecycle never panics')
    if kind == 'ret':
        ctx.prove(st, z3.And(gz(g['n_drain'] == 1), gz(g['n_end'] == 1), gz(g['n_unlock'] == 1)), 'the links of a dead actor are always notified')
        ctx.prove(st, g['closed'] == 1, 'the mailbox of a dead actor is closed')
        if ctx.remote:
            ctx.prove(st, g['n_reg'] == 1, 'the actor leaves the remote registry')


def link_job(crate):
    return Job('links of a dead actor' + (' (remote)' if crate == 'remote' else ''), r'^actor::spawn::run_actor_lifecycle$', setup=lk_setup, monitor=lk_monitor, finish=lk_finish,
               extra=LOOP + STATE + SIGNALS + SWARM + ERROR_HOOK + PANIC, no_panic={'on_stop'}, config=drops(r'^mailbox::MailboxReceiver$', 'drop_rx'), crate=crate,
               needs=[LOOP[0][0]] + [p for p, _ in STATE + SIGNALS], budget=200,
               expect=("the notification goes to this link's mailbox", 'the notification carries the reason the actor stopped for', 'every notification is delivered before the actor is gone',
                       'the mailbox closes only after links were notified and on_stop finished'))


JOB_LINKS, JOB_LINKS_R = link_job('core'), link_job('remote')
JOB_LIFE.needs = [LOOP[0][0]] + [p for p, _ in STATE + SIGNALS]
JOBS = [JOB_LIFE, JOB_RECV, JOB_ABL, JOB_LINKS, JOB_LINKS_R]
