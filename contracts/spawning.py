"""How an actor gets from its constructor into a running task."""
from .base import *

LIFE = [(r'^actor::spawn::run_actor_lifecycle$', fut_contract('lifecycle'))]
RUN = [(r'^actor::spawn::PreparedActor::<A>::run$', fut_contract('run'))]
START = [(r'^actor::spawn::PreparedActor::<A>::spawn$', sync_contract('start')), (r'^actor::spawn::PreparedActor::<A>::spawn_in_thread$', sync_contract('start_thread'))]
LINK = [(r'^actor::actor_ref::ActorRef::<A>::link$', fut_contract('link'))]
PA = r'^actor::spawn::PreparedActor::<A>::'


def inline(eng, ctx):
    eng.inline_spawn = True


# ------------------------------------------------------------------ PreparedActor::new
def new_setup(ctx, st, args):
    m = args[0]
    ctx.tx, ctx.rx = [ctx.term(st, ctx.payload(st, m, None, i)) for i in (0, 1)]
    st.ghost.update(sems=())


def new_monitor(ctx, st, name, args):
    if name == 'sem_new':
        st.ghost['sems'] += (args[0],)


def new_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    r = ctx.field(st, v, 'actor_ref')
    ctx.prove(st, ctx.eq(st, ctx.field(st, r, 'mailbox_sender'), ctx.tx), 'the reference sends into the given mailbox')
    ctx.prove(st, ctx.eq(st, ctx.field(st, v, 'mailbox_rx'), ctx.rx), 'the actor reads the given mailbox')
    h, g = ctx.term(st, ctx.field(st, r, 'abort_handle')), ctx.term(st, ctx.field(st, v, 'abort_registration'))
    ctx.prove(st, h.num_args() == 1 and g.num_args() == 1 and h.arg(0).eq(g.arg(0)), "kill reaches this actor's own registration")
    ctx.prove(st, len(st.ghost['sems']) == 1 and gz(zi(st.ghost['sems'][0].e) == 0), 'nobody is released from waiting for startup yet')
    a, b = once_of(ctx, st, r, 'startup_error'), once_of(ctx, st, r, 'shutdown_error')
    ctx.prove(st, not a.eq(b), 'startup and shutdown results are separate cells')
    l = arc_content(ctx, st, ctx.payload(st, ctx.field(st, r, 'links'), None, 0))
    lt = ctx.term(st, l)
    ctx.prove(st, not any(ctx.term(st, x).eq(lt) for x in ctx.args), 'links are fresh')


# ------------------------------------------------------------------ run / spawn / spawn_in_thread
def parts(ctx, st, self):
    return [ctx.term(st, ctx.field(st, self, n)) for n in ('actor_ref', 'mailbox_rx', 'abort_registration')]


def run_setup(ctx, st, args):
    ctx.aref, ctx.rx, ctx.reg = parts(ctx, st, args[0])
    ctx.id = ctx.term(st, ctx.field(st, ctx.field(st, args[0], 'actor_ref'), 'id'))
    ctx.actor = ctx.term(st, args[1])
    st.ghost.update(n=0, res=None, scope=None, spawned=0)


def run_monitor(ctx, st, name, args):
    g = st.ghost
    if name == 'scope_enter':
        g['scope'] = ctx.term(st, args[0])
    elif name == 'lifecycle':
        g['n'] += 1
        ctx.prove(st, g['n'] == 1, 'the lifecycle runs once')
        for a, t, n in zip(args, (ctx.actor, ctx.aref, ctx.rx, ctx.reg), ('actor', 'reference', 'mailbox', 'abort registration')):
            ctx.prove(st, ctx.eq(st, a, t), f'the lifecycle gets the given {n}')
        ctx.prove(st, g['scope'] is not None and gz(g['scope'] == ctx.id), 'inside the task the actor is the current one')
    elif name == 'lifecycle_done':
        g['res'] = args[0]


def run_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['n'] == 1 and gz(ctx.eq(st, v, st.ghost['res'])), "run returns the lifecycle's result")


def spawn_monitor(ctx, st, name, args):
    g = st.ghost
    if name == 'spawn':
        g['spawned'] += 1
    elif name == 'lifecycle':
        ctx.prove(st, g['spawned'] == 1, 'it runs in its own task')
        run_monitor(ctx, st, name, args)
    elif name == 'task_end':
        ctx.prove(st, args[0] == 'ret' and g['res'] is not None and gz(ctx.eq(st, args[1], g['res'])), "the task yields the lifecycle's result")
    else:
        run_monitor(ctx, st, name, args)


def spawn_finish(ctx, st, kind, v):
    if kind == 'ret':
        ctx.prove(st, st.ghost['n'] == 1 and st.ghost['spawned'] == 1, 'exactly one task runs exactly one lifecycle')
    else:
        ctx.prove(st, st.ghost['n'] == 0, 'nothing runs if no task could be started')


# ------------------------------------------------------------------ spawn* functions
def sp_setup(mode):
    def f(ctx, st, args):
        st.ghost.update(n=0, chan=None, made=None, linked=0)
        ctx.link = args[0] if 'link' in mode else None
        args = args[1:] if 'link' in mode else args
        ctx.actor = ctx.term(st, args[0])
        ctx.mb = [ctx.term(st, ctx.payload(st, args[1], None, i)) for i in (0, 1)] if 'mailbox' in mode else None
    return f


def sp_monitor(mode):
    def f(ctx, st, name, args):
        g = st.ghost
        if name == 'channel':
            g['chan'] = (ctx.term(st, args[0]), args[1], args[2:])
        elif name == 'link':
            g['linked'] += 1
            ctx.prove(st, 'link' in mode and g['n'] == 0, 'linking happens before the actor starts')
            a, b = ctx.cterm(st, args[0]), ctx.cterm(st, args[1])
            g['lref'] = a
            ctx.prove(st, gz(ctx.eq(st, b, ctx.cterm(st, ctx.link))), 'the new actor is linked with the given one')
        elif name in ('start', 'start_thread'):
            g['n'] += 1
            ctx.prove(st, g['n'] == 1 and name == ('start_thread' if 'thread' in mode else 'start'), 'the actor is started once, the way the function says')
            prep = args[0]
            r = ctx.field(st, prep, 'actor_ref')
            g['made'] = ctx.term(st, r)
            ctx.prove(st, ctx.eq(st, args[1], ctx.actor), 'the given actor is started')
            tx, rx = ctx.field(st, r, 'mailbox_sender'), ctx.field(st, prep, 'mailbox_rx')
            if 'link' in mode:
                ctx.prove(st, g['linked'] == 1 and gz(g['lref'] == g['made']), 'it is already linked when it starts')
            if ctx.mb:
                ctx.prove(st, z3.And(gz(ctx.eq(st, tx, ctx.mb[0])), gz(ctx.eq(st, rx, ctx.mb[1]))), 'with the given mailbox')
            else:
                ok = isinstance(tx, Agg) and isinstance(rx, Agg) and g['chan'] is not None
                ok = ok and ctx.is_variant(st, tx, 'Bounded') and ctx.is_variant(st, rx, 'Bounded') and g['chan'][1] == 'bounded'
                ctx.prove(st, ok and gz(z3.And(zi(g['chan'][2][0].e) > 0, ctx.term(st, tx.fields[0]) == ctx.eng.F('txOf', [V], V)(g['chan'][0]),
                                               ctx.term(st, rx.fields[0]) == ctx.eng.F('rxOf', [V], V)(g['chan'][0]))), 'with a fresh bounded mailbox of its own')
    return f


def sp_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, st.ghost['n'] == 1 and gz(ctx.eq(st, v, st.ghost['made'])), "the returned reference is the started actor's")


def sp(name, mode):
    return Job(name, rf'^actor::spawn::{name}$', setup=sp_setup(mode), monitor=sp_monitor(mode), finish=sp_finish, extra=START + LINK, needs=[START[0][0], START[1][0]],
               expect=("the returned reference is the started actor's", 'the given actor is started'))


JOBS = [
    Job('PreparedActor::new', PA + 'new$', setup=new_setup, monitor=new_monitor, finish=new_finish, expect=("kill reaches this actor's own registration",)),
    Job('PreparedActor::run', PA + 'run$', setup=run_setup, monitor=run_monitor, finish=run_finish, extra=LIFE, needs=[LIFE[0][0]], expect=('inside the task the actor is the current one',)),
    Job('PreparedActor::spawn', PA + 'spawn$', setup=run_setup, monitor=spawn_monitor, finish=spawn_finish, extra=LIFE, needs=[LIFE[0][0]], config=inline,
        expect=('inside the task the actor is the current one', 'exactly one task runs exactly one lifecycle')),
    Job('PreparedActor::spawn_in_thread', PA + 'spawn_in_thread$', setup=run_setup, monitor=spawn_monitor, finish=spawn_finish, extra=LIFE, needs=[LIFE[0][0]], config=inline,
        expect=('inside the task the actor is the current one', 'exactly one task runs exactly one lifecycle')),
    sp('spawn', ''), sp('spawn_with_mailbox', 'mailbox'), sp('spawn_link', 'link'), sp('spawn_link_with_mailbox', 'link mailbox'),
    sp('spawn_in_thread', 'thread'), sp('spawn_in_thread_with_mailbox', 'thread mailbox'),
]
