"""Streams attached to an actor: what the attached task tells the actor, in which order, and how it ends."""
from .base import *
from .ids import is_ok
from .toolbox import h_tell, h_try_send, h_mbt, h_same, inline

simple_fut('shutdown')


def h_wait(eng, st, info):
    """ActorRef::wait_for_shutdown (verified in refs.py): returns once the actor is gone"""
    return ret(eng, st, mkfut('shutdown', info.args[0]))


STREAM = [(r'^actor::actor_ref::ActorRef::<A>::tell$', h_tell), (r"^request::tell::TellRequest::<.*>::mailbox_timeout$", h_mbt), (r"^request::tell::TellRequest::<.*>::send$", h_same),
          (r"^<request::tell::TellRequest<.*> as core::future::into_future::IntoFuture>::into_future$", h_same), (r"^request::tell::TellRequest::<.*>::try_send$", h_try_send),
          (r'^actor::actor_ref::ActorRef::<A>::wait_for_shutdown$', h_wait), (r'^<actor::actor_ref::ActorRef<A> as core::clone::Clone>::clone$', lib.c_clone)]
G = {'started': 0, 'pend': 0, 'end': 0, 'fin': 0, 'down': 0, 'failed': 0, 'item': None, 'err': None, 'spawns': 0, 'ended': None, 'cur': 0}


def variant_is(ctx, v, n):
    return isinstance(v, Agg) and ctx.P.t(v.tid)['variants'][v.variant]['name'] == n


def mon(ctx, st, name, args):
    g = st.ghost
    z = lambda n: gz(g[n] == 0)
    if name == 'spawn':
        g['spawns'] += 1
    elif name == 'tell':
        recv, msg, how, to = args
        ctx.prove(st, z3.And(z('down'), z('failed'), z('fin')), 'nothing is told once it is over')
        ctx.prove(st, deep_eq(ctx, st, recv, ctx.args[0]), 'the actor it is attached to is told')
        ctx.prove(st, how == 'send' and to is None, 'it waits for space in a full mailbox')
        if variant_is(ctx, msg, 'Started'):
            ctx.prove(st, z3.And(z('started'), deep_eq(ctx, st, msg.fields[0], ctx.args[2])), 'the start value comes first, once')
            g['cur'] = 1
        elif variant_is(ctx, msg, 'Next'):
            ctx.prove(st, z3.And(gz(g['pend'] == 1), deep_eq(ctx, st, msg.fields[0], g['item'])) if g['item'] is not None else False, 'each item is told once, unchanged, in order')
            g['cur'] = 2
        elif variant_is(ctx, msg, 'Finished'):
            ctx.prove(st, z3.And(gz(g['end'] == 1), deep_eq(ctx, st, msg.fields[0], ctx.args[3])), 'the finish value comes last, when the stream has ended')
            g['cur'] = 3
        else:
            ctx.prove(st, False, 'only start, items and finish are told')
    elif name == 'told':
        if args[4] != 'Ok':
            g['failed'], g['err'] = 1, args[4]
            g['unsent'] = args[1]
        elif g['cur'] == 1:
            g['started'] = 1
        elif g['cur'] == 2:
            g['pend'] = 0
        elif g['cur'] == 3:
            g['fin'] = 1
        g['cur'] = 0
    elif name == 'stream_next':
        ctx.prove(st, z3.And(gz(g['started'] == 1), z('pend'), z('end'), z('failed'), z('down')), 'the next item is taken when the one before is delivered')
        ctx.prove(st, gz(ctx.cterm(st, args[0]) == ctx.cterm(st, ctx.args[1])), 'from the attached stream')
    elif name == 'stream_next_done':
        if ctx.eng.entails(st, gz(ctx.is_variant(st, args[0], 'Some'))):
            g['pend'], g['item'] = 1, ctx.payload(st, args[0], 'Some')
        elif ctx.eng.entails(st, gz(ctx.is_variant(st, args[0], 'None'))):
            g['end'] = 1
        else:
            # told apart later: both at once
            isn = gz(ctx.is_variant(st, args[0], 'Some'))
            g['pend'], g['end'] = z3.If(isn, z3.IntVal(1), z3.IntVal(0)), z3.If(isn, z3.IntVal(0), z3.IntVal(1))
            g['item'] = ctx.payload(st, args[0], 'Some')
    elif name == 'shutdown':
        ctx.prove(st, deep_eq(ctx, st, lib.content(ctx.eng, st, args[0]), ctx.args[0]), 'it watches the actor it is attached to')
    elif name == 'shutdown_done':
        g['down'] = 1
    elif name == 'task_end':
        kind, r = args
        g['ended'] = True
        ctx.prove(st, kind == 'ret', 'the task never panics')
        if kind != 'ret':
            return
        failed = gz(g['failed'] == 1)
        ctx.prove(st, z3.Not(gz(is_ok(ctx, st, r))) == failed, 'it is an error exactly when the actor could not be told')
        if ctx.eng.entails(st, failed):
            err = ctx.payload(st, r, 'Err')
            ctx.prove(st, variant_is(ctx, err, g['err']) and deep_eq(ctx, st, err.fields[0], g['unsent']), 'the error is that of the failed send, with its message')
        else:
            ctx.prove(st, z3.Or(gz(g['fin'] == 1), z3.And(gz(g['down'] == 1), gz(g['started'] == 1))), 'it ends when all was told, or when the actor has stopped')
            ctx.prove(st, z('pend'), 'no item is taken without being told')
            ctx.prove(st, gz(ctx.cterm(st, ctx.payload(st, r, 'Ok')) == ctx.cterm(st, ctx.args[1])), 'the stream is given back')


def finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['spawns'] == 1, 'one task serves the stream')


JOBS = [Job('ActorRef::attach_stream', r'^actor::actor_ref::ActorRef::<A>::attach_stream$', None, mon, finish, STREAM, ghost=G, config=inline, drive=False,
            expect=('each item is told once, unchanged, in order', 'the finish value comes last, when the stream has ended', 'the error is that of the failed send, with its message', 'the stream is given back'))]
