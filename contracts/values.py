"""Plain values: a clone is the same value, defaults are what the documentation says."""
from .base import *
from .errors import Job
from .requests import unbox

CLONE = r'^<%s as core::clone::Clone>::clone$'


def f_clone(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, deep_eq(ctx, st, v, ctx.args[0]), 'the clone is the same value')


def f_box(ctx, st, kind, v):
    """dyn_clone of the boxed handler: the clone of what the box held"""
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        a, b = (ctx.cterm(st, unbox(ctx, st, ctx.field(st, x, 'handler'))) for x in (v, ctx.args[0]))
        ctx.prove(st, z3.Or(a == b, a == ctx.eng.F('unbox', [V], V)(b)), 'the clone is the same value')


def clone(name, path, crate='core', **kw):
    return Job(name + '::clone', CLONE % path, crate=crate, finish=kw.pop('finish', f_clone), expect=('the clone is the same value',), **kw)


def f_default(where, strategy):
    def f(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        if where:
            ctx.prove(st, lib.as_map(ctx.eng, st, ctx.field(st, v, where)).dom == z3.K(V, z3.BoolVal(False)), 'nobody is in it')
        if strategy:
            ctx.prove(st, ctx.is_variant(st, ctx.field(st, v, 'delivery_strategy') if where else v, 'BestEffort'), 'best effort is the default strategy')
    return f


def default(name, path, where, strategy):
    return Job(name + '::default', '^<%s as core::default::Default>::default$' % path, crate='actors', finish=f_default(where, strategy),
               expect=(('nobody is in it',) if where else ()) + (('best effort is the default strategy',) if strategy else ()))


JOBS = [
    clone('Link', 'actor::actor_ref::Link'), clone('Links', 'actor::actor_ref::Links'), clone('ActorStopReason', 'error::ActorStopReason'), clone('PanicError', 'error::PanicError'),
    clone('SendError', 'error::SendError<M, E>'), clone('RegistryError', 'error::RegistryError'), clone('StreamMessage', 'message::StreamMessage<T, S, F>'),
    clone('ActorID', 'actor::id::ActorID'), clone('MaybeRequestTimeout', 'request::MaybeRequestTimeout'), clone('WithRequestTimeout', 'request::WithRequestTimeout'),
    clone('Recipient', r'actor::actor_ref::Recipient<M>', finish=f_box), clone('WeakRecipient', r'actor::actor_ref::WeakRecipient<M>', finish=f_box),
    clone('Link (remote)', 'actor::actor_ref::Link', 'remote'), clone('ActorStopReason (remote)', 'error::ActorStopReason', 'remote'), clone('ActorID (remote)', 'actor::id::ActorID', 'remote'),
    clone('PeerIdKind', 'actor::id::PeerIdKind', 'remote'), clone('RemoteActorRef', 'actor::actor_ref::RemoteActorRef<A>', 'remote'), clone('ActorSwarm', 'remote::swarm::ActorSwarm', 'remote'),
    clone('SwarmSender', 'remote::swarm::SwarmSender', 'remote'), clone('RemoteMessageFns', 'remote::_internal::RemoteMessageFns', 'remote'), clone('RemoteActorFns', 'remote::_internal::RemoteActorFns', 'remote'),
    clone('Dispatch', 'pool::Dispatch<M>', 'actors'), clone('Broadcast', 'pool::Broadcast<M>', 'actors'), clone('broker Subscribe', 'broker::Subscribe<M>', 'actors'),
    clone('broker Unsubscribe', 'broker::Unsubscribe', 'actors'), clone('broker Publish', 'broker::Publish<M>', 'actors'),
    default('DeliveryStrategy', 'DeliveryStrategy', None, True), default('Broker', r'broker::Broker<M>', 'subscriptions', True),
    default('MessageBus', 'message_bus::MessageBus', 'subscriptions', True), default('PubSub', r'pubsub::PubSub<M>', 'subscribers', False),
]
