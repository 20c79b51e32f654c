"""Requests to actors of other nodes: what is asked of the swarm task, and what its answer means; links with such actors."""
from .base import *
from .ids import is_ok, REMOTE, LOCAL, kind_of, is_local, peer_of
from .swarm import *
from .swarm import OPS as SWARM_OPS
from .dispatch import SERDE, codec, decodes_to, is_err
from .swarmtask import teq
from . import refs as R
from .requests import h_into

ARI = r'^actor::actor_ref::ActorRef::<A>::'
RRI = r'^actor::actor_ref::RemoteActorRef::<A>::'
MSG_ID = lambda ctx: ctx.eng.F('deref', [V], V)(z3.Const('const:remote::RemoteMessage::REMOTE_ID[#0, #1]', V))


def m_req(ctx, st, name, args):
    if name == 'encode_failed':
        st.ghost['unencodable'] = True
    elif name == 'global_get':
        st.ghost['swarm'] = args[1]
    m_cmd(ctx, st, name, args)


def text(ctx, st, v):
    return ctx.eng.term(st, lib.text_of(ctx.eng, st, v))


def asked(ctx, st, kind, variant, tx):
    """one command of this kind went to the swarm task; True when its answer arrived. Peers answer with the kind of response asked for"""
    g = st.ghost
    if kind == 'panic':
        r = g['got']
        wrong = z3.BoolVal(not g['sent'] or g['lost'])
        if r is not None:
            wrong = z3.And(z3.Not(is_var(ctx, st, r, variant)), z3.Not(is_var(ctx, st, r, 'OutboundFailure')))
            if ctx.eng.entails(st, is_var(ctx, st, r, 'OutboundFailure')):
                wrong = is_var(ctx, st, ctx.payload(st, r, 'OutboundFailure'), 'HandlerError')    # the network has no handler that could fail
        ctx.prove(st, wrong, 'it panics only when the swarm task is gone, or answers another question')
        return False
    ctx.prove(st, g['sends'] == 1 and g['sent'] and isinstance(g['cmd'], Agg) and cmd_name(ctx, st) == variant, f'one {variant} command is sent')
    if not (g['sent'] and isinstance(g['cmd'], Agg) and cmd_name(ctx, st) == variant):
        return False
    ctx.prove(st, g['chan'] == tx, 'it goes to the task of this swarm')
    s = slot(ctx, st)
    ctx.prove(st, len(g['waits']) == 1 and s is not None and gz(g['waits'][0] == s), 'it waits for the answer to this very command')
    return g['got'] is not None


# ------------------------------------------------------------------ ActorSwarm::link, unlink, signal_link_died
def swarm_link(op, variant, fields, ids):
    """fields: those given, in the order of the arguments; ids: remote ids by type parameter"""
    def finish(ctx, st, kind, v):
        if not asked(ctx, st, kind, variant, sender_of(ctx, st, ctx.args[0])):
            return
        for n, a in zip(fields, ctx.args[1:]):
            ctx.prove(st, gz(teq(ctx, st, cmd_field(ctx, st, n), a)), 'for the actors named')
        for n, i in ids:
            ctx.prove(st, text(ctx, st, cmd_field(ctx, st, n)) == REMOTE_ID(ctx, i), 'for the actors named')
        r = st.ghost['got']
        for x in (variant, 'OutboundFailure'):
            if ctx.eng.entails(st, is_var(ctx, st, r, x)):
                p = ctx.payload(st, r, x)
                if x == variant:
                    ctx.prove(st, deep_eq(ctx, st, v, p), 'the answer is its result')
                else:
                    ctx.prove(st, ctx.eng.entails(st, is_var(ctx, st, v, 'Err')) and deep_eq(ctx, st, ctx.payload(st, v, 'Err'), p), 'a failure to reach the peer is reported')
                return
        ctx.prove(st, False, 'the answer is its result')
    return Job('ActorSwarm::' + op, SW + op + '$', monitor=m_req, finish=finish, extra=REMOTE, crate='remote', ghost=dict(G0),
               expect=('for the actors named', 'the answer is its result', 'a failure to reach the peer is reported', f'one {variant} command is sent'))


# ------------------------------------------------------------------ remote ask and tell
def s_remote(ctx, st, args):
    ctx.idv = ctx.field(st, args[0], 'id')
    ctx.id = ctx.term(st, ctx.idv)
    ctx.msgtid = ctx.P.t(ctx.body['locals'][2])['to']


def peer(ctx, st):
    """(is one known, the peer) of the node of the actor: this node's own, once it is part of a swarm, for a local id"""
    k = kind_of(ctx, st, ctx.idv)
    loc, p = is_local(ctx, st, k), peer_of(ctx, st, k)
    sw = z3.Const('there_is_a_swarm', z3.BoolSort()) if st.ghost['swarm'] is None else z3.BoolVal(st.ghost['swarm'])
    return z3.Or(z3.Not(loc), sw), z3.If(loc, LOCAL, p)


SENT = "the command names the actor, its node, both type ids, and carries the message"
TOLD = 'the outcome is what the node answered'


def remote_req(op, variant, ask):
    def finish(ctx, st, kind, v):
        g, e = st.ghost, ctx.eng
        ref, msg = ctx.args[0], ctx.args[1]
        if kind == 'ret' and g['sends'] == 0:
            ctx.prove(st, z3.And(g['unencodable'], is_err(ctx, st, v, 'SerializeMessage')), 'nothing is sent of a message that cannot be encoded')
            return
        if kind == 'panic' and g['sends'] == 0:
            # a reference obtained from a swarm names the node of its actor
            ctx.prove(st, z3.Not(peer(ctx, st)[0]), 'it panics only when the swarm task is gone, or answers another question')
            return
        if not asked(ctx, st, kind, variant, sender_of(ctx, st, ctx.field(st, ref, 'swarm_tx'))):
            return
        f = lambda n: cmd_field(ctx, st, n)
        ctx.prove(st, ctx.term(st, f('actor_id')) == ctx.id, SENT)
        ctx.prove(st, ctx.cterm(st, f('peer_id')) == peer(ctx, st)[1], SENT)
        ctx.prove(st, z3.And(text(ctx, st, f('actor_remote_id')) == REMOTE_ID(ctx, 0), text(ctx, st, f('message_remote_id')) == MSG_ID(ctx)), SENT)
        dec, val = codec(e, ctx.msgtid)
        s = lib.as_seq(e, st, f('payload')).seq
        ctx.prove(st, z3.And(dec(s), val(s) == ctx.cterm(st, msg)), SENT)
        ctx.prove(st, gz(deep_eq(ctx, st, f('mailbox_timeout'), ctx.args[2])), 'with the timeouts asked for')
        if ask:
            ctx.prove(st, gz(deep_eq(ctx, st, f('reply_timeout'), ctx.args[3])), 'with the timeouts asked for')
        ctx.prove(st, zb(f('immediate').e) == zb(ctx.args[-1].e), 'waiting for room, or not, as asked')
        result(ctx, st, v, g['got'], variant, ask)
    return Job('remote_' + op, rf'^request::{op}::remote_{op}$', setup=s_remote, monitor=m_req, finish=finish, extra=REMOTE + SERDE, crate='remote', ghost=dict(G0, unencodable=False, swarm=None),
               expect=(SENT, TOLD, 'with the timeouts asked for', 'waiting for room, or not, as asked', 'nothing is sent of a message that cannot be encoded', f'one {variant} command is sent'))


def result(ctx, st, v, r, variant, ask):
    e = ctx.eng
    if e.entails(st, is_var(ctx, st, r, 'OutboundFailure')):
        ctx.prove(st, e.entails(st, is_var(ctx, st, v, 'Err')) and same_kind(ctx, st, ctx.payload(st, v, 'Err'), ctx.payload(st, r, 'OutboundFailure'), False), TOLD)
        return
    p = ctx.payload(st, r, variant)
    if e.entails(st, is_var(ctx, st, p, 'Ok')):
        if not ask:
            ctx.prove(st, is_var(ctx, st, v, 'Ok'), TOLD)
            return
        s = lib.as_seq(e, st, ctx.payload(st, p, 'Ok')).seq
        dec, val = codec(e, lib.field_tid(e, v.tid, 'Ok'))
        if e.entails(st, is_var(ctx, st, v, 'Ok')):
            ctx.prove(st, z3.And(dec(s), ctx.term(st, ctx.payload(st, v, 'Ok')) == val(s)), TOLD)
        else:
            ctx.prove(st, z3.And(z3.Not(dec(s)), is_err(ctx, st, v, 'DeserializeMessage')), TOLD)
        return
    ctx.prove(st, e.entails(st, is_var(ctx, st, v, 'Err')) and same_kind(ctx, st, ctx.payload(st, v, 'Err'), ctx.payload(st, p, 'Err'), ask), TOLD)


def same_kind(ctx, st, a, b, decode):
    """condition: error a tells error b (a handler error decoded when it came as bytes)"""
    e = ctx.eng
    ks = [x['name'] for x in ctx.P.t(b.tid)['variants'] if e.entails(st, is_var(ctx, st, b, x['name']))]
    if len(ks) != 1:
        return gz(teq(ctx, st, a, b))     # handed on as it is
    k = ks[0]
    if k == 'HandlerError' and decode:
        s = lib.as_seq(e, st, ctx.payload(st, b, k)).seq
        dec, val = codec(e, lib.field_tid(e, a.tid, k))
        if e.entails(st, is_var(ctx, st, a, k)):
            return z3.And(dec(s), ctx.term(st, ctx.payload(st, a, k)) == val(s))
        return z3.And(z3.Not(dec(s)), is_var(ctx, st, a, 'DeserializeHandlerError'))
    fs = [x for x in ctx.P.t(b.tid)['variants'] if x['name'] == k][0]['fields']
    return z3.And(is_var(ctx, st, a, k), *[gz(teq(ctx, st, ctx.payload(st, a, k, i), ctx.payload(st, b, k, i))) for i in range(len(fs))])


# ------------------------------------------------------------------ building such requests
def h_remote(eng, st, info):
    """remote_ask and remote_tell (verified above)"""
    return ret(eng, st, mkfut('remote_request', info.callee['name'], *info.args))


@fut('remote_request')
def f_remote(eng, st, fv, out):
    r = eng.fresh_val(st, out, 'outcome')
    eng.emit(st, 'request', fv.args[0], fv.args[1:], r)
    return ret(eng, st, r)


def m_build(ctx, st, name, args):
    if name == 'request':
        st.ghost['made'] += (args,)


def s_build(ctx, st, args):
    r = args[0]
    names = [f[0] for f in ctx.P.t(ctx.content(st, r).tid)['variants'][0]['fields']]
    ctx.old = {n: ctx.cterm(st, ctx.field(st, r, n)) for n in ('actor_ref', 'msg', 'mailbox_timeout', 'reply_timeout') if n in names}


def send_finish(op, imm):
    def finish(ctx, st, kind, v):
        g, o = st.ghost, ctx.old
        ctx.prove(st, kind == 'ret' and len(g['made']) == 1 and g['made'][0][0] == 'remote_' + op, 'one request is made')
        if kind != 'ret' or len(g['made']) != 1:
            return
        _, a, r = g['made'][0]
        f = ctx.eng.F('intoOpt', [V], V)
        ctx.prove(st, z3.And(ctx.cterm(st, a[0]) == o['actor_ref'], ctx.cterm(st, a[1]) == o['msg']), 'for that actor, with that message')
        ts = {'mailbox_timeout': a[2]} | ({'reply_timeout': a[3]} if op == 'ask' else {})
        for n, x in ts.items():
            if imm and n == 'mailbox_timeout':
                ctx.prove(st, is_var(ctx, st, x, 'None'), 'with the timeouts asked for')
            else:
                ctx.prove(st, ctx.term(st, x) == f(o[n]), 'with the timeouts asked for')
        b = zb(a[-1].e)
        ctx.prove(st, b if imm else z3.Not(b), 'waiting for room, or not, as asked')
        ctx.prove(st, gz(teq(ctx, st, v, r)), 'its outcome is reported')
    return finish


def set_finish(changed):
    def finish(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret' and st.ghost['made'] == (), 'nothing is sent before the request is awaited')
        if kind != 'ret':
            return
        for n, t in ctx.old.items():
            x = ctx.field(st, v, n)
            if n == changed:
                x = ctx.field(st, x, '0')
                ctx.prove(st, z3.And(is_var(ctx, st, x, 'Some'), ctx.term(st, ctx.payload(st, x, 'Some')) == ctx.term(st, ctx.args[1])), 'with the timeout given')
            else:
                ctx.prove(st, ctx.cterm(st, x) == t, 'and the rest is as it was')
    return finish


def new_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['made'] == (), 'nothing is sent before the request is awaited')
    if kind == 'ret':
        ctx.prove(st, gz(teq(ctx, st, ctx.field(st, v, 'actor_ref'), ctx.args[0])), 'the request is for that actor')
        ctx.prove(st, gz(teq(ctx, st, ctx.field(st, v, 'msg'), ctx.args[1])), 'the request carries that message')


def build(name, root, finish, setup=s_build):
    return Job(name, root, setup=setup, monitor=m_build, finish=finish, crate='remote', ghost={'made': ()},
               extra=[(r'^core::convert::Into::into$', h_into), (r'^request::(ask::remote_ask|tell::remote_tell)$', h_remote)])


BUILD = []
for op_, P_ in (('ask', r'request::ask::RemoteAskRequest'), ('tell', r'request::tell::RemoteTellRequest')):
    BUILD += [build(f'RemoteActorRef::{op_}', RRI + op_ + '$', new_finish, setup=None),
              build(f'remote {op_} mailbox_timeout', '^' + P_ + '::<.*>::mailbox_timeout$', set_finish('mailbox_timeout')),
              build(f'remote {op_} send', '^' + P_ + '::<.*>::send$', send_finish(op_, False)),
              build(f'remote {op_} try_send', '^' + P_ + '::<.*>::try_send$', send_finish(op_, True)),
              build(f'remote {op_} await', '^<' + P_ + r'<.*> as core::future::into_future::IntoFuture>::into_future$', send_finish(op_, False))]
BUILD.append(build('remote ask reply_timeout', r'^request::ask::RemoteAskRequest::<.*>::reply_timeout$', set_finish('reply_timeout')))


JOBS = BUILD + [
    remote_req('ask', 'Ask', True), remote_req('tell', 'Tell', False),
    swarm_link('link', 'Link', ('actor_id', 'sibbling_id'), [('actor_remote_id', 0), ('sibbling_remote_id', 1)]),
    swarm_link('unlink', 'Unlink', ('actor_id', 'sibbling_id'), [('sibbling_remote_id', 0)]),
    swarm_link('signal_link_died', 'SignalLinkDied', ('dead_actor_id', 'notified_actor_id', 'notified_actor_remote_id', 'stop_reason'), []),
]
