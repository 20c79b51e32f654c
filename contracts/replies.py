"""Replies: what a handler answers reaches the asker exactly once, unchanged, whoever sends it."""
from .base import *
from .errors import user_calls, m_calls, variant_of, downcasted, has_type, setup_arg, inside
from . import requests as rq
from .mailbox import is_sig, is_ok

CTX = r'^message::Context::<A, R>::'
RS = r'^reply::ReplySender::<R>::'


# ---- the reply type of a handler: functions of the reply (each implementation in kameo has its own contract below)
def h_fn(name):
    def h(eng, st, info):
        return ret(eng, st, eng.sym(st, eng.F(name, [V], V)(eng.term(st, info.args[0])), info.dest))
    h.__doc__ = f'Reply: {name}, a function of the reply'
    return h


def h_inner_err(eng, st, info):
    """Reply::downcast_err(e): event inner_err(e, result); any result"""
    r = eng.sym(st, eng.fresh('innerErr'), info.dest)
    eng.emit(st, 'inner_err', info.args[0], r)
    return ret(eng, st, r)


TRAIT = [(r'^reply::Reply::to_result$', h_fn('toResult')), (r'^reply::Reply::into_any_err$', h_fn('anyErr')), (r'^reply::Reply::into_value$', h_fn('intoValue')),
         (r'^reply::Reply::downcast_err$', h_inner_err), (r'^reply::Reply::downcast_ok$', h_fn('replyOk'))]


@fut('handle')
def f_handle(eng, st, fv, out):
    c, p = eng.deref(st, fv.args[2])
    eng.emit(st, 'handle', fv.args[1], eng.load(st, c, p), Ref(c, p))
    res = cancel_points(eng, st)
    s2 = st.fork()
    pl = Sym(eng.fresh('payload'), None)
    eng.emit(s2, 'handle_panicked', pl)
    res += eng.deliver(s2, 'panic', pl)
    # the handler may have taken the reply sender out of the context
    s3 = st.fork()
    r = eng.sym(st, eng.fresh('reply'), out)
    eng.emit(st, 'handle_done', r, False)
    v = eng.load(s3, c, p)
    i = [f[0] for f in ty(eng, v.tid)['variants'][0]['fields']].index('reply')
    ft = ty(eng, v.tid)['variants'][0]['fields'][i][1]
    res += ret(eng, st, r)
    eng.store(s3, c, tuple(p) + (('f', None, i, ft),), none(eng, ft))
    r3 = eng.sym(s3, eng.fresh('reply'), out)
    eng.emit(s3, 'handle_done', r3, True)
    return res + ret(eng, s3, r3)


def h_handle(eng, st, info):
    """Message::handle: any reply, may panic, may take the reply sender out of the context"""
    return ret(eng, st, mkfut('handle', *info.args))


HANDLE = [(r'^message::Message::handle$', h_handle)]


def replies(ctx, st, name, args):
    g = st.ghost
    if name == 'reply':
        g['replies'] += ((ctx.term(st, args[0]), opened(ctx, st, args[1])),)
    elif name == 'inner_err':
        ctx.prove(st, deep_eq(ctx, st, args[0], ctx.arg), 'the very error is looked into')
        g['inner'] += (args[1],)
    elif name == 'handle':
        g['handled'] += ((args[0], args[1]),)
    elif name == 'handle_done':
        g['reply'], g['taken'] = ctx.term(st, args[0]), args[1]
    elif name == 'handle_panicked':
        g['panicked'] = ctx.term(st, args[0])


def opened(ctx, st, value):
    """(kind, what is in the box) of a value put into a reply slot"""
    n = variant_of(ctx, st, value)
    if n is None:
        return None, None
    p = ctx.payload(st, value, n)
    if n == 'Err':
        if ctx.is_variant(st, p, 'HandlerError') is not True:
            return None, None
        p = ctx.payload(st, p, 'HandlerError')
    b = ctx.content(st, p)
    return (n, ctx.term(st, st.heap[b.cell])) if isinstance(b, BoxV) else (None, None)


def sent_value(ctx, st, value, reply):
    """condition: `value`, put into the reply slot, is the boxed form of the result of `reply` (a term)"""
    n, x = value
    if n is None:
        return z3.BoolVal(False)
    res = ctx.eng.sym(st, ctx.eng.F('toResult', [V], V)(reply), ctx.res_tid)
    return z3.And(gz(ctx.is_variant(st, res, n)), gz(ctx.eq(st, x, ctx.payload(st, res, n))))


# ---- ReplySender
def s_sender(ctx, st, args):
    st.ghost.update(replies=(), handled=())
    ctx.tx = ctx.term(st, ctx.field(st, args[0], 'tx'))
    ctx.value = ctx.term(st, args[1]) if len(args) > 1 else None
    ctx.res_tid = result_tid(ctx, '<R as reply::Reply>::Ok', '<R as reply::Reply>::Error')


def result_tid(ctx, ok, err):
    for i, x in enumerate(ctx.P.types):
        if x['k'] == 'adt' and x['path'].endswith('result::Result'):
            a = [ctx.P.t(k)['s'] for k in x['args'] if isinstance(k, int)]
            if a == [ok, err]:
                return i
    raise Unsupported(f'no type Result<{ok}, {err}>')


def f_send(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    ctx.prove(st, len(g['replies']) == 1, 'one reply is sent')
    if len(g['replies']) == 1:
        ctx.prove(st, gz(ctx.eq(st, g['replies'][0][0], ctx.tx)), "to the asker's slot")
        ctx.prove(st, sent_value(ctx, st, g['replies'][0][1], ctx.value), 'the reply, as it is')


def f_same_tx(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and not st.ghost['replies'], 'nothing is sent')
    if kind == 'ret':
        tx = ctx.field(st, v, 'tx') if ctx.P.t(v.tid)['path'].endswith('ReplySender') else v
        ctx.prove(st, gz(ctx.eq(st, tx, ctx.tx)), 'it is the same slot')


def s_new(ctx, st, args):
    st.ghost.update(replies=(), handled=())
    ctx.tx = ctx.term(st, args[0])


# ---- implementations of Reply
def i_result(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, deep_eq(ctx, st, v, ctx.arg), 'the result itself')


def i_result_err(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        any_err(ctx, st, v, ctx.arg)


def any_err(ctx, st, v, res):
    n = variant_of(ctx, st, v)
    ctx.prove(st, n is not None and gz(ctx.is_variant(st, res, 'Err' if n == 'Some' else 'Ok')), 'Some exactly for an error')
    if n == 'Some':
        b = ctx.content(st, ctx.payload(st, v, 'Some'))
        ctx.prove(st, gz(isinstance(b, BoxV) and ctx.eq(st, st.heap[b.cell], ctx.payload(st, res, 'Err'))), 'the error itself')


def i_ok(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and is_ok(ctx, st, v), 'always Ok')
    if kind == 'ret' and ctx.is_variant(st, v, 'Ok') is True:
        ctx.prove(st, deep_eq(ctx, st, ctx.payload(st, v, 'Ok'), ctx.arg), 'the value itself')


def i_none(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'None')), 'never an error')


def i_self(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, deep_eq(ctx, st, v, ctx.arg), 'the value itself')


def fwd_res(ctx, st):
    return ctx.field(st, ctx.arg, 'res')


def i_fwd(ctx, st, kind, v):
    r = fwd_res(ctx, st)
    if kind != 'ret':
        ctx.prove(st, gz(ctx.is_variant(st, r, 'Ok')), 'panics only if the message was forwarded')
        return
    ctx.prove(st, z3.And(z3.Not(is_ok(ctx, st, v)), gz(ctx.is_variant(st, r, 'Err'))), 'an error exactly if the message could not be forwarded')
    if ctx.is_variant(st, v, 'Err') is True:
        ctx.prove(st, deep_eq(ctx, st, ctx.payload(st, r, 'Err'), ctx.payload(st, v, 'Err')), 'the error itself')


def i_fwd_err(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        any_err(ctx, st, v, fwd_res(ctx, st))


def i_down_ok(want):
    def f(ctx, st, kind, v):
        t = ctx.term(st, ctx.arg)
        has = has_type(ctx, t, want)
        if kind != 'ret':
            ctx.prove(st, z3.Not(has), 'panics only if the box holds another type')
            return
        ctx.prove(st, has, 'typed only if the box holds that type')
        ctx.prove(st, gz(ctx.eq(st, ctx.eng.F('unbox', [V], V)(t), v)), 'the payload is what is in the box')
    return f


def payload_of(ctx, st, e, n):
    """(condition that there is one, the payload) of an error of kind n"""
    t = ctx.P.t(e.tid)
    vi = [i for i, x in enumerate(t['variants']) if x['name'] == n][0]
    if not t['variants'][vi]['fields']:
        return None, None
    p = ctx.eng.field_of(st, e, vi, 0, t['variants'][vi]['fields'][0][1])
    if n == 'Timeout':
        return gz(ctx.is_variant(st, p, 'Some')), ctx.eng.field_of(st, p, 1, 0, field_tid(ctx.eng, p.tid, 'Some'))
    return z3.BoolVal(True), p


KINDS = ('ActorNotRunning', 'ActorStopped', 'MailboxFull', 'HandlerError', 'Timeout')


def typed(ctx, st, msg, err):
    """condition: what is in the boxed error is of the given types"""
    cs = []
    for n in KINDS:
        c, p = payload_of(ctx, st, ctx.arg, n)
        ok = z3.BoolVal(True) if p is None else z3.Implies(c, has_type(ctx, ctx.term(st, p), err if n == 'HandlerError' else msg))
        cs.append(z3.Implies(gz(ctx.is_variant(st, ctx.arg, n)), ok))
    return z3.And(*cs)


def i_down_err(msg, err):
    def f(ctx, st, kind, v):
        if kind != 'ret':
            ctx.prove(st, z3.Not(typed(ctx, st, msg, err)), 'panics only if the box holds another type')
            return
        ctx.prove(st, typed(ctx, st, msg, err), 'typed only if the box holds that type')
        unboxed(ctx, st, v)
    return f


def unboxed(ctx, st, v):
    n = variant_of(ctx, st, v)
    ctx.prove(st, n is not None and gz(ctx.is_variant(st, ctx.arg, n)), 'the error is of the same kind')
    if n in (None, 'ActorStopped'):
        return
    c, a = payload_of(ctx, st, ctx.arg, n)
    r = ctx.payload(st, v, n)
    if n == 'Timeout':
        m = variant_of(ctx, st, r)
        ctx.prove(st, m is not None and c == z3.BoolVal(m == 'Some'), 'a timeout has a message exactly when it had one')
        if m != 'Some':
            return
        r = ctx.payload(st, r, 'Some')
    ctx.prove(st, gz(ctx.eq(st, ctx.eng.F('unbox', [V], V)(ctx.term(st, a)), r)), 'the payload is what is in the box')


def i_fwd_down_err(ctx, st, kind, v):
    """the error of an asker whose message was forwarded: the failure to forward, or else what the last handler answered"""
    own = typed(ctx, st, 'N', 'error::SendError<M, <R as reply::Reply>::Error>')
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    if ctx.eng.entails(st, own):
        unboxed(ctx, st, v)
        return
    ctx.prove(st, z3.Not(own), 'the two kinds of error are told apart')
    n = variant_of(ctx, st, v)
    ctx.prove(st, n is not None and len(st.ghost['inner']) == 1, 'the kind is determined')
    if n is None or not st.ghost['inner']:
        return
    e = st.ghost['inner'][0]
    ctx.prove(st, gz(ctx.is_variant(st, e, n)), 'the inner error keeps its kind')
    if n == 'ActorStopped':
        return
    a, r = ctx.eng.field_of(st, e, KINDS.index(n), 0, ctx.P.t(e.tid)['variants'][KINDS.index(n)]['fields'][0][1]), ctx.payload(st, v, n)
    if n == 'HandlerError':
        ctx.prove(st, gz(ctx.is_variant(st, r, 'HandlerError')), 'the inner error comes back as a handler error')
        r = ctx.payload(st, r, 'HandlerError')
    ctx.prove(st, deep_eq(ctx, st, a, r), 'the inner error itself comes back')


# ---- Context
def s_ctx(ctx, st, args):
    st.ghost.update(replies=(), handled=())
    ctx.c = args[0]
    r = ctx.field(st, args[0], 'reply')
    ctx.had = r
    ctx.tx = ctx.term(st, ctx.field(st, ctx.eng.field_of(st, r, 1, 0, field_tid(ctx.eng, r.tid, 'Some')), 'tx'))
    ctx.hadc = gz(ctx.is_variant(st, r, 'Some'))
    ctx.value = ctx.term(st, args[1]) if len(args) > 1 else None
    ctx.aref = ctx.field(st, args[0], 'actor_ref')
    ctx.res_tid = next((i for i, x in enumerate(ctx.P.types) if x['k'] == 'adt' and x['path'].endswith('result::Result') and
                        [ctx.P.t(k)['s'] for k in x['args'] if isinstance(k, int)] == ['<<R as reply::Reply>::Value as reply::Reply>::Ok', '<<R as reply::Reply>::Value as reply::Reply>::Error']), None)


def slot_left(ctx, st):
    return ctx.field(st, ctx.c, 'reply')


def f_ctx_reply(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    ctx.prove(st, ctx.hadc == gz(len(g['replies']) == 1) if len(g['replies']) < 2 else False, 'the reply is sent, once, if someone asked')
    ctx.prove(st, gz(ctx.is_variant(st, slot_left(ctx, st), 'None')), 'and no second one can be')
    if len(g['replies']) == 1:
        ctx.prove(st, gz(ctx.eq(st, g['replies'][0][0], ctx.tx)), "to the asker's slot")
        ctx.prove(st, sent_value(ctx, st, g['replies'][0][1], ctx.value), 'the reply, as it is')


def f_ctx_sender(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and not g['replies'], 'nothing is sent')
    if kind != 'ret':
        return
    s = ctx.payload(st, v, None, 1) if not isinstance(v, Agg) else v.fields[1]
    ctx.prove(st, gz(ctx.is_variant(st, s, 'Some')) == ctx.hadc, 'a sender exactly if someone asked')
    ctx.prove(st, gz(ctx.is_variant(st, slot_left(ctx, st), 'None')), 'and no second one can be')
    if ctx.is_variant(st, s, 'Some') is not False:
        ctx.prove(st, z3.Implies(ctx.hadc, gz(ctx.eq(st, ctx.field(st, ctx.payload(st, s, 'Some'), 'tx'), ctx.tx))), "it is the asker's slot")


def f_ctx_ref(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and deep_eq(ctx, st, v, ctx.aref), 'the actor handling the message')


def f_ctx_new(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and z3.And(deep_eq(ctx, st, ctx.field(st, v, 'actor_ref'), ctx.args[0]), deep_eq(ctx, st, ctx.field(st, v, 'reply'), ctx.args[1])), 'as given')


# ---- forwarding
def s_fwd(ctx, st, args):
    s_ctx(ctx, st, args[:1])
    ctx.ref = args[1]
    ctx.msg = ctx.term(st, args[2])
    ctx.timeouts = {}
    rq.common(ctx, st)
    st.ghost.update(replies=(), handled=())


def f_fwd(how):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        asked = ctx.eng.entails(st, ctx.hadc)
        if not asked:
            ctx.prove(st, z3.Not(ctx.hadc), 'whether someone asked is known')
        if not rq.sent_ok(ctx, st, how, (lambda x: ctx.eq(st, x, ctx.tx)) if asked else None):
            return
        ctx.prove(st, not g['waits'] and not g['replies'], 'no reply is sent or waited for here')
        r = ctx.field(st, v, 'res')
        ctx.prove(st, is_ok(ctx, st, r) == gz(g['sent']), 'Ok exactly when the message was forwarded')
        left = slot_left(ctx, st)
        if g['sent']:
            ctx.prove(st, gz(ctx.is_variant(st, left, 'None')), 'the asker is answered by the other actor, and by nobody else')
        else:
            rq.refused(ctx, st, r, rq.back_msg)
            ctx.prove(st, gz(ctx.is_variant(st, left, 'Some' if asked else 'None')), 'the asker can still be told')
            if asked and ctx.is_variant(st, left, 'Some') is not False:
                ctx.prove(st, gz(ctx.eq(st, ctx.field(st, ctx.payload(st, left, 'Some'), 'tx'), ctx.tx)), 'through its own slot')
    return f


# ---- handling one message
def s_dyn(ctx, st, args):
    st.ghost.update(replies=(), handled=(), reply=None, taken=None, panicked=None)
    b = ctx.content(st, args[0])
    ctx.msg = ctx.eng.term(st, st.heap[b.cell]) if isinstance(b, BoxV) else ctx.eng.F('unbox', [V], V)(ctx.term(st, b))
    ctx.aref = args[2]
    ctx.slot = args[3]
    ctx.res_tid = None
    for i, x in enumerate(ctx.P.types):
        if x['k'] == 'adt' and x['path'].endswith('result::Result'):
            a = [ctx.P.t(k)['s'] for k in x['args'] if isinstance(k, int)]
            if len(a) == 2 and a[0].endswith('::Ok') and 'Value' in a[0] and 'message::Message<T>' in a[0] and a[0].replace('::Ok', '::Error') == a[1]:
                ctx.res_tid = i


def f_dyn(ctx, st, kind, v):
    g = st.ghost
    h = g['handled']
    ctx.prove(st, len(h) == 1, 'the handler runs once')
    if len(h) != 1:
        return
    ctx.prove(st, gz(ctx.eq(st, h[0][0], ctx.msg)), 'with the message')
    c = h[0][1]
    ctx.prove(st, deep_eq(ctx, st, ctx.field(st, c, 'actor_ref'), ctx.aref), 'and the actor in its context')
    asked = gz(ctx.is_variant(st, ctx.slot, 'Some'))
    ctx.prove(st, gz(ctx.is_variant(st, ctx.field(st, c, 'reply'), 'Some')) == asked, 'and a reply sender exactly if someone asked')
    if g['panicked'] is not None:
        ctx.prove(st, kind == 'panic' and not g['replies'] and gz(ctx.eq(st, g['panicked'], v)), 'a panic passes on unchanged, nothing is answered')
        return
    ctx.prove(st, kind == 'ret', 'never panics by itself')
    if kind != 'ret':
        return
    if g['taken'] or not ctx.eng.entails(st, asked):
        ctx.prove(st, not g['replies'], 'nothing is answered on behalf of the handler')
        e = ctx.eng.sym(st, ctx.eng.F('anyErr', [V], V)(g['reply']), any_err_tid(ctx))
        ctx.prove(st, gz(ctx.is_variant(st, e, 'None')) == is_ok(ctx, st, v), 'an error nobody waits for is reported as such')
        if ctx.is_variant(st, v, 'Err') is True:
            ctx.prove(st, gz(ctx.eq(st, ctx.payload(st, v, 'Err'), ctx.payload(st, e, 'Some'))), 'the very error')
    else:
        ctx.prove(st, is_ok(ctx, st, v), 'an answered message is no error')
        ctx.prove(st, len(g['replies']) == 1, 'the asker is answered once')
        if len(g['replies']) == 1:
            ctx.prove(st, gz(ctx.eq(st, g['replies'][0][0], ctx.payload(st, ctx.slot, 'Some'))), "in the asker's slot")
            ctx.prove(st, sent_value(ctx, st, g['replies'][0][1], ctx.eng.F('intoValue', [V], V)(g['reply'])), 'with the reply of the handler')


def any_err_tid(ctx):
    for i, x in enumerate(ctx.P.types):
        if x['k'] == 'adt' and x['path'].endswith('option::Option') and 'dyn reply::ReplyError' in x['s'] and x['s'].count('<') == 2:
            return i
    raise Unsupported('type Option<Box<dyn ReplyError>>')


INF = r'^<(?!core::result|reply::).* as reply::Reply>::'
DEL, FWD, RES = r'^<reply::DelegatedReply<R> as reply::Reply>::', r'^<reply::ForwardedReply<M, R> as reply::Reply>::', r'^<core::result::Result<T, E> as reply::Reply>::'
FX = [x for x in rq.EXTRA if 'Reply' not in x[0]] + TRAIT
JOBS = [
    Job('ReplySender::new', RS + 'new$', setup=s_new, monitor=replies, finish=f_same_tx, expect=('it is the same slot',)),
    Job('ReplySender::boxed', RS + 'boxed$', setup=s_sender, monitor=replies, finish=f_same_tx, expect=('it is the same slot',)),
    Job('ReplySender::cast', RS + 'cast$', setup=s_sender, monitor=replies, finish=f_same_tx, expect=('it is the same slot',)),
    Job('ReplySender::send', RS + 'send$', setup=s_sender, monitor=replies, finish=f_send, extra=TRAIT, expect=('the reply, as it is',)),
    Job('Result to_result', RES + 'to_result$', setup=setup_arg, finish=i_result),
    Job('Result into_value', RES + 'into_value$', setup=setup_arg, finish=i_result),
    Job('Result into_any_err', RES + 'into_any_err$', setup=setup_arg, finish=i_result_err, expect=('the error itself',)),
    Job('values to_result', INF + 'to_result$', setup=setup_arg, finish=i_ok, each=True),
    Job('values into_any_err', INF + 'into_any_err$', setup=setup_arg, finish=i_none, each=True),
    Job('values into_value', INF + 'into_value$', setup=setup_arg, finish=i_self, each=True),
    Job('DelegatedReply into_any_err', DEL + 'into_any_err$', setup=setup_arg, finish=i_none),
    Job('ForwardedReply to_result', FWD + 'to_result$', setup=setup_arg, finish=i_fwd, expect=('the error itself',)),
    Job('ForwardedReply into_value', FWD + 'into_value$', setup=setup_arg, finish=i_fwd, expect=('the error itself',)),
    Job('ForwardedReply into_any_err', FWD + 'into_any_err$', setup=setup_arg, finish=i_fwd_err, expect=('the error itself',)),
    Job('ForwardedReply downcast_ok', FWD + 'downcast_ok$', setup=setup_arg, finish=i_down_ok('<R as reply::Reply>::Ok'), expect=('the payload is what is in the box',)),
    Job('ForwardedReply downcast_err', FWD + 'downcast_err$', setup=lambda ctx, st, a: (setup_arg(ctx, st, a), st.ghost.update(inner=())), monitor=replies, finish=i_fwd_down_err, extra=TRAIT,
        expect=('the payload is what is in the box', 'the inner error comes back as a handler error')),
    Job('default downcast_ok', r'^reply::Reply::downcast_ok$', setup=setup_arg, finish=i_down_ok('<Self as reply::Reply>::Ok'), expect=('the payload is what is in the box',)),
    Job('default downcast_err', r'^reply::Reply::downcast_err$', setup=setup_arg, finish=i_down_err('M', '<Self as reply::Reply>::Error'), expect=('the payload is what is in the box',)),
    Job('Context::new', CTX + 'new$', setup=lambda ctx, st, a: None, finish=f_ctx_new),
    Job('Context::actor_ref', CTX + 'actor_ref$', setup=s_ctx, monitor=replies, finish=f_ctx_ref),
    Job('Context::reply', CTX + 'reply$', setup=s_ctx, monitor=replies, finish=f_ctx_reply, extra=TRAIT, expect=('the reply, as it is',)),
    Job('Context::reply_sender', CTX + 'reply_sender$', setup=s_ctx, monitor=replies, finish=f_ctx_sender, expect=("it is the asker's slot",)),
] + [Job('Context::' + n, CTX + n + '$', setup=s_fwd, monitor=lambda ctx, st, name, args: (rq.monitor(ctx, st, name, args), replies(ctx, st, name, args)), finish=f_fwd(how), extra=FX,
         expect=('through its own slot', 'the asker is answered by the other actor, and by nobody else'))
     for n, how in (('forward', 'wait'), ('try_forward', 'try'), ('blocking_forward', 'blocking'))] + [
    Job('handle_dyn', r'^<T as message::DynMessage<A>>::handle_dyn$', setup=s_dyn, monitor=replies, finish=f_dyn, extra=TRAIT + HANDLE,
        expect=('with the reply of the handler', 'the very error', 'a panic passes on unchanged, nothing is answered')),
    Job('DynMessage::as_any', r'as message::DynMessage<A>>::as_any$', setup=setup_arg,
        finish=lambda ctx, st, kind, v: ctx.prove(st, kind == 'ret' and gz(ctx.cterm(st, v) == ctx.cterm(st, ctx.arg)), 'the message itself')),
]
