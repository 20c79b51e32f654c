"""Requests: ask, tell and forward put one message into the right mailbox and report what became of it."""
from .base import *
from .mailbox import on_chan, is_sig, err_is, is_ok
from .refs import DYN, h_dyn
from .errors import user_calls

AR = r'^actor::actor_ref::ActorRef::<A>::'
ASK = r'^request::ask::AskRequest::<.*>::'
TELL = r'^request::tell::TellRequest::<.*>::'
RTELL = r'^request::tell::RecipientTellRequest::<.*>::'


def h_into(eng, st, info):
    """Into::into of a request's timeout: some Option<Duration>, a function of the timeout, None for WithoutRequestTimeout (its impls are jobs below)"""
    r = info.callee.get('res') or {}
    if r.get('key') and 'Duration' not in ty(eng, info.dest)['s']:
        # no timeout: the conversion of the types it is of
        eng.push_fn(st, r['key'], info.args)
        return [st]
    if 'WithoutRequestTimeout' in ty(eng, getattr(info.args[0], 'tid', None) if getattr(info.args[0], 'tid', None) is not None else info.dest)['s']:
        return ret(eng, st, none(eng, info.dest))
    f = eng.F('intoOpt', [V], V)
    return ret(eng, st, eng.sym(st, f(eng.term(st, info.args[0])), info.dest))


def h_downcast_ok(eng, st, info):
    """Reply::downcast_ok(b): the reply inside b (proved in replies.py)"""
    return ret(eng, st, eng.sym(st, eng.F('replyOk', [V], V)(eng.term(st, info.args[0])), info.dest))


def h_downcast_err(eng, st, info):
    """Reply::downcast_err(e): the typed form of e (proved in replies.py)"""
    return ret(eng, st, eng.sym(st, eng.F('replyErr', [V], V)(eng.term(st, info.args[0])), info.dest))


REPLY = [(r'^reply::Reply::downcast_ok$', h_downcast_ok), (r'^reply::Reply::downcast_err$', h_downcast_err)]
EXTRA = [(r'^core::convert::Into::into$', h_into)] + REPLY


def msg_parts(ctx, st, v):
    t = ctx.P.t(v.tid)
    names = [[f[0] for f in x['fields']] for x in t['variants'] if x['name'] == 'Message'][0]
    return {n: ctx.payload(st, v, 'Message', i) for i, n in enumerate(names)}


def unbox(ctx, st, v):
    v = ctx.content(st, v)
    return st.heap[v.cell] if isinstance(v, BoxV) and v.cell in st.heap else v


def setup(ctx, st, args):
    """the request: which actor, which message, which timeouts"""
    r = args[0]
    f = lambda n: ctx.field(st, r, n)
    ctx.ref = f('actor_ref')
    ctx.msg = ctx.term(st, f('msg'))
    ctx.timeouts = {n: ctx.term(st, f(n)) for n in ('mailbox_timeout', 'reply_timeout') if n in [x[0] for x in ctx.P.t(ctx.content(st, r).tid)['variants'][0]['fields']]}
    common(ctx, st)
    ctx.fwd = ctx.term(st, ctx.field(st, args[1], 'tx')) if len(args) > 1 else None


def common(ctx, st):
    ctx.mb = ctx.field(st, ctx.ref, 'mailbox_sender')
    ctx.refv = ctx.content(st, ctx.ref)
    st.ghost.update(n=0, sent=None, how=None, dur=None, value=None, err=None, chan=None, waits=(), got=None, lost=False, timing=None, elapsed=False, other=(), fut=None, rdur=None)


def monitor(ctx, st, name, args):
    g = st.ghost
    if name == 'send_attempt':
        g['n'] += 1
        ctx.prove(st, g['n'] == 1, 'the message is sent once')
        g['chan'], g['value'], g['how'] = ctx.term(st, args[0]), args[1], args[2]
        g['dur'] = ctx.term(st, args[3]) if len(args) > 3 else None
        if ctx.is_variant(st, args[1], 'Message') is not False:
            g['msgt'] = ctx.term(st, unbox(ctx, st, msg_parts(ctx, st, args[1])['message']))
    elif name == 'send':
        g['sent'] = True
    elif name == 'send_refused':
        g['sent'], g['err'] = False, args[2]
    elif name == 'reply_wait':
        ctx.prove(st, g['sent'] is True, 'a reply is waited for only once the message is in the mailbox')
        ctx.prove(st, len(g['waits']) == 0, 'one reply is waited for')
        g['waits'] += ((ctx.term(st, args[0]), args[1]),)
        g['rdur'] = g['timing']
    elif name == 'reply_received':
        g['got'] = args[1]
    elif name == 'reply_lost':
        g['lost'] = True
    elif name == 'timeout_start':
        g['timing'] = ctx.term(st, args[0])
    elif name == 'scope_cancelled':
        g['elapsed'] = True
    elif name in ('abort', 'spawn', 'reply', 'chan_close'):
        g['other'] += (name,)


def timeout_of(ctx, st, name):
    """None (the request has no such timeout) or the Option<Duration> it asks for"""
    t = ctx.timeouts.get(name)
    return None if t is None else ctx.eng.sym(st, ctx.eng.F('intoOpt', [V], V)(t), opt_dur(ctx))


def opt_dur(ctx):
    return next(i for i, t in enumerate(ctx.P.types) if t['s'] in ('core::option::Option<core::time::Duration>', 'std::option::Option<std::time::Duration>', 'Option<Duration>') or
                (t['k'] == 'adt' and t['path'].endswith('option::Option') and t['args'] and isinstance(t['args'][0], int) and ctx.P.t(t['args'][0]).get('path', '').endswith('time::Duration')))


def sent_ok(ctx, st, how, reply):
    """the obligations on what is put into the mailbox"""
    g = st.ghost
    ctx.prove(st, g['n'] == 1 and g['other'] == (), 'the message is sent once, and nothing else happens')
    if g['value'] is None:
        return False
    ctx.prove(st, on_chan(ctx, st, ctx.mb, g['chan']), "into that actor's mailbox")
    ctx.prove(st, is_sig(ctx, st, g['value'], 'Message'), 'as a message')
    p = msg_parts(ctx, st, g['value'])
    ctx.prove(st, gz(g.get('msgt') is not None and ctx.eq(st, g['msgt'], ctx.msg)), 'it is the message given')
    ctx.prove(st, deep_eq(ctx, st, p['actor_ref'], ctx.refv), 'addressed to that actor')
    cur = [x for k, x in g.items() if isinstance(k, str) and k.startswith('tls:') and x is not None]
    me = seq_eq(ctx, st, cur[0], ctx.field(st, ctx.ref, 'id')) if cur and not g.get('tls_unset') else z3.BoolVal(False)
    ctx.prove(st, zb(p['sent_within_actor'].e) == me, 'marked as sent by the actor itself exactly when it is')
    if reply is None:
        ctx.prove(st, gz(ctx.is_variant(st, p['reply'], 'None')), 'with no reply slot')
    else:
        ctx.prove(st, z3.And(gz(ctx.is_variant(st, p['reply'], 'Some')), gz(reply(ctx.payload(st, p['reply'], 'Some')))) if ctx.is_variant(st, p['reply'], 'Some') is not False else False, "with the caller's reply slot")
    # how it waits for space
    t = timeout_of(ctx, st, 'mailbox_timeout') if how == 'wait' else None
    bounded = gz(ctx.is_variant(st, ctx.content(st, ctx.mb), 'Bounded'))
    if t is not None:
        want = z3.If(bounded, z3.If(gz(ctx.is_variant(st, t, 'Some')), g['how'] == 'timeout' and gz(g['dur'] == ctx.term(st, ctx.payload(st, t, 'Some'))), z3.BoolVal(g['how'] == 'wait')), z3.BoolVal(g['how'] == 'unbounded'))
    else:
        want = z3.If(bounded, z3.BoolVal(g['how'] == how), z3.BoolVal(g['how'] == 'unbounded'))
    ctx.prove(st, want, 'it waits for space exactly as asked')
    return True


def refused(ctx, st, v, back):
    """the message did not get into the mailbox: the error says why and gives back what it can"""
    g = st.ghost
    e = ctx.payload(st, v, 'Err') if ctx.is_variant(st, v, 'Err') is not False else None
    ctx.prove(st, z3.Not(is_ok(ctx, st, v)), 'an undelivered message is an error')
    ctx.prove(st, not g['waits'], 'nothing is waited for then')
    if e is None:
        return
    name = {'full': 'MailboxFull', 'timeout': 'Timeout', 'closed': 'ActorNotRunning'}[g['err']]
    ctx.prove(st, err_is(ctx, st, e, name), 'the error says why it was not delivered')
    if back and ctx.is_variant(st, e, name) is not False:
        p = ctx.payload(st, e, name)
        if name == 'Timeout':
            ctx.prove(st, gz(ctx.is_variant(st, p, 'Some')), 'the undelivered message is handed back')
            p = ctx.payload(st, p, 'Some') if ctx.is_variant(st, p, 'Some') is not False else p
        back(ctx, st, p)


def back_msg(ctx, st, p):
    ctx.prove(st, gz(ctx.eq(st, p, ctx.msg)), 'the undelivered message is handed back')


def back_fwd(ctx, st, p):
    ctx.prove(st, isinstance(p, Agg) and len(p.fields) == 2 and z3.And(gz(ctx.eq(st, p.fields[0], ctx.msg)), gz(ctx.eq(st, ctx.field(st, p.fields[1], 'tx'), ctx.fwd))), 'the undelivered message and the reply slot are handed back')


def tell_finish(how):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret' or not sent_ok(ctx, st, how, None):
            return
        ctx.prove(st, is_ok(ctx, st, v) == gz(g['sent']), 'Ok exactly when the message is in the mailbox')
        ctx.prove(st, not g['waits'], 'no reply is waited for')
        if not g['sent']:
            refused(ctx, st, v, back_msg)
    return f


def fwd_finish(how):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret' or not sent_ok(ctx, st, how, lambda x: ctx.eq(st, x, ctx.fwd)):
            return
        ctx.prove(st, is_ok(ctx, st, v) == gz(g['sent']), 'Ok exactly when the message is in the mailbox')
        ctx.prove(st, not g['waits'], 'no reply is waited for')
        if not g['sent']:
            refused(ctx, st, v, back_fwd)
    return f


def outcome(ctx, st, v, slot, how, rt):
    """what the caller gets once the message is in the mailbox"""
    g = st.ghost
    if g['elapsed'] and not g['waits']:
        ctx.prove(st, False, 'the reply slot is waited on')
        return
    ctx.prove(st, len(g['waits']) == 1 and gz(g['waits'][0][0] == slot), 'it waits for the reply to this very message')
    if not g['waits']:
        return
    if rt is None:
        ctx.prove(st, g['rdur'] is None, 'it waits as long as asked')
    else:
        ctx.prove(st, gz(ctx.is_variant(st, rt, 'Some')) == gz(g['rdur'] is not None), 'it waits as long as asked')
        if g['rdur'] is not None:
            ctx.prove(st, gz(g['rdur'] == ctx.term(st, ctx.payload(st, rt, 'Some'))), 'it waits as long as asked')
    if g['elapsed']:
        e = ctx.payload(st, v, 'Err')
        ctx.prove(st, z3.And(z3.Not(is_ok(ctx, st, v)), err_is(ctx, st, e, 'Timeout'), gz(ctx.is_variant(st, ctx.payload(st, e, 'Timeout'), 'None'))), 'too late: a timeout, without the message, which is in the mailbox')
    elif g['lost']:
        ctx.prove(st, z3.And(z3.Not(is_ok(ctx, st, v)), err_is(ctx, st, ctx.payload(st, v, 'Err'), 'ActorStopped')), 'no reply ever: the actor stopped')
    else:
        r = g['got']
        ctx.prove(st, r is not None and is_ok(ctx, st, v) == gz(ctx.is_variant(st, r, 'Ok')), 'Ok exactly when the handler answered Ok')
        if r is None:
            return
        if ctx.is_variant(st, v, 'Ok') is not False:
            ctx.prove(st, z3.Implies(gz(ctx.is_variant(st, r, 'Ok')), gz(ctx.eq(st, ctx.payload(st, v, 'Ok'), ctx.eng.F('replyOk', [V], V)(ctx.term(st, ctx.payload(st, r, 'Ok')))))), "the handler's answer comes back")
        if ctx.is_variant(st, v, 'Err') is not False:
            ctx.prove(st, z3.Implies(gz(ctx.is_variant(st, r, 'Err')), gz(ctx.eq(st, ctx.payload(st, v, 'Err'), ctx.eng.F('replyErr', [V], V)(ctx.term(st, ctx.payload(st, r, 'Err')))))), "the handler's error comes back")


def slot_of(ctx, st):
    """(is the reply field a fresh slot, the receiving end of that slot)"""
    p = msg_parts(ctx, st, st.ghost['value'])
    if ctx.is_variant(st, p['reply'], 'Some') is False:
        return None
    t = ctx.term(st, ctx.payload(st, p['reply'], 'Some'))
    if t.decl().name() != 'otx':
        return None
    return ctx.eng.F('orx', [V], V)(t.arg(0))


def ask_finish(how, pending=False):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret' or g['value'] is None:
            ctx.prove(st, g['value'] is not None, 'the message is sent once, and nothing else happens')
            return
        slot = slot_of(ctx, st)
        if not sent_ok(ctx, st, how, lambda x: slot is not None):
            return
        if not g['sent']:
            refused(ctx, st, v, None if pending else back_msg)
            return
        if slot is not None:
            outcome(ctx, st, v, slot, how, timeout_of(ctx, st, 'reply_timeout') if how != 'blocking' else None)
    return f


def pend(ctx, st, v):
    """enqueue returns a PendingReply: go on by waiting for it"""
    if ctx.is_variant(st, v, 'Ok') is not True:
        return None
    ctx.prove(st, st.ghost['sent'] is True, 'a pending reply exists only once the message is in the mailbox')
    p = ctx.payload(st, v, 'Ok')
    t = ctx.P.t(p.tid)
    if t['path'].endswith('BlockingPendingReply'):
        return ('call', ctx.field(st, p, 'f'), [])
    return ('poll', ctx.field(st, p, 'fut'))


# ------------------------------------------------------------------ making requests
def make_setup(ctx, st, args):
    ctx.ref = args[0]
    ctx.msg = ctx.term(st, args[1])
    common(ctx, st)


def make_finish(fields):
    def f(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret' and st.ghost['n'] == 0, 'nothing is sent before the request is awaited')
        if kind != 'ret':
            return
        ctx.prove(st, deep_eq(ctx, st, ctx.field(st, v, 'actor_ref'), ctx.ref), 'the request is for that actor')
        ctx.prove(st, gz(ctx.eq(st, ctx.field(st, v, 'msg'), ctx.msg)), 'the request carries that message')
    return f


def opt_finish(changed):
    def f(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret' and st.ghost['n'] == 0, 'nothing is sent before the request is awaited')
        if kind != 'ret':
            return
        ctx.prove(st, deep_eq(ctx, st, ctx.field(st, v, 'actor_ref'), ctx.ref), 'the request is for the same actor')
        ctx.prove(st, gz(ctx.eq(st, ctx.field(st, v, 'msg'), ctx.msg)), 'the request carries the same message')
        for n, t in ctx.timeouts.items():
            x = ctx.field(st, v, n)
            if n == changed:
                o = ctx.field(st, x, '0')
                a = ctx.args[1]
                if ctx.P.t(ctx.body['locals'][2])['path'].endswith('option::Option'):
                    ctx.prove(st, deep_eq(ctx, st, o, a), 'with the timeout given')
                else:
                    ctx.prove(st, z3.And(gz(ctx.is_variant(st, o, 'Some')), gz(ctx.eq(st, ctx.payload(st, o, 'Some'), a))), 'with the timeout given')
            else:
                ctx.prove(st, gz(ctx.eq(st, x, t)), 'and the other timeout is unchanged')
    return f


def opt_setup(ctx, st, args):
    setup(ctx, st, args[:1])


def from_finish(want):
    def f(ctx, st, kind, v):
        a = ctx.args[0]
        ctx.prove(st, kind == 'ret' and want(ctx, st, a, v), 'the timeout is the one given')
    return f


def from_setup(ctx, st, args):
    st.ghost.update(n=0)


def w_maybe(ctx, st, a, v):
    if ctx.is_variant(st, v, 'Some') is False:
        return gz(ctx.is_variant(st, a, 'NoTimeout'))
    return z3.And(gz(ctx.is_variant(st, a, 'Timeout')), gz(ctx.is_variant(st, v, 'Some')), gz(ctx.eq(st, ctx.payload(st, v, 'Some'), ctx.payload(st, a, 'Timeout'))))


# ------------------------------------------------------------------ recipients
def rtell_setup(ctx, st, args):
    r = args[0]
    ctx.h = ctx.field(st, ctx.field(st, r, 'actor_ref'), 'handler')
    ctx.msg = ctx.term(st, ctx.field(st, r, 'msg'))
    ctx.timeouts = {'mailbox_timeout': ctx.term(st, ctx.field(st, r, 'mailbox_timeout'))}
    st.ghost.update(calls=(), r=None)


def rtell_monitor(ctx, st, name, args):
    g = st.ghost
    if name.startswith('dyn_') and name.endswith('_done'):
        g['r'] = args[0]
    elif name.startswith('dyn_'):
        g['calls'] += ((name, ctx.cterm(st, args[0]), ctx.term(st, args[1]), args[2] if len(args) > 2 else None),)


def rtell_finish(op):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and len(g['calls']) == 1 and g['calls'][0][0] == 'dyn_' + op, f'the actor behind the recipient is told once, by {op}')
        if len(g['calls']) != 1:
            return
        _, h, m, t = g['calls'][0]
        c, p = ctx.eng.deref(st, ctx.h)
        ctx.prove(st, h == ctx.term(st, ctx.eng.load(st, c, p)), 'that one actor')
        ctx.prove(st, m == ctx.msg, 'the message given')
        if op == 'tell':
            ctx.prove(st, t is not None and gz(ctx.eq(st, t, timeout_of(ctx, st, 'mailbox_timeout'))), 'with the timeout asked for')
        ctx.prove(st, g['r'] is not None and gz(ctx.eq(st, v, g['r'])), 'and its outcome is reported')
    return f


def h_setup(ctx, st, args):
    """tell/try_tell/blocking_tell of the actor behind a recipient"""
    ctx.ref = args[0]
    ctx.msg = ctx.term(st, args[1])
    ctx.timeouts = {}
    common(ctx, st)
    ctx.opt = args[2] if len(args) > 2 else None


def timeout_arg_finish(how):
    inner = tell_finish(how)

    def f(ctx, st, kind, v):
        if ctx.opt is not None:
            g = st.ghost
            bounded = gz(ctx.is_variant(st, ctx.content(st, ctx.mb), 'Bounded'))
            o = ctx.opt
            s = gz(ctx.is_variant(st, o, 'Some'))
            ctx.prove(st, z3.If(bounded, z3.If(s, g['how'] == 'timeout' and gz(g['dur'] == ctx.term(st, ctx.payload(st, o, 'Some'))), z3.BoolVal(g['how'] == 'wait')), z3.BoolVal(g['how'] == 'unbounded')), 'it waits for space exactly as asked')
            if g['how'] == 'timeout':
                ctx.mute_how = True
                return inner_nohow(ctx, st, kind, v)
        return inner(ctx, st, kind, v)

    def inner_nohow(ctx, st, kind, v):
        g = st.ghost
        how0 = g['how']
        g['how'] = 'wait'
        inner(ctx, st, kind, v)
        g['how'] = how0
    return f


# ------------------------------------------------------------------ what comes out of a pending reply
def h_inner_poll(eng, st, info):
    """one poll of the future inside: event polled(future, outcome)"""
    a = info.args[0]
    while isinstance(a, Agg) and a.path.endswith('pin::Pin'):
        a = a.fields[0]
    r = eng.fresh_val(st, info.dest, 'poll')
    eng.emit(st, 'polled', lib.content(eng, st, a), r)
    return ret(eng, st, r)


def pr_setup(ctx, st, args):
    a = args[0]
    if ctx.body['path'].endswith('::poll'):
        a = lib.content(ctx.eng, st, ctx.eng.field_of(st, a, None, 0, ctx.P.t(a.tid)['variants'][0]['fields'][0][1]))
    ctx.inner = ctx.cterm(st, ctx.field(st, a, 'fut' if ctx.body['path'].endswith('::poll') else 'f'))
    st.ghost.update(polls=(), calls=())


def pr_monitor(ctx, st, name, args):
    if name == 'polled':
        st.ghost['polls'] += ((ctx.cterm(st, args[0]), ctx.term(st, args[1])),)
    elif name == 'user_call':
        st.ghost['polls'] += ((ctx.term(st, args[0]), ctx.term(st, args[2])),)


PASSED = 'what the reply came to is handed on unchanged'


def pr_finish(ctx, st, kind, v):
    p = st.ghost['polls']
    ctx.prove(st, kind == 'ret' and len(p) == 1 and z3.And(p[0][0] == ctx.inner, ctx.term(st, v) == p[0][1]) if kind == 'ret' and len(p) == 1 else False, PASSED)


def w_to_maybe(ctx, st, a, v):
    """NoTimeout exactly for no timeout; else that very duration"""
    t = ctx.P.t(ctx.content(st, a).tid if not isinstance(a, Agg) or a.tid is not None else ctx.body['locals'][1])
    if t['path'].endswith('WithoutRequestTimeout'):
        return gz(ctx.is_variant(st, v, 'NoTimeout'))
    o = ctx.field(st, a, '0') if t['path'].endswith('WithRequestTimeout') else a
    some_ = gz(ctx.is_variant(st, o, 'Some'))
    if ctx.eng.entails(st, some_):
        ok = ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Timeout')))
        return ok and gz(ctx.eq(st, ctx.payload(st, v, 'Timeout'), ctx.payload(st, o, 'Some')))
    return z3.And(z3.Not(some_), gz(ctx.is_variant(st, v, 'NoTimeout')))


# a recipient's request: the timeout is set, the rest is kept
def ro_setup(ctx, st, args):
    ctx.rec, ctx.msg = ctx.cterm(st, ctx.field(st, args[0], 'actor_ref')), ctx.term(st, ctx.field(st, args[0], 'msg'))
    st.ghost.update(calls=())


def ro_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and not st.ghost['calls'], 'nothing is sent before the request is awaited')
    if kind != 'ret':
        return
    ctx.prove(st, z3.And(ctx.cterm(st, ctx.field(st, v, 'actor_ref')) == ctx.rec, ctx.term(st, ctx.field(st, v, 'msg')) == ctx.msg), 'the request is for the same recipient, with the same message')
    o, a = ctx.field(st, ctx.field(st, v, 'mailbox_timeout'), '0'), ctx.args[1]
    if ctx.P.t(ctx.body['locals'][2])['path'].endswith('option::Option'):
        ctx.prove(st, deep_eq(ctx, st, o, a), 'with the timeout given')
    else:
        ctx.prove(st, z3.And(gz(ctx.is_variant(st, o, 'Some')), gz(ctx.eq(st, ctx.payload(st, o, 'Some'), a))), 'with the timeout given')


def J(name, root, finish, expect=(), **kw):
    kw.setdefault('setup', setup)
    kw.setdefault('monitor', monitor)
    kw.setdefault('extra', EXTRA)
    return Job(name, root, finish=finish, expect=expect, **kw)


BACK, LOST, TOUT, VAL, ERRV = 'the undelivered message is handed back', 'no reply ever: the actor stopped', 'too late: a timeout, without the message, which is in the mailbox', "the handler's answer comes back", "the handler's error comes back"
FBACK = 'the undelivered message and the reply slot are handed back'
JOBS = [
    J('tell send', TELL + 'send$', tell_finish('wait'), (BACK, 'with no reply slot')),
    J('tell try_send', TELL + 'try_send$', tell_finish('try'), (BACK,)),
    J('tell blocking_send', TELL + 'blocking_send$', tell_finish('blocking'), (BACK,)),
    J('tell await', r'^<request::tell::TellRequest<.*> as core::future::into_future::IntoFuture>::into_future$', tell_finish('wait'), (BACK,)),
    J('ask send', ASK + 'send$', ask_finish('wait'), (BACK, LOST, TOUT, VAL, ERRV)),
    J('ask try_send', ASK + 'try_send$', ask_finish('try'), (BACK, LOST, TOUT, VAL, ERRV)),
    J('ask blocking_send', ASK + 'blocking_send$', ask_finish('blocking'), (BACK, LOST, VAL, ERRV)),
    J('ask await', r'^<request::ask::AskRequest<.*> as core::future::into_future::IntoFuture>::into_future$', ask_finish('wait'), (BACK, LOST, TOUT, VAL, ERRV)),
    J('ask enqueue', ASK + 'enqueue$', ask_finish('wait', True), (LOST, TOUT, VAL, ERRV), chain=pend),
    J('ask try_enqueue', ASK + 'try_enqueue$', ask_finish('try', True), (LOST, TOUT, VAL, ERRV), chain=pend),
    J('ask blocking_enqueue', ASK + 'blocking_enqueue$', ask_finish('blocking', True), (LOST, VAL, ERRV), chain=pend),
    J('forward', ASK + 'forward$', fwd_finish('wait'), (FBACK,)),
    J('try_forward', ASK + 'try_forward$', fwd_finish('try'), (FBACK,)),
    J('blocking_forward', ASK + 'blocking_forward$', fwd_finish('blocking'), (FBACK,)),
    J('ActorRef::ask', AR + 'ask$', make_finish(2), setup=make_setup),
    J('ActorRef::tell', AR + 'tell$', make_finish(1), setup=make_setup),
    J('ask mailbox_timeout', ASK + 'mailbox_timeout$', opt_finish('mailbox_timeout'), setup=opt_setup),
    J('ask mailbox_timeout_opt', ASK + 'mailbox_timeout_opt$', opt_finish('mailbox_timeout'), setup=opt_setup),
    J('ask reply_timeout', ASK + 'reply_timeout$', opt_finish('reply_timeout'), setup=opt_setup),
    J('ask reply_timeout_opt', ASK + 'reply_timeout_opt$', opt_finish('reply_timeout'), setup=opt_setup),
    J('tell mailbox_timeout', TELL + 'mailbox_timeout$', opt_finish('mailbox_timeout'), setup=opt_setup),
    J('tell mailbox_timeout_opt', TELL + 'mailbox_timeout_opt$', opt_finish('mailbox_timeout'), setup=opt_setup),
    J('no timeout', r'From<request::WithoutRequestTimeout> for core::option::Option<core::time::Duration>>::from$', from_finish(lambda ctx, st, a, v: gz(ctx.is_variant(st, v, 'None'))), setup=from_setup),
    J('timeout', r'From<request::WithRequestTimeout> for core::option::Option<core::time::Duration>>::from$', from_finish(lambda ctx, st, a, v: deep_eq(ctx, st, v, ctx.field(st, a, '0'))), setup=from_setup),
    J('maybe timeout', r'From<request::MaybeRequestTimeout> for core::option::Option<core::time::Duration>>::from$', from_finish(w_maybe), setup=from_setup),
    J('to maybe timeout', r'^<request::MaybeRequestTimeout as core::convert::From<.*>>::from$', from_finish(w_to_maybe), ('the timeout is the one given',), setup=from_setup, each=True),
    J('PendingReply::poll', r"^<request::ask::PendingReply<'_, M, R> as core::future::future::Future>::poll$", pr_finish, (PASSED,), setup=pr_setup, monitor=pr_monitor, extra=[(r'Future>::poll$|^core::future::future::Future::poll$|FutureExt::poll_unpin$', h_inner_poll)], drive=False),
    J('BlockingPendingReply::recv', r"^request::ask::BlockingPendingReply::<'_, M, R>::recv$", pr_finish, (PASSED,), setup=pr_setup, monitor=pr_monitor, config=user_calls),
    J('recipient tell mailbox_timeout', RTELL + 'mailbox_timeout$', ro_finish, ('with the timeout given',), setup=ro_setup, monitor=rtell_monitor),
    J('recipient tell mailbox_timeout_opt', RTELL + 'mailbox_timeout_opt$', ro_finish, ('with the timeout given',), setup=ro_setup, monitor=rtell_monitor),
    J('recipient tell send', RTELL + 'send$', rtell_finish('tell'), setup=rtell_setup, monitor=rtell_monitor, extra=EXTRA + DYN),
    J('recipient tell try_send', RTELL + 'try_send$', rtell_finish('try_tell'), setup=rtell_setup, monitor=rtell_monitor, extra=EXTRA + DYN),
    J('recipient tell blocking_send', RTELL + 'blocking_send$', rtell_finish('blocking_tell'), setup=rtell_setup, monitor=rtell_monitor, extra=EXTRA + DYN),
    J('recipient tell await', r'^<request::tell::RecipientTellRequest<.*> as core::future::into_future::IntoFuture>::into_future$', rtell_finish('tell'), setup=rtell_setup, monitor=rtell_monitor, extra=EXTRA + DYN),
    J('Recipient::tell', r'^actor::actor_ref::Recipient::<M>::tell$', lambda ctx, st, kind, v: rec_make(ctx, st, kind, v), setup=lambda ctx, st, a: st.ghost.update(n=0)),
    J('handler: tell', r'^<actor::actor_ref::ActorRef<A> as actor::actor_ref::MessageHandler<M>>::tell$', timeout_arg_finish('wait'), (BACK,), setup=h_setup, extra=REPLY),
    J('handler: try_tell', r'^<actor::actor_ref::ActorRef<A> as actor::actor_ref::MessageHandler<M>>::try_tell$', timeout_arg_finish('try'), (BACK,), setup=h_setup, extra=REPLY),
    J('handler: blocking_tell', r'^<actor::actor_ref::ActorRef<A> as actor::actor_ref::MessageHandler<M>>::blocking_tell$', timeout_arg_finish('blocking'), (BACK,), setup=h_setup, extra=REPLY),
]


def rec_make(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and z3.And(gz(ctx.cterm(st, ctx.field(st, v, 'actor_ref')) == ctx.cterm(st, ctx.args[0])), gz(ctx.eq(st, ctx.field(st, v, 'msg'), ctx.args[1]))), 'a request for that recipient with that message')
