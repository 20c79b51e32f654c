"""The actors crate: contracts of what it uses of kameo (verified in the modules of C07-C09, C13, C14), and helpers."""
from .base import *
from .errors import variant_of, user_calls

K = r'kameo::actor::actor_ref::'


def val(eng, st, v):
    """the value behind references"""
    return lib.content(eng, st, v)


def vterm(eng, st, v):
    return lib.cterm(eng, st, v)


def id_term(eng, t):
    return eng.F('idOf', [V], V)(t)


def h_id(eng, st, info):
    """the id of that actor: a function of the reference"""
    return ret(eng, st, Sym(id_term(eng, vterm(eng, st, info.args[0])), info.dest))


def h_eq_id(eng, st, info):
    """ids are equal when they denote the same actor (C11)"""
    e = vterm(eng, st, info.args[0]) == vterm(eng, st, info.args[1])
    return ret(eng, st, B(z3.Not(e) if info.callee['name'] == 'ne' else e))


def h_alive(eng, st, info):
    """whether its mailbox is open; may change at any time"""
    b = eng.fresh('alive', z3.BoolSort())
    eng.emit(st, 'alive', info.args[0], B(b))
    return ret(eng, st, B(b))


def h_kill(eng, st, info):
    """aborts that actor"""
    eng.emit(st, 'kill', info.args[0])
    return ret(eng, st, UNIT)


def h_ctx_ref(eng, st, info):
    """a reference to the running actor itself"""
    return ret(eng, st, Sym(eng.F('ctxRef', [V], V)(vterm(eng, st, info.args[0])), info.dest))


# ---- requests: recv.tell(msg)[.mailbox_timeout(d)].{send().await, await, try_send()}
def h_tell(eng, st, info):
    """a tell request for that actor"""
    return ret(eng, st, mkfut('tell', info.args[0], info.args[1], None))


def h_ask(eng, st, info):
    """an ask request for that actor"""
    return ret(eng, st, mkfut('ask', info.args[0], info.args[1], None))


def h_mbt(eng, st, info):
    """the request, giving up on a full mailbox after that long"""
    f = info.args[0]
    return ret(eng, st, f.with_(args=f.args[:2] + (info.args[1],)))


def h_same(eng, st, info):
    """the request, sent when awaited"""
    return ret(eng, st, info.args[0])


def send_error(eng, st, tid, name, *fields):
    et = field_tid(eng, tid, 'Err')
    return variant(eng, tid, 'Err', variant(eng, et, name, *fields))


def outcomes(eng, st, out, how, f, names):
    res = []
    recv, msg, to = f.args
    for i, n in enumerate(['Ok'] + names):
        s = st.fork() if i < len(names) else st
        if n == 'Ok':
            r = variant(eng, out, 'Ok', UNIT)
        elif n == 'Timeout':
            et = field_tid(eng, out, 'Err')
            ot = [x for x in ty(eng, et)['variants'] if x['name'] == 'Timeout'][0]['fields'][0][1]
            r = send_error(eng, s, out, n, some(eng, ot, msg))
        else:
            r = send_error(eng, s, out, n, msg)
        eng.emit(s, 'told', recv, msg, how, to, n)
        res += ret(eng, s, r)
    return res


@fut('tell')
def f_tell(eng, st, fv, out):
    recv, msg, to = fv.args
    eng.emit(st, 'tell', recv, msg, 'send', to)
    res = cancel_points(eng, st)
    return res + outcomes(eng, st, out, 'send', fv, ['ActorNotRunning'] + (['Timeout'] if to is not None else []))


def h_try_send(eng, st, info):
    """tell without waiting: ok, or not running / mailbox full with the message"""
    f = info.args[0]
    eng.emit(st, 'tell', f.args[0], f.args[1], 'try_send', f.args[2])
    return outcomes(eng, st, info.dest, 'try_send', f, ['ActorNotRunning', 'MailboxFull'])


@fut('ask')
def f_ask(eng, st, fv, out):
    recv, msg, to = fv.args
    eng.emit(st, 'ask', recv, msg)
    res = cancel_points(eng, st)
    r = eng.fresh_val(st, out, 'answer')
    eng.emit(st, 'asked', r)
    return res + ret(eng, st, r)


TELL = [
    (rf'^{K}(Recipient::<M>|ActorRef::<A>|WeakActorRef::<A>)::id$', h_id),
    (rf'^{K}(Recipient::<M>|ActorRef::<A>)::is_alive$', h_alive),
    (rf'^{K}(Recipient::<M>|ActorRef::<A>)::kill$', h_kill),
    (r'^kameo::message::Context::<A, R>::actor_ref$', h_ctx_ref),
    (rf'^{K}(Recipient::<M>|ActorRef::<A>)::tell$', h_tell),
    (rf'^{K}ActorRef::<A>::ask$', h_ask),
    (r"^kameo::request::tell::(Recipient)?TellRequest::<.*>::mailbox_timeout$", h_mbt),
    (r"^kameo::request::(tell|ask)::(Recipient)?(Tell|Ask)Request::<.*>::send$", h_same),
    (r"^<kameo::request::(tell|ask)::(Recipient)?(Tell|Ask)Request<.*> as core::future::into_future::IntoFuture>::into_future$", h_same),
    (r"^kameo::request::tell::(Recipient)?TellRequest::<.*>::try_send$", h_try_send),
    (r'^<kameo::actor::actor_ref::\w+<.*> as core::clone::Clone>::clone$', lib.c_clone),
    (r'^<kameo::actor::id::ActorID as core::clone::Clone>::clone$', lib.c_clone),
    (r'^<kameo::actor::id::ActorID as core::cmp::PartialEq>::(eq|ne)$', h_eq_id),
]


def inline(eng, ctx):
    eng.inline_spawn = True


def subs_of(ctx, st, ref, name='subscriptions'):
    return lib.as_map(ctx.eng, st, ctx.field(st, ref, name))


def same_map(a, b):
    return z3.And(a.dom == b.dom, a.val == b.val)


def others_same(b, a, k):
    """condition: two maps agree on every key but k"""
    x = z3.Const('any!key', V)
    return z3.Implies(x != k, z3.And(z3.Select(a.dom, x) == z3.Select(b.dom, x), z3.Implies(z3.Select(b.dom, x), z3.Select(a.val, x) == z3.Select(b.val, x))))


def seq_of(ctx, st, t, vtid):
    """the elements of the sequence with that term"""
    return lib.as_seq(ctx.eng, st, ctx.eng.from_term(st, t, vtid))


# ---- lists of subscribers
def added(ctx, st, b, a, k, item, vtid):
    """condition: the list under key k got this item at its end, everything else is as before"""
    old = z3.If(z3.Select(b.dom, k), seq_of(ctx, st, z3.Select(b.val, k), vtid).seq, z3.Empty(SeqV))
    new = seq_of(ctx, st, z3.Select(a.val, k), vtid).seq
    return z3.And(z3.Select(a.dom, k), new == z3.Concat(old, z3.Unit(item)), others_same(b, a, k))


def m_retain(id_of, who=None):
    """a list is filtered: exactly the recipients with another id stay"""
    def m(ctx, st, name, args):
        g = st.ghost
        if name == 'retained':
            e = lib.content(ctx.eng, st, args[0])
            e = who(ctx, st, e) if who else id_term(ctx.eng, ctx.term(st, e))
            ctx.prove(st, zb(args[1].e) == (e != id_of(ctx, st)), 'exactly the recipients which are not that actor stay')
        elif name in ('iter_next', 'iter_end'):
            # the lists are filtered in a walk of its own, before the patterns nobody is left on are dropped
            if not ctx.eng.entails(st, zi(g['open']) == 0):
                raise Unsupported('a list is walked past without filtering it')
            ctx.prove(st, zi(g['open']) == 0, 'the list of every pattern is filtered')
            g['open' if name == 'iter_next' else 'walked'] = z3.IntVal(1)
        elif name == 'retain_end' and ctx.eng.entails(st, zi(g['open']) == 1):
            g['open'] = z3.IntVal(0)
        elif name == 'retain_end':
            g['filtered'] = g['filtered'] + 1
            g['kept'] = lib.as_seq(ctx.eng, st, lib.content(ctx.eng, st, args[0])).seq
        elif name == 'map_retain':
            g['whole'] = 1
        elif name == 'map_retain_entry':
            g['filtered'] = z3.IntVal(0)
        elif name == 'map_retained':
            n = zi(g['filtered'])
            if ctx.eng.entails(st, z3.And(zi(g['walked']) == 1, n == 0)):
                s = lib.as_seq(ctx.eng, st, lib.content(ctx.eng, st, args[1])).seq
                ctx.prove(st, z3.Implies(z3.Not(zb(args[2].e)), z3.Length(s) == 0), 'a pattern is dropped only when nobody is left on it')
                return
            ctx.prove(st, n == 1, 'the list of every pattern is filtered')
            s = lib.as_seq(ctx.eng, st, lib.content(ctx.eng, st, args[1])).seq
            ctx.prove(st, z3.And(s == g['kept'], z3.Implies(z3.Not(zb(args[2].e)), z3.Length(s) == 0)), 'a pattern is dropped only when nobody is left on it')
        elif name == 'map_retain_end':
            g['all'] = 1
    return m


def dropped_one(ctx, st, b, a, k, g):
    """the list under key k was filtered (events), everything else is as before"""
    ctx.prove(st, others_same(b, a, k), 'other subscriptions are left alone')
    if ctx.eng.entails(st, z3.Not(z3.Select(b.dom, k))):
        ctx.prove(st, z3.Not(z3.Select(a.dom, k)), 'a pattern nobody subscribed to stays so')
        return
    same = z3.And(z3.Select(a.dom, k) == z3.Select(b.dom, k), z3.Select(a.val, k) == z3.Select(b.val, k))
    n = z3.simplify(zi(g['filtered']))
    if z3.is_int_value(n) and n.as_long() == 0:
        if not ctx.eng.entails(st, same):
            raise Unsupported('the list is not filtered with retain')
        ctx.prove(st, False, 'the list of that key is filtered')
        return
    ctx.prove(st, n == 1, 'the list of that key is filtered')
    s = seq_of(ctx, st, z3.Select(a.val, k), a.vtid).seq
    ctx.prove(st, z3.If(z3.Select(a.dom, k), s == g['kept'], z3.Length(g['kept']) == 0), 'what stays on it is what was kept')


RG = {'filtered': z3.IntVal(0), 'open': z3.IntVal(0), 'walked': z3.IntVal(0), 'kept': z3.Empty(SeqV), 'whole': 0, 'all': 0, 'before': None}


# ---- delivery
STRATEGY = {'Guaranteed': ('send', False, 0), 'BestEffort': ('try_send', False, 0), 'TimedDelivery': ('send', True, 0), 'Spawned': ('send', False, 1), 'SpawnedWithTimeout': ('send', True, 1)}


def way(ctx, st, how, timeout, task):
    """condition: this is how the strategy delivers"""
    d = ctx.strategy
    cs = []
    for n, (h, t, k) in STRATEGY.items():
        ok = h == how and t == (timeout is not None) and k == min(task, 1)
        c = z3.BoolVal(ok)
        if ok and t:
            c = gz(deep_eq(ctx, st, timeout, ctx.payload(st, d, n)))
        cs.append(z3.Implies(gz(ctx.is_variant(st, d, n)), c))
    return z3.And(*cs)


def timed(ctx, st):
    """whether the delivery strategy is one with a timeout"""
    return ctx.eng.entails(st, z3.Or(*[gz(ctx.is_variant(st, ctx.strategy, n)) for n, (h, t, k) in STRATEGY.items() if t]))


def of_entry(ctx, st, ref):
    """the key of the map entry an element reference lies in"""
    for s in ref.path:
        if s[0] == 'mapval':
            return s[1]


NEXT_K, NEXT_R = 'every recipient of every matching pattern is told', 'every recipient is told once, and the others only after it'


def same(ctx, st, v, t):
    return ctx.eng.entails(st, ctx.cterm(st, v) == t)


def tup(ctx, st, v, i):
    v = lib.content(ctx.eng, st, v)
    if isinstance(v, Agg):
        return v.fields[i]
    a = ctx.P.t(v.tid)['fields']
    return ctx.eng.field_of(st, v, None, i, a[i])


# ---- conversions of errors (verified in errors.py)
def by_variant(eng, st, v):
    """one state per variant of a SendError, with the variant's fields"""
    v = lib.content(eng, st, v) if isinstance(v, Ref) else v
    t = ty(eng, v.tid)
    if isinstance(v, Agg):
        return [(st, t['variants'][v.variant], list(v.fields))]
    out = []
    d = eng.discriminant(st, v)
    for i, x in enumerate(t['variants']):
        s = st.fork()
        if eng.feasible(s, d == int(x['discr'])):
            eng.assume(s, d == int(x['discr']))
            out.append((s, x, [eng.field_of(s, v, i, k, ft) for k, (_, ft) in enumerate(x['fields'])]))
    return out


def mapped(eng, s, clo, arg, wrap):
    def k(s2, kind, r):
        return ret(eng, s2, wrap(s2, r)) if kind == 'ret' else eng.deliver(s2, kind, r)
    eng.push_cont(s, k, 'map')
    return eng.call_value(s, clo, [arg])


def h_se_map(what):
    def h(eng, st, info):
        out = []
        for s, x, fs in by_variant(eng, st, info.args[0]):
            n, D = x['name'], info.dest
            if what == 'err' and n == 'HandlerError':
                out += mapped(eng, s, info.args[1], fs[0], lambda s2, r: variant(eng, D, 'HandlerError', r))
            elif what == 'msg' and n in ('ActorNotRunning', 'MailboxFull'):
                out += mapped(eng, s, info.args[1], fs[0], lambda s2, r, n=n: variant(eng, D, n, r))
            elif what == 'msg' and n == 'Timeout':
                ot = field_tid(eng, D, 'Timeout')
                o = fs[0]
                if isinstance(o, Agg):
                    alts = [(s, o.variant == 1, o.fields[0] if o.variant == 1 else None)]
                else:
                    alts = [(s2, yes, eng.field_of(s2, o, 1, 0, field_tid(eng, o.tid, 'Some')) if yes else None) for s2, yes in eng.branch(s, eng.discriminant(s, o) == 1)]
                for s2, yes, m in alts:
                    out += mapped(eng, s2, info.args[1], m, lambda s3, r: variant(eng, D, 'Timeout', some(eng, ot, r))) if yes else ret(eng, s2, variant(eng, D, 'Timeout', none(eng, ot)))
            elif what == 'flatten' and n == 'HandlerError':
                out += ret(eng, s, fs[0])
            else:
                out += ret(eng, s, variant(eng, D, n, *fs))
        return out
    h.__doc__ = f'SendError::{"flatten" if what == "flatten" else "map_" + what}: the same kind, what is mapped is mapped once'
    return h


ERR = [(r'^kameo::error::SendError::<M, E>::map_err$', h_se_map('err')), (r'^kameo::error::SendError::<M, E>::map_msg$', h_se_map('msg')),
       (r'^kameo::error::SendError::<M, kameo::error::SendError<M, E>>::flatten$', h_se_map('flatten'))]
