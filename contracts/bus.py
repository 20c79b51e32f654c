"""Message bus: subscribers by message type."""
from .toolbox import *

MB = r'^message_bus::MessageBus::'
MSG = lambda m: rf'^<message_bus::MessageBus as kameo::message::Message<message_bus::{m}<M>>>::handle$'


def t_of(eng, s):
    """the type with that name"""
    for i, t in enumerate(eng.P.types):
        if t['s'] == s or t['s'].endswith('::' + s):
            return i
    raise Unsupported('anchor lost: type ' + s)


def key_term(ctx):
    return lib.type_id(ctx.eng, t_of(ctx.eng, 'M'))


def parts(ctx, st, reg):
    """(id term, recipient term, condition: it holds a Recipient<M>) of a registration"""
    reg = lib.content(ctx.eng, st, reg)
    i, r = ctx.term(st, ctx.field(st, reg, 'actor_id')), ctx.field(st, reg, 'recipient')
    if isinstance(r, BoxV):
        v = st.heap[r.cell]
        return i, ctx.term(st, v), zb(isinstance(v, (Agg, Sym)) and v.tid is not None and ctx.P.t(v.tid)['s'].endswith('Recipient<M>'))
    v = lib.content(ctx.eng, st, Ref(*ctx.eng.deref(st, r)))
    return i, ctx.term(st, v), gz(lib.type_test(ctx.eng, st, v, t_of(ctx.eng, 'Recipient<M>')))


def well_formed(ctx, st, reg):
    """the invariant of the lists: under the id of M, recipients of M with the id of their actor"""
    i, r, ok = parts(ctx, st, reg)
    return z3.And(ok, i == id_term(ctx.eng, r))


def s_bus(ctx, st, args):
    st.ghost['before'] = subs_of(ctx, st, args[0])


def fin_new(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        m = subs_of(ctx, st, v)
        ctx.prove(st, z3.And(m.dom == z3.K(V, z3.BoolVal(False)), gz(deep_eq(ctx, st, ctx.field(st, v, 'delivery_strategy'), ctx.args[0]))), 'nobody is registered; delivers the way it is told to')


def m_reg(ctx, st, name, args):
    if name == 'push':
        st.ghost['pushed'] += ((args[1], ctx.term(st, args[1])),)


def fin_reg(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    b, a = st.ghost['before'], subs_of(ctx, st, ctx.args[0])
    p = st.ghost['pushed']
    if not p:
        if ctx.eng.entails(st, same_map(b, a)):
            ctx.prove(st, False, 'the recipient is registered once')
            return
        raise Unsupported('the list is not built with push')
    ctx.prove(st, len(p) == 1, 'the recipient is registered once')
    i, r, ok = parts(ctx, st, p[0][0])
    me = ctx.term(st, lib.content(ctx.eng, st, ctx.field(st, ctx.args[1], '0')))
    ctx.prove(st, z3.And(ok, r == me, i == id_term(ctx.eng, me)), 'what is registered is that recipient, with the id of its actor')
    ctx.prove(st, added(ctx, st, b, a, key_term(ctx), p[0][1], a.vtid), 'it is added to the recipients of its message type, and nothing else changes')


def s_unreg(ctx, st, args):
    s_bus(ctx, st, args)
    ctx.id = ctx.term(st, ctx.field(st, args[1], 'actor_id')) if not isinstance(args[1], Ref) else lib.cterm(ctx.eng, st, args[1])
    ctx.key = key_term(ctx)


def fin_unreg(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        dropped_one(ctx, st, st.ghost['before'], subs_of(ctx, st, ctx.args[0]), ctx.key, st.ghost)


reg_id = lambda ctx, st, e: ctx.term(st, ctx.field(st, e, 'actor_id'))


def fin_unreg_new(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.eq(st, ctx.field(st, v, 'actor_id'), ctx.args[0])), 'names that actor')


# ------------------------------------------------------------------ publishing
def s_pub(ctx, st, args):
    e = ctx.eng
    s_bus(ctx, st, args)
    ctx.strategy = ctx.field(st, args[0], 'delivery_strategy')
    ctx.timed = timed
    ctx.msg = ctx.term(st, ctx.field(st, args[1], '0'))
    ctx.me = e.F('ctxRef', [V], V)(lib.cterm(e, st, args[2]))
    ctx.key = key_term(ctx)
    b = st.ghost['before']
    ctx.walked = False
    st.ghost.update({k: z3.Const('no!' + k, V) for k in ('cur', 'gid')})
    # is there somebody to tell?
    st.ghost['open'] = z3.If(z3.And(z3.Select(b.dom, ctx.key), z3.Length(seq_of(ctx, st, z3.Select(b.val, ctx.key), b.vtid).seq) > 0), z3.IntVal(1), z3.IntVal(0))


NEXT_R, ALL_R = 'every recipient is told once, and the others only after it', 'every recipient of the message type is told'
DROP = 'what is unregistered is that actor, for that message type'


def m_pub(ctx, st, name, args):
    g, e = st.ghost, ctx.eng
    if name == 'iter_next':
        raise Unsupported('walks over all message types')
    if name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, 'nobody is passed over')
    elif name == 'seq_next' and isinstance(args[0], Ref):
        k = of_entry(ctx, st, args[0])
        if k is None:
            raise Unsupported('recipients are not visited in their list')
        ctx.walked = True
        ctx.prove(st, k == ctx.key, 'only recipients of the message type are visited')
        ctx.prove(st, zi(g['owed']) + zi(g['gone']) == 0, NEXT_R)
        e.assume(st, well_formed(ctx, st, args[0]))
        g['cur'], g['owed'] = parts(ctx, st, args[0])[1], 1
    elif name == 'seq_end' and args:
        if of_entry(ctx, st, args[0]) is None:
            return
        ctx.prove(st, zi(g['owed']) + zi(g['gone']) == 0, NEXT_R)
        g['open'] = 0
    elif name == 'seq_next':
        ctx.prove(st, zi(g['drop']) == 0, 'everyone found not running is unregistered')
        g['drop'], g['gid'] = 1, ctx.term(st, args[0])
    elif name == 'seq_end':
        ctx.prove(st, zi(g['drop']) == 0, 'everyone found not running is unregistered')
        g['swept'] = 1
    elif name == 'tell' and not same(ctx, st, args[0], ctx.me):
        if not ctx.walked:
            raise Unsupported('recipients are told outside a walk over the registrations')
        ctx.prove(st, z3.And(zi(g['owed']) == 1, ctx.cterm(st, args[0]) == g['cur']), 'only the recipient at hand is told, and once')
        ctx.prove(st, ctx.cterm(st, args[1]) == ctx.msg, 'what is told is the published message')
        ctx.prove(st, way(ctx, st, args[2], args[3], g['task']), 'it is told the way the delivery strategy says')
        g['owed'] = 0
    elif name == 'told' and not same(ctx, st, args[0], ctx.me):
        g['gone'] = 1 if args[4] == 'ActorNotRunning' else 0
    elif name == 'tell':
        ctx.prove(st, zi(g['gone']) == 1, 'only an actor which is not running is unregistered')
        ctx.prove(st, ctx.P.t(args[1].tid)['s'].endswith('Unregister<M>') and ctx.term(st, ctx.field(st, args[1], 'actor_id')) == id_term(e, g['cur']), DROP)
        g['gone'] = 0
    elif name == 'spawn':
        g['task'] = g['task'] + 1
    elif name == 'task_end':
        ctx.prove(st, args[0] == 'ret', 'a delivery task does not panic')
        ctx.prove(st, zi(g['owed']) + zi(g['gone']) == 0, 'a delivery task tells its recipient, and unregisters it when it is not running')
        g['task'] = g['task'] - 1
    elif name == 'push':
        if isinstance(args[1], Ref) or not (isinstance(args[1], (Sym, Agg)) and args[1].tid is not None and ctx.P.t(args[1].tid)['s'].endswith('ActorID')):
            raise Unsupported('something else is collected')
        ctx.prove(st, zi(g['gone']) == 1, 'only an actor which is not running is unregistered')
        ctx.prove(st, ctx.term(st, args[1]) == id_term(e, g['cur']), DROP)
        g['gone'] = 0
    elif name == 'unsub':
        ctx.prove(st, z3.And(zi(g['drop']) == 1, args[1] == ctx.key, ctx.cterm(st, args[0]) == g['gid']), 'the actor found is the one unregistered, for that message type')
        g['drop'] = 0


def fin_pub(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, z3.And(zi(g['open']) == 0, zi(g['swept']) == 1), ALL_R)


def h_unsub(eng, st, info):
    """unsubscribe::<M> (verified above): event unsub(id, type); changes the registrations"""
    a = [x for x in info.callee['args'] if isinstance(x, int)]
    eng.emit(st, 'unsub', info.args[1], lib.type_id(eng, a[0]))
    c, p = eng.deref(st, info.args[0])
    eng.store(st, c, p, eng.havoc_val(st, eng.load(st, c, p)))
    return ret(eng, st, UNIT)


PG = {'open': 0, 'owed': 0, 'gone': 0, 'drop': 0, 'swept': 0, 'task': 0, 'before': None}

JOBS = [
    Job('MessageBus::new', MB + 'new$', crate='actors', finish=fin_new, expect=('nobody is registered; delivers the way it is told to',)),
    Job('bus Register', MSG('Register'), crate='actors', extra=TELL, setup=s_bus, monitor=m_reg, finish=fin_reg, ghost={'before': None, 'pushed': ()},
        expect=('what is registered is that recipient, with the id of its actor', 'it is added to the recipients of its message type, and nothing else changes')),
    Job('Unregister::new', r'^message_bus::Unregister::<M>::new$', crate='actors', finish=fin_unreg_new, expect=('names that actor',)),
    Job('MessageBus::unsubscribe', MB + 'unsubscribe$', crate='actors', extra=TELL, setup=s_unreg, monitor=m_retain(lambda c, s: c.id, reg_id), finish=fin_unreg, ghost=RG,
        expect=('what stays on it is what was kept', 'exactly the recipients which are not that actor stay')),
    Job('bus Unregister', MSG('Unregister'), crate='actors', extra=TELL, setup=s_unreg, monitor=m_retain(lambda c, s: c.id, reg_id), finish=fin_unreg, ghost=RG,
        expect=('what stays on it is what was kept', 'exactly the recipients which are not that actor stay')),
    Job('bus Publish', MSG('Publish'), crate='actors', extra=TELL + [(MB + 'unsubscribe$', h_unsub)], setup=s_pub, monitor=m_pub, finish=fin_pub, ghost=PG, config=inline, needs=('^message_bus::MessageBus::unsubscribe$',), budget=300,
        expect=(NEXT_R, ALL_R, DROP, 'it is told the way the delivery strategy says', 'the actor found is the one unregistered, for that message type')),
]
