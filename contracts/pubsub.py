"""PubSub: everyone subscribed gets what passes his filter."""
from .toolbox import *

PS = r'^pubsub::PubSub::<M>::'
MSG = lambda m: rf'^<pubsub::PubSub<M> as kameo::message::Message<pubsub::{m}<.*>>>::handle$'


def s_subs(ctx, st, args):
    st.ghost['before'] = subs_of(ctx, st, args[0], 'subscribers')


def fin_new(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, subs_of(ctx, st, v, 'subscribers').dom == z3.K(V, z3.BoolVal(False)), 'nobody is subscribed')


# ------------------------------------------------------------------ subscribing
def m_sub(ctx, st, name, args):
    if name == 'map_insert':
        st.ghost['put'] += ((ctx.term(st, args[0]), args[2]),)


def entry_ok(ctx, st, v, sub, flt):
    """the entry holds that subscriber and that filter (None: one that is always true)"""
    v = lib.content(ctx.eng, st, v)
    if not (isinstance(v, Agg) and v.path == 'tuple' and all(isinstance(x, BoxV) for x in v.fields)):
        raise Unsupported('an entry of another shape')
    a, b = (st.heap[x.cell] for x in v.fields)
    ctx.prove(st, ctx.term(st, a) == sub, 'the subscriber stored is that actor')
    if flt is not None:
        ctx.prove(st, ctx.term(st, b) == flt, 'the filter stored is the one given')
    else:
        always(ctx, st, b)


def always(ctx, st, clo):
    """the closure says true to every message"""
    e = ctx.eng
    if not isinstance(clo, Agg):
        raise Unsupported('what the filter does is not known')
    ctx.prove(st, e.const_closure(st, clo), 'without a filter every message passes')


def const_true(eng, st, clo):
    """whether the closure's body just returns true"""
    b = eng.P.bodies.get(clo.path[len('closure:'):])
    if not b:
        raise Unsupported('what the filter does is not known')
    ps = []
    s = st.fork()
    s.stack = []

    def k(s2, kind, r):
        s2.stack = []
        s2.dead = (kind, r)
        return [s2]
    eng.push_cont(s, k, 'filter')
    m, eng.monitor = eng.monitor, None
    try:
        res = eng.explore(eng.call_value(s, Ref(eng.alloc(s, clo)), [Ref(eng.alloc(s, Sym(eng.fresh('anymsg'), None)))]))
    finally:
        eng.monitor = m
    return bool(res) and all(x.dead[0] == 'ret' and isinstance(x.dead[1], B) and eng.entails(x, zb(x.dead[1].e)) for x in res)


Engine.const_closure = const_true


def fin_sub(actor, flt=None):
    def f(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        b, a = st.ghost['before'], subs_of(ctx, st, ctx.args[0], 'subscribers')
        p = st.ghost['put']
        k = id_term(ctx.eng, actor(ctx, st))
        if not p and not ctx.eng.entails(st, z3.And(z3.Select(b.dom, k) == z3.Select(a.dom, k), z3.Select(b.val, k) == z3.Select(a.val, k))):
            raise Unsupported('not stored with insert')
        ctx.prove(st, len(p) == 1, 'the actor is subscribed once')
        if len(p) != 1:
            return
        me = actor(ctx, st)
        k = id_term(ctx.eng, me)
        ctx.prove(st, p[0][0] == k, 'an actor is subscribed under its id, so subscribing again replaces the filter')
        entry_ok(ctx, st, p[0][1], me, flt(ctx, st) if flt else None)
        ctx.prove(st, z3.And(z3.Select(a.dom, k), others_same(b, a, k)), 'other subscribers are left alone')
    return f


arg = lambda i: lambda ctx, st: ctx.term(st, ctx.args[i])
field_of = lambda i, n: lambda ctx, st: ctx.term(st, lib.content(ctx.eng, st, ctx.field(st, ctx.args[i], n)))


# ------------------------------------------------------------------ publishing
def s_pub(msg):
    def s(ctx, st, args):
        s_subs(ctx, st, args)
        ctx.msg = msg(ctx, st)
        ctx.walked = False
        st.ghost.update({k: z3.Const('no!' + k, V) for k in ('key', 'entry', 'res', 'rid')})
    return s


def filters(eng, ctx):
    def call(eng, st, fv, args):
        b = eng.fresh('passes', z3.BoolSort())
        eng.emit(st, 'filter', fv, list(args), B(b))
        return ret(eng, st, B(b))
    eng.on_sym_call = call


@fut('sub_tell')
def f_sub_tell(eng, st, fv, out):
    eng.emit(st, 'sub_tell', *fv.args)
    res = cancel_points(eng, st)
    r = eng.fresh_val(st, out, 'told')
    eng.emit(st, 'sub_told', r)
    return res + ret(eng, st, r)


def h_sub_tell(eng, st, info):
    """MessageSubscriber::tell (verified below for ActorRef): any result"""
    return ret(eng, st, mkfut('sub_tell', *info.args))


SUB = [(r'^pubsub::MessageSubscriber::tell$', h_sub_tell)]
EACH = 'every subscriber is asked once whether the message passes, and told once when it does'
GONE = ('ActorNotRunning', 'ActorStopped')
DROPPED = 'exactly the subscribers found not running are dropped'


def m_pub(ctx, st, name, args):
    g, e = st.ghost, ctx.eng
    if name in ('iter_next', 'iter_end') and not (name == 'iter_next' and len(args) < 2):
        ctx.prove(st, zi(g['toask']) + zi(g['totell']) == 0, EACH)
        if name == 'iter_end':
            g['phase'] = 1
            return
        g['key'], g['entry'] = ctx.term(st, args[0]), ctx.term(st, args[1])
        g['toask'], ctx.walked = 1, True
    elif name == 'filter':
        if not ctx.walked:
            raise Unsupported('filters are called outside a walk over the subscribers')
        ctx.prove(st, zi(g['toask']) == 1, EACH)
        ctx.prove(st, same_part(ctx, st, args[0], 1), 'it is the filter of the subscriber at hand')
        ctx.prove(st, ctx.cterm(st, args[1][0]) == ctx.msg, 'the filter sees the published message')
        g['toask'], g['totell'] = 0, z3.If(zb(args[2].e), z3.IntVal(1), z3.IntVal(0))
    elif name == 'sub_tell':
        ctx.prove(st, zi(g['totell']) == 1, EACH)
        ctx.prove(st, same_part(ctx, st, args[0], 0), 'it is the subscriber at hand who is told')
        ctx.prove(st, ctx.cterm(st, args[1]) == ctx.msg, 'what is told is the published message')
        g['totell'] = 0
    elif name == 'sub_told':
        g['res'] = ctx.term(st, args[0])
    elif name == 'joined':
        r = args[0]
        if not (isinstance(r, Agg) and r.path == 'tuple' and len(r.fields) == 2):
            raise Unsupported('another kind of result')
        ctx.prove(st, z3.And(ctx.cterm(st, r.fields[0]) == g['key'], ctx.term(st, r.fields[1]) == g['res']), 'what came of it is noted with the id of the one told')
    elif name == 'seq_next' and not isinstance(args[0], Ref):
        ctx.prove(st, zi(g['drop']) == 0, DROPPED)
        v = lib.content(e, st, args[0])
        a = ctx.P.t(v.tid)['fields']
        rid, r = (v.fields if isinstance(v, Agg) else [e.field_of(st, v, None, i, t) for i, t in enumerate(a)])
        g['rid'] = ctx.term(st, rid)
        err = ctx.payload(st, r, 'Err')
        g['drop'] = z3.If(z3.And(gz(ctx.is_variant(st, r, 'Err')), gz(ctx.is_variant(st, err, '|'.join(GONE)))), z3.IntVal(1), z3.IntVal(0))
    elif name == 'seq_end':
        ctx.prove(st, zi(g['drop']) == 0, DROPPED)
        g['swept'] = 1
    elif name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, 'nobody is passed over')
    elif name == 'map_remove':
        ctx.prove(st, z3.And(zi(g['drop']) == 1, ctx.term(st, args[0]) == g['rid']), DROPPED)
        g['drop'] = 0
    elif name in ('map_insert', 'map_retain', 'push'):
        raise Unsupported('the subscribers are changed another way')


def same_part(ctx, st, v, i):
    """condition: v is part i of the entry at hand"""
    e = ctx.eng
    m = subs_of(ctx, st, ctx.args[0], 'subscribers')
    ent = e.from_term(st, st.ghost['entry'], m.vtid)
    a = ctx.P.t(m.vtid)['fields']
    part = e.field_of(st, ent, None, i, a[i])
    inner = lib.content(e, st, Ref(*e.deref(st, part)))
    return z3.Or(ctx.term(st, v) == ctx.term(st, part), ctx.cterm(st, v) == ctx.cterm(st, part), ctx.cterm(st, v) == ctx.term(st, inner))


def fin_pub(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, z3.And(zi(g['phase']) == 1, zi(g['swept']) == 1), 'every subscriber is reached, and everyone found not running is dropped')


PG = {'toask': 0, 'totell': 0, 'drop': 0, 'phase': 0, 'swept': 0, 'before': None}


# ------------------------------------------------------------------ a subscribed actor
def m_actor(ctx, st, name, args):
    if name == 'tell':
        st.ghost['tells'] += ((ctx.cterm(st, args[0]), ctx.cterm(st, args[1]), args[2], args[3]),)
    elif name == 'told':
        st.ghost['res'] = args[4]


def fin_actor(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    t = g['tells']
    ctx.prove(st, len(t) == 1 and z3.And(t[0][0] == lib.cterm(ctx.eng, st, ctx.args[0]), t[0][1] == ctx.term(st, ctx.args[1])) if len(t) == 1 else False, 'the actor is told that message, once')
    ctx.prove(st, len(t) == 1 and t[0][2] == 'send' and t[0][3] is None, 'waiting for room in its mailbox')
    if g['res'] == 'Ok':
        ctx.prove(st, gz(ctx.is_variant(st, v, 'Ok')), 'says what came of it')
    else:
        e = ctx.payload(st, v, 'Err') if ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Err'))) else None
        ctx.prove(st, e is not None and gz(ctx.is_variant(st, e, g['res'])), 'says what came of it')


JOBS = [
    Job('PubSub::new', PS + 'new$', crate='actors', finish=fin_new, expect=('nobody is subscribed',)),
    Job('PubSub::subscribe', PS + 'subscribe$', crate='actors', extra=TELL, setup=s_subs, monitor=m_sub, finish=fin_sub(arg(1)), ghost={'before': None, 'put': ()}, expect=('without a filter every message passes', 'the subscriber stored is that actor')),
    Job('PubSub::subscribe_filter', PS + 'subscribe_filter$', crate='actors', extra=TELL, setup=s_subs, monitor=m_sub, finish=fin_sub(arg(1), arg(2)), ghost={'before': None, 'put': ()}, expect=('the filter stored is the one given', 'the subscriber stored is that actor')),
    Job('pubsub Subscribe', MSG('Subscribe'), crate='actors', extra=TELL, setup=s_subs, monitor=m_sub, finish=fin_sub(field_of(1, '0')), ghost={'before': None, 'put': ()}, expect=('without a filter every message passes', 'the subscriber stored is that actor')),
    Job('pubsub SubscribeFilter', MSG('SubscribeFilter'), crate='actors', extra=TELL, setup=s_subs, monitor=m_sub, finish=fin_sub(field_of(1, '0'), field_of(1, '1')), ghost={'before': None, 'put': ()}, expect=('the filter stored is the one given', 'the subscriber stored is that actor')),
    Job('PubSub::publish', PS + 'publish$', crate='actors', extra=TELL + SUB, setup=s_pub(arg(1)), monitor=m_pub, finish=fin_pub, ghost=PG, config=filters, budget=300, expect=(EACH, DROPPED, 'it is the subscriber at hand who is told')),
    Job('pubsub Publish', MSG('Publish'), crate='actors', extra=TELL + SUB, setup=s_pub(field_of(1, '0')), monitor=m_pub, finish=fin_pub, ghost=PG, config=filters, budget=300, expect=(EACH, DROPPED, 'it is the subscriber at hand who is told')),
    Job('a subscribed actor is told', r'^<kameo::actor::actor_ref::ActorRef<A> as pubsub::MessageSubscriber<M>>::tell$', crate='actors', extra=TELL + ERR, monitor=m_actor, finish=fin_actor, ghost={'tells': (), 'res': None}, expect=('the actor is told that message, once', 'says what came of it')),
]
