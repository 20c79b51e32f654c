"""Broker: topics."""
from .toolbox import *

BR = r'^broker::Broker::<M>::'
MSG = lambda m: rf'^<broker::Broker<M> as kameo::message::Message<broker::{m}.*>>::handle$'


def h_glob(eng, st, info):
    """whether the pattern matches the text under these options: a function of all three"""
    pat, text, opt = vterm(eng, st, info.args[0]), eng.term(st, lib.text_of(eng, st, info.args[1])), val(eng, st, info.args[2])
    fs = [zb(lib.content(eng, st, eng.field_of(st, opt, 0 if isinstance(opt, Agg) else None, i, ft)).e) for i, (n, ft) in enumerate(ty(eng, opt.tid)['variants'][0]['fields'])]
    return ret(eng, st, B(glob_term(eng, pat, text, fs)))


def glob_term(eng, pat, text, fs):
    return eng.F('globMatches', [V, V, z3.BoolSort(), z3.BoolSort(), z3.BoolSort()], z3.BoolSort())(pat, text, *fs)


GLOB = [(r'^glob::Pattern::matches_with$', h_glob), (r'^<glob::Pattern as core::clone::Clone>::clone$', lib.c_clone)]


# ------------------------------------------------------------------ subscribing, unsubscribing
def s_subs(ctx, st, args):
    st.ghost['before'] = subs_of(ctx, st, args[0])


def fin_new(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        m = subs_of(ctx, st, v)
        ctx.prove(st, z3.And(m.dom == z3.K(V, z3.BoolVal(False)), gz(deep_eq(ctx, st, ctx.field(st, v, 'delivery_strategy'), ctx.args[0]))), 'nobody is subscribed; delivers the way it is told to')


def fin_sub(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    b, a = st.ghost['before'], subs_of(ctx, st, ctx.args[0])
    k, r = ctx.term(st, ctx.field(st, ctx.args[1], 'topic')), ctx.term(st, ctx.field(st, ctx.args[1], 'recipient'))
    ctx.prove(st, added(ctx, st, b, a, k, r, a.vtid), 'the recipient is added to those of its pattern, and nothing else changes')


def s_one(ctx, st, args):
    s_subs(ctx, st, args)
    ctx.key, ctx.id = lib.cterm(ctx.eng, st, args[1]), lib.cterm(ctx.eng, st, args[2])


def fin_one(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        dropped_one(ctx, st, st.ghost['before'], subs_of(ctx, st, ctx.args[0]), ctx.key, st.ghost)


def s_unsub(ctx, st, args):
    s_subs(ctx, st, args)
    ctx.topic, ctx.id = ctx.field(st, args[1], 'topic'), ctx.term(st, ctx.field(st, args[1], 'actor_id'))


def fin_unsub(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    g = st.ghost
    b, a = g['before'], subs_of(ctx, st, ctx.args[0])
    if ctx.eng.entails(st, gz(ctx.is_variant(st, ctx.topic, 'Some'))):
        dropped_one(ctx, st, b, a, ctx.term(st, ctx.payload(st, ctx.topic, 'Some')), g)
    elif g['all']:
        pass        # every entry was decided above
    elif ctx.eng.entails(st, same_map(b, a)):
        ctx.prove(st, False, 'without a topic every pattern is filtered')
    else:
        raise Unsupported('the patterns are not filtered with retain')


# ------------------------------------------------------------------ publishing
def s_pub(ctx, st, args):
    e = ctx.eng
    s_subs(ctx, st, args)
    ctx.strategy = ctx.field(st, args[0], 'delivery_strategy')
    ctx.timed = timed
    ctx.topic = e.term(st, lib.text_of(e, st, ctx.field(st, args[1], 'topic')))
    ctx.msg = ctx.term(st, ctx.field(st, args[1], 'message'))
    ctx.me = e.F('ctxRef', [V], V)(lib.cterm(e, st, args[2]))
    ctx.walked = False
    st.ghost.update({k: z3.Const('no!' + k, V) for k in ('key', 'cur', 'gk', 'gid')})


def matches(ctx, k):
    return glob_term(ctx.eng, k, ctx.topic, [z3.BoolVal(True), z3.BoolVal(True), z3.BoolVal(False)])


def m_pub(ctx, st, name, args):
    g, e = st.ghost, ctx.eng
    if name == 'iter_next':
        if e.iter_mode in ('keys', 'ownkeys'):
            raise Unsupported('patterns are looked at without their recipients')
        ctx.prove(st, zi(g['open']) == 0, NEXT_K)
        g['key'] = ctx.term(st, args[0])
        n = z3.Length(lib.as_seq(e, st, args[1]).seq)
        g['open'] = z3.If(z3.And(matches(ctx, g['key']), n > 0), z3.IntVal(1), z3.IntVal(0))
    elif name == 'iter_end':
        ctx.prove(st, zi(g['open']) == 0, NEXT_K)
        g['phase'] = 1
    elif name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, 'nobody is passed over')
    elif name == 'seq_next' and isinstance(args[0], Ref):
        k = of_entry(ctx, st, args[0])
        if k is None:
            raise Unsupported('recipients are not visited entry by entry')
        ctx.walked = True
        ctx.prove(st, zi(g['owed']) + zi(g['gone']) == 0, NEXT_R)
        g['cur'], g['owed'] = ctx.term(st, lib.content(e, st, args[0])), 1
        if not e.entails(st, k == g['key']):
            raise Unsupported('recipients are not visited entry by entry')
    elif name == 'seq_end' and args:
        if of_entry(ctx, st, args[0]) is None:
            return
        ctx.prove(st, zi(g['owed']) + zi(g['gone']) == 0, NEXT_R)
        g['open'] = 0
    elif name in ('seq_next', 'popped'):
        # the second pass: those found not running
        ctx.prove(st, zi(g['drop']) == 0, 'everyone found not running is unsubscribed')
        v = args[0] if name == 'seq_next' else args[1]
        g['drop'], g['gk'], g['gid'] = 1, ctx.term(st, tup(ctx, st, v, 0)), ctx.term(st, tup(ctx, st, v, 1))
    elif name in ('seq_end', 'pop_empty'):
        ctx.prove(st, zi(g['drop']) == 0, 'everyone found not running is unsubscribed')
        g['swept'] = 1
    elif name == 'tell' and not same(ctx, st, args[0], ctx.me):
        if not ctx.walked:
            raise Unsupported('recipients are told outside a walk over the subscriptions')
        ctx.prove(st, z3.And(zi(g['owed']) == 1, ctx.cterm(st, args[0]) == g['cur']), 'only the recipient at hand is told, and once')
        ctx.prove(st, matches(ctx, g['key']), 'only recipients whose pattern matches the topic (case sensitive, a wildcard does not cross a separator) are told')
        ctx.prove(st, ctx.cterm(st, args[1]) == ctx.msg, 'what is told is the published message')
        ctx.prove(st, way(ctx, st, args[2], args[3], g['task']), 'it is told the way the delivery strategy says')
        g['owed'] = 0
    elif name == 'told' and not same(ctx, st, args[0], ctx.me):
        g['gone'] = 1 if args[4] == 'ActorNotRunning' else 0
    elif name == 'tell':
        u = args[1]
        ctx.prove(st, zi(g['gone']) == 1, 'only an actor which is not running is unsubscribed')
        t = ctx.field(st, u, 'topic')
        some_t = gz(ctx.is_variant(st, t, 'Some'))
        ctx.prove(st, z3.is_true(z3.simplify(some_t)) and z3.And(ctx.term(st, ctx.payload(st, t, 'Some')) == g['key'], ctx.term(st, ctx.field(st, u, 'actor_id')) == id_term(e, g['cur'])),
                  'what is unsubscribed is that actor from that pattern')
        g['gone'] = 0
    elif name == 'spawn':
        g['task'] = g['task'] + 1
    elif name == 'task_end':
        ctx.prove(st, args[0] == 'ret', 'a delivery task does not panic')
        ctx.prove(st, zi(g['owed']) + zi(g['gone']) == 0, 'a delivery task tells its recipient, and unsubscribes it when it is not running')
        g['task'] = g['task'] - 1
    elif name == 'push':
        v = args[1]
        if isinstance(v, Ref) or not (isinstance(v, Agg) and v.path == 'tuple' and len(v.fields) == 2):
            raise Unsupported('something else is collected')
        ctx.prove(st, zi(g['gone']) == 1, 'only an actor which is not running is unsubscribed')
        ctx.prove(st, z3.And(ctx.term(st, v.fields[0]) == g['key'], ctx.term(st, v.fields[1]) == id_term(e, g['cur'])), 'what is unsubscribed is that actor from that pattern')
        g['gone'] = 0
    elif name == 'unsub':
        if zi(g['phase']).eq(z3.IntVal(0)):
            raise Unsupported('unsubscribes while publishing')
        ctx.prove(st, z3.And(zi(g['drop']) == 1, ctx.cterm(st, args[0]) == g['gk'], ctx.cterm(st, args[1]) == g['gid']), 'the actor and pattern found are the ones unsubscribed')
        g['drop'] = 0


def fin_pub(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, z3.And(zi(g['phase']) == 1, zi(g['swept']) == 1), 'every subscription is looked at, and everyone found not running is unsubscribed')


def h_unsub(eng, st, info):
    """unsubscribe (verified above): event unsub(pattern, id); changes the subscriptions"""
    eng.emit(st, 'unsub', info.args[1], info.args[2])
    c, p = eng.deref(st, info.args[0])
    eng.store(st, c, p, eng.havoc_val(st, eng.load(st, c, p)))
    return ret(eng, st, UNIT)


PG = {'open': 0, 'owed': 0, 'gone': 0, 'drop': 0, 'phase': 0, 'swept': 0, 'task': 0, 'before': None}

JOBS = [
    Job('Broker::new', BR + 'new$', crate='actors', finish=fin_new, expect=('nobody is subscribed; delivers the way it is told to',)),
    Job('broker Subscribe', MSG('Subscribe'), crate='actors', extra=TELL + GLOB, setup=s_subs, finish=fin_sub, ghost={'before': None}, expect=('the recipient is added to those of its pattern, and nothing else changes',)),
    Job('Broker::unsubscribe', BR + 'unsubscribe$', crate='actors', extra=TELL + GLOB, setup=s_one, monitor=m_retain(lambda c, s: c.id), finish=fin_one, ghost=RG, expect=('what stays on it is what was kept', 'exactly the recipients which are not that actor stay')),
    Job('broker Unsubscribe', MSG('Unsubscribe'), crate='actors', extra=TELL + GLOB, setup=s_unsub, monitor=m_retain(lambda c, s: c.id), finish=fin_unsub, ghost=RG, expect=('what stays on it is what was kept', 'the list of every pattern is filtered')),
    Job('broker Publish', MSG('Publish'), crate='actors', extra=TELL + GLOB + [(BR + 'unsubscribe$', h_unsub)], setup=s_pub, monitor=m_pub, finish=fin_pub, ghost=PG, config=inline, needs=('^broker::Broker::<M>::unsubscribe$',), budget=300,
        expect=(NEXT_K, NEXT_R, 'it is told the way the delivery strategy says', 'the actor and pattern found are the ones unsubscribed')),
]
