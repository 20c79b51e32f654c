"""Actor pool: every dispatch reaches one worker, the least loaded; dead workers are replaced."""
from .lifecycle import drops
from .toolbox import *

POOL = r'^pool::ActorPool::<A>::'
MSG = lambda m: rf'^<pool::ActorPool<A> as kameo::message::Message<pool::{m}<M>>>::handle$'
HOOK = lambda h: rf'^<pool::ActorPool<A> as kameo::actor::Actor>::{h}$'
MBS = 'mailboxOf'


def h_sender(eng, st, info):
    """the sending side of that actor's mailbox"""
    t = eng.F(MBS, [V], V)(vterm(eng, st, info.args[0]))
    return ret(eng, st, Ref(eng.alloc(st, Sym(t, ty(eng, info.dest)['to']))))


def h_mailbox(kind):
    def h(eng, st, info):
        n = info.args[0] if info.args else None
        eng.emit(st, 'mailbox', n)
        a, b = eng.P.t(info.dest)['fields']
        t = eng.fresh('mailbox')
        eng.axiom(eng.F('capacityOf', [V], z3.IntSort())(t) == (zi(n.e) if n is not None else z3.IntVal(-1)))
        return ret(eng, st, Agg('tuple', 0, [Sym(eng.F('sendSide', [V], V)(t), a), Sym(eng.F('recvSide', [V], V)(t), b)], info.dest))
    h.__doc__ = f'a new {kind} mailbox'
    return h


def h_spawn(eng, st, info):
    """starts the actor on that mailbox: event spawned(actor, mailbox, reference)"""
    r = Sym(eng.fresh('spawned'), info.dest)
    eng.emit(st, 'spawned', info.args[0], info.args[1], r)
    return ret(eng, st, r)


def h_upgrade(eng, st, info):
    """a reference, unless the actor stopped"""
    s2 = st.fork()
    r = Sym(eng.F('upgraded', [V], V)(vterm(eng, st, info.args[0])), field_tid(eng, info.dest, 'Some'))
    eng.emit(s2, 'gone')
    return ret(eng, st, some(eng, info.dest, r)) + ret(eng, s2, none(eng, info.dest))


@fut('link')
def f_link(eng, st, fv, out):
    eng.emit(st, 'link', *fv.args)
    res = cancel_points(eng, st)
    return res + ret(eng, st, UNIT)


def h_link(eng, st, info):
    """links the two actors (C06)"""
    return ret(eng, st, mkfut('link', *info.args))


def h_weak_count(eng, st, info):
    """how many dispatched messages are not handled yet; may change at any time"""
    n = eng.fresh('load', z3.IntSort())
    eng.assume(st, n >= 0)
    eng.emit(st, 'load', info.args[0], I(n))
    return ret(eng, st, I(n))


def weak_of(eng, t):
    return eng.F('weakOf', [V], V)(t)


def arc_term(eng, st, v):
    return vterm(eng, st, v)


def h_arc_downgrade(eng, st, info):
    """counts as one more while it lives"""
    return ret(eng, st, Sym(weak_of(eng, arc_term(eng, st, info.args[0])), info.dest))


def h_reply_sender(eng, st, info):
    """the reply sender of the message at hand: there is one when somebody asked"""
    a, b = eng.P.t(info.dest)['fields']
    ctxt = vterm(eng, st, info.args[0])
    s2 = st.fork()
    tx = Sym(eng.F('replySender', [V], V)(ctxt), field_tid(eng, b, 'Some'))
    eng.emit(st, 'asker', True)
    eng.emit(s2, 'asker', False)
    mk = lambda s, o: ret(eng, s, Agg('tuple', 0, [Sym(eng.fresh('delegated'), a), o], info.dest))
    return mk(st, some(eng, b, tx)) + mk(s2, none(eng, b))


def h_answer(eng, st, info):
    """answers the asker: event answer(sender, value)"""
    eng.emit(st, 'answer', *info.args)
    return ret(eng, st, UNIT)


def h_forward(eng, st, info):
    """the request, to be answered to that reply sender"""
    f = info.args[0]
    return ret(eng, st, mkfut('forward', f.args[0], f.args[1], info.args[1]))


@fut('forward')
def f_forward(eng, st, fv, out):
    recv, msg, tx = fv.args
    eng.emit(st, 'forward', recv, msg, tx)
    res = cancel_points(eng, st)
    s2 = st.fork()
    eng.emit(s2, 'forwarded', False)
    et = field_tid(eng, field_tid(eng, out, 'Err'), 'ActorNotRunning')
    res += ret(eng, s2, send_error(eng, s2, out, 'ActorNotRunning', Agg('tuple', 0, [msg, tx], et)))
    eng.emit(st, 'forwarded', True)
    return res + ret(eng, st, variant(eng, out, 'Ok', UNIT))


USES = TELL + ERR + [
    (rf'^{K}ActorRef::<A>::mailbox_sender$', h_sender), (rf'^{K}ActorRef::<A>::link$', h_link), (rf'^{K}WeakActorRef::<A>::upgrade$', h_upgrade),
    (r'^kameo::mailbox::bounded$', h_mailbox('bounded')), (r'^kameo::mailbox::unbounded$', h_mailbox('unbounded')), (r'^kameo::actor::spawn::spawn_with_mailbox$', h_spawn),
    (r'^alloc::(sync|rcs::arc)::Arc::<T, A>::weak_count$', h_weak_count), (r'^alloc::(sync|rcs::arc)::Arc::<T, A>::downgrade$', h_arc_downgrade),
    (r'^kameo::message::Context::<A, R>::reply_sender$', h_reply_sender), (r'^kameo::reply::ReplySender::<R>::send$', h_answer),
    (r'^kameo::request::ask::AskRequest::<.*>::forward$', h_forward),
]


@fut('made')
def f_made(eng, st, fv, out):
    res = cancel_points(eng, st)
    r = eng.fresh_val(st, out, 'made')
    eng.emit(st, 'made', r)
    return res + ret(eng, st, r)


def factory(eng, ctx):
    """calls of the factory: a new actor each time (async: once awaited)"""
    def call(eng, st, fv, args):
        d = eng.call_dest
        if d is None:
            raise Unsupported('what the factory returns is not known')
        eng.emit(st, 'factory', fv)
        t = eng.P.t(d)
        if t['k'] == 'adt' and t['path'].endswith('ActorRef'):
            r = Sym(eng.fresh('made'), d)
            eng.emit(st, 'made', r)
            return ret(eng, st, r)
        return ret(eng, st, mkfut('made'))
    eng.on_sym_call = call


def workers(ctx, st, ref):
    return lib.as_seq(ctx.eng, st, lib.content(ctx.eng, st, ctx.field(st, ref, 'workers')))


def w_at(ctx, st, s, i):
    """(worker reference, counter) of element i of the workers"""
    e = ctx.eng.from_term(st, s.seq[i], s.etid)
    return pair(ctx, st, e)


def pair(ctx, st, e):
    e = lib.content(ctx.eng, st, e)
    if isinstance(e, Agg):
        return e.fields
    return [ctx.eng.field_of(st, e, None, i, t) for i, t in enumerate(ctx.P.t(e.tid)['fields'])]


def s_workers(ctx, st, args):
    st.ghost['before'] = workers(ctx, st, args[0])
    ctx.eng.assume(st, z3.Length(st.ghost['before'].seq) >= 1)


# ------------------------------------------------------------------ next_worker
def m_next(ctx, st, name, args):
    g = st.ghost
    if name == 'alive':
        g['alive'] += ((ctx.cterm(st, args[0]), args[1].e),)
    elif name == 'load':
        g['load'] += ((arc_term(ctx.eng, st, args[0]), zi(args[1].e)),)
    elif name == 'best_of':
        g['best'] += ((args[0], args[1]),)


def look(ctx, st, table, t):
    return [e for x, e in table if ctx.eng.entails(st, x == t)]


def fin_next(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    g = st.ghost
    if len(g['best']) != 1:
        raise Unsupported('the worker is not chosen with min_by_key')
    j, o = g['best'][0]
    (wj, cj), (wo, co) = pair(ctx, st, j), pair(ctx, st, o)
    w, c = pair(ctx, st, v)
    ctx.prove(st, ctx.cterm(st, w) == ctx.cterm(st, wj), 'the worker is the one found')
    ctx.prove(st, ctx.term(st, c) == weak_of(ctx.eng, ctx.cterm(st, cj)), 'and the counter is its own')
    aj, ao = look(ctx, st, g['alive'], ctx.cterm(st, wj)), look(ctx, st, g['alive'], ctx.cterm(st, wo))
    lj, lo = look(ctx, st, g['load'], ctx.cterm(st, cj)), look(ctx, st, g['load'], ctx.cterm(st, co))
    known = bool(aj and ao)
    ctx.prove(st, z3.And(*[z3.Implies(zb(y), zb(x)) for x in aj[:1] for y in ao[-1:]]) if known else False, 'a running worker is preferred to one which is not')
    both = bool(lj and lo)
    cond = [z3.Implies(zb(x) == zb(y), a <= b) for x in aj[:1] for y in ao[-1:] for a in lj[:1] for b in lo[-1:]]
    ctx.prove(st, z3.And(*cond) if known and both else False, 'of those, none has fewer messages to handle')


# ------------------------------------------------------------------ Dispatch
def h_next_worker(eng, st, info):
    """next_worker (verified above): one of the workers, with its counter"""
    ctx = eng.ctx
    c, p = eng.deref(st, info.args[0])
    pv = eng.load(st, c, p)
    names = [f[0] for f in ty(eng, pv.tid)['variants'][0]['fields']]
    i = names.index('workers')
    ft = ty(eng, pv.tid)['variants'][0]['fields'][i][1]
    wp = tuple(p) + (('f', None, i, ft),)
    s = lib.as_seq(eng, st, lib.content(eng, st, Ref(c, wp)))
    n = eng.fresh('chosen', z3.IntSort())
    eng.assume(st, z3.And(n >= 0, n < z3.Length(s.seq)))
    el = Ref(c, wp + (('idx', n, s.etid),))
    w, cnt = pair(ctx, st, el)
    a, b = eng.P.t(info.dest)['fields']
    weak = Sym(weak_of(eng, ctx.cterm(st, cnt)), b)
    eng.emit(st, 'next_worker', w, weak)
    return ret(eng, st, Agg('tuple', 0, [Ref(eng.alloc(st, w)), weak], info.dest))


def s_disp(ctx, st, args):
    s_workers(ctx, st, args)
    ctx.msg = ctx.term(st, ctx.field(st, args[1], '0'))
    ctx.tx = ctx.eng.F('replySender', [V], V)(lib.cterm(ctx.eng, st, args[2]))
    st.ghost.update({k: z3.Const('no!' + k, V) for k in ('w', 'weak')})


def wrapped(ctx, st, m, weak):
    """condition: the message sent to a worker carries the dispatched message and the worker's counter"""
    m = lib.content(ctx.eng, st, m)
    return z3.And(ctx.term(st, ctx.field(st, m, 'msg')) == ctx.msg, ctx.term(st, ctx.field(st, m, 'counter')) == weak)


ONCE = 'the message goes to the chosen worker, with its counter, once'


def m_disp(ctx, st, name, args):
    g = st.ghost
    if name == 'next_worker':
        g['w'], g['weak'], g['chosen'] = ctx.term(st, args[0]), ctx.term(st, args[1]), 1
    elif name == 'asker':
        g['asker'] = 1 if args[0] else 0
    elif name in ('forward', 'tell', 'ask'):
        ctx.prove(st, zi(g['delivered']) == 0, 'no worker gets it after one accepted it')
        if zi(g['chosen']).eq(z3.IntVal(0)):
            raise Unsupported('the worker is not chosen with next_worker')
        ctx.prove(st, z3.And(zi(g['chosen']) == 1, ctx.cterm(st, args[0]) == g['w'], wrapped(ctx, st, args[1], g['weak'])), ONCE)
        ctx.prove(st, zi(g['asker']) == (1 if name == 'forward' else 0) if name != 'ask' else False, 'the worker answers the asker when there is one')
        if name == 'forward':
            ctx.prove(st, ctx.term(st, args[2]) == ctx.tx, 'the worker answers to the reply sender of this very message')
        if name == 'tell':
            ctx.prove(st, args[2] == 'send' and args[3] is None, 'waiting for room in its mailbox')
        g['chosen'], g['tries'] = 0, z3.simplify(zi(g['tries']) + 1)
    elif name == 'forwarded':
        g['delivered'] = 1 if args[0] else 0
    elif name == 'told':
        g['delivered'] = 1 if args[4] == 'Ok' else 0
    elif name == 'answer':
        ctx.prove(st, z3.And(zi(g['asker']) == 1, zi(g['delivered']) == 0, zi(g['answered']) == 0, ctx.term(st, args[0]) == ctx.tx), 'only an undelivered message is answered by the pool, once')
        refused(ctx, st, args[1])
        g['answered'] = 1


def refused(ctx, st, r):
    ok = ctx.eng.entails(st, gz(ctx.is_variant(st, r, 'Err')))
    e = ctx.payload(st, r, 'Err') if ok else None
    good = e is not None and ctx.eng.entails(st, gz(ctx.is_variant(st, e, 'ActorNotRunning')))
    ctx.prove(st, good and ctx.term(st, ctx.payload(st, e, 'ActorNotRunning')) == ctx.msg, 'an undelivered message is given back: not running')


def fin_disp(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    n = z3.Length(g['before'].seq)
    ctx.prove(st, z3.Or(zi(g['delivered']) == 1, zi(g['tries']) >= n), 'as many workers are tried as there are')
    err = gz(ctx.is_variant(st, v, 'Err'))
    ctx.prove(st, z3.If(zi(g['delivered']) + zi(g['answered']) == 1, z3.Not(err), z3.And(err, zi(g['asker']) == 0)), 'says whether the message was passed on')
    if ctx.eng.entails(st, err):
        refused(ctx, st, v)


# ------------------------------------------------------------------ a worker
def m_worker(ctx, st, name, args):
    g = st.ghost
    if name == 'ask':
        g['asks'] += ((ctx.cterm(st, args[0]), ctx.cterm(st, args[1])),)
    elif name == 'asked':
        g['res'] = args[0]
    elif name == 'alive':
        g['alive'] += ((ctx.cterm(st, args[0]), args[1].e, g['res'] is not None),)
    elif name == 'kill':
        g['kills'] += (ctx.cterm(st, args[0]),)
    elif name == 'counter_gone':
        if ctx.eng.entails(st, ctx.term(st, args[0]) == g['counter']) and g['res'] is None:
            g['early'] = True


def s_worker(ctx, st, args):
    st.ghost['counter'] = ctx.term(st, ctx.field(st, args[1], 'counter'))


COUNTED = 'the message counts as load of the worker until it is answered'


def fin_worker(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    a = ctx.cterm(st, ctx.field(st, ctx.args[0], 'actor_ref'))
    m = ctx.term(st, ctx.field(st, ctx.args[1], 'msg'))
    ctx.prove(st, len(g['asks']) == 1 and z3.And(g['asks'][0][0] == a, g['asks'][0][1] == m) if len(g['asks']) == 1 else False, 'its actor is asked that message, once')
    ctx.prove(st, g['res'] is not None and deep_eq(ctx, st, v, g['res']) if g['res'] is not None else False, 'it answers what its actor answered')
    ctx.prove(st, not g['early'], COUNTED)
    me = ctx.eng.F('ctxRef', [V], V)(lib.cterm(ctx.eng, st, ctx.args[2]))
    seen = [e for t, e, after in g['alive'] if after and ctx.eng.entails(st, t == a)]
    ctx.prove(st, z3.Or(*[zb(e) for e in seen]) if not g['kills'] else z3.And(z3.BoolVal(bool(seen)), *[z3.Not(zb(e)) for e in seen], *[t == me for t in g['kills']]) if seen else False,
              'it stops exactly when its actor is found not running, so that it is replaced')


# ------------------------------------------------------------------ starting, replacing
LINKED = 'every worker is linked with the pool'


def m_start(ctx, st, name, args):
    g = st.ghost
    if name == 'seq_next':
        ctx.prove(st, zi(g['owed']) == 0, LINKED)
        w, _ = pair(ctx, st, args[0])
        g['w'], g['owed'] = ctx.cterm(st, w), 1
        ctx.walked = True
    elif name == 'seq_end':
        ctx.prove(st, zi(g['owed']) == 0, LINKED)
        g['ended'] = 1
    elif name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, LINKED)
    elif name == 'link':
        me = ctx.args_start
        a, b = ctx.cterm(st, args[0]), ctx.cterm(st, args[1])
        if not ctx.walked:
            # worker after worker, by index
            w, _ = w_at(ctx, st, g['before'], zi(g['n']))
            w = ctx.cterm(st, w)
            ctx.prove(st, z3.And(zi(g['n']) < z3.Length(g['before'].seq), z3.Or(z3.And(a == w, b == me), z3.And(b == w, a == me))), 'the worker at hand is linked with the pool')
            g['n'] = z3.simplify(zi(g['n']) + 1)
            return
        ctx.prove(st, z3.And(zi(g['owed']) == 1, z3.Or(z3.And(a == g['w'], b == me), z3.And(b == g['w'], a == me))), 'the worker at hand is linked with the pool')
        g['owed'] = 0


def s_start(ctx, st, args):
    s_workers(ctx, st, args)
    ctx.walked = False
    ctx.args_start = ctx.cterm(st, args[1])
    st.ghost['w'] = z3.Const('no!w', V)


def fin_start(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'Ok')), 'starts')
    ctx.prove(st, z3.Or(zi(st.ghost['ended']) == 1, zi(st.ghost['n']) == z3.Length(st.ghost['before'].seq)), LINKED)


def m_spawn(ctx, st, name, args):
    """a worker: its actor is what the factory made, its mailbox as big as its actor's"""
    g = st.ghost
    if name == 'made':
        ctx.prove(st, zi(g['pending']) == 0, 'every actor made gets a worker')
        g['actor'], g['pending'], g['made'] = ctx.term(st, args[0]), 1, z3.simplify(zi(g['made']) + 1)
    elif name == 'spawned':
        e = ctx.eng
        ctx.prove(st, z3.And(zi(g['pending']) == 1, ctx.term(st, ctx.field(st, args[0], 'actor_ref')) == g['actor']), 'a worker runs the actor just made')
        s = e.F(MBS, [V], V)(g['actor'])
        mb = ctx.term(st, lib.content(e, st, pair(ctx, st, args[1])[0]))
        cap = mailbox_cap(ctx, st, mb)
        mt = mbs_tid(ctx)
        sv = Sym(s, mt)
        bounded = gz(ctx.is_variant(st, sv, 'Bounded'))
        tx = ctx.payload(st, sv, 'Bounded')
        want = ctx.eng.sym(st, ctx.eng.F('q:max_capacity:', [V], V)(ctx.term(st, tx)), usize_tid(ctx))
        ctx.prove(st, z3.If(bounded, cap == zi(want.e), cap == -1), "a worker's mailbox has the capacity of its actor's")
        g['worker'], g['pending'] = ctx.term(st, args[2]), 0
    elif name == 'mailbox' and args[0] is not None:
        ctx.prove(st, zi(args[0].e) > 0, 'a bounded mailbox has room for a message')


def mailbox_cap(ctx, st, mb):
    e = ctx.eng
    m = e.F('mailboxBehind', [V], V)(mb)
    if mb.decl().name() == 'sendSide':
        return e.F('capacityOf', [V], z3.IntSort())(mb.arg(0))
    raise Unsupported('another kind of mailbox')


def mbs_tid(ctx):
    for i, t in enumerate(ctx.P.types):
        if t['k'] == 'adt' and t['path'].endswith('MailboxSender') and t.get('expanded', True):
            a = [x for x in t['args'] if isinstance(x, int)]
            if a and ctx.P.t(a[0])['s'] == 'A':
                return i
    raise Unsupported('anchor lost: MailboxSender<A>')


def usize_tid(ctx):
    return next(i for i, t in enumerate(ctx.P.types) if t['s'] == 'usize')


def m_died(ctx, st, name, args):
    g = st.ghost
    m_spawn(ctx, st, name, args)
    if name == 'gone':
        g['gone'] = 1
    elif name in ('seq_next', 'seq_end'):
        ctx.prove(st, zi(g['hit']) == 0, 'the search does not pass over the worker which died')
        if name == 'seq_next':
            w, _ = pair(ctx, st, args[0])
            pos = [s[1] for s in args[0].path if s[0] == 'idx']
            g['hit'] = z3.If(id_term(ctx.eng, ctx.cterm(st, w)) == ctx.id, z3.IntVal(1), z3.IntVal(0))
            g['at'] = pos[-1] if pos else z3.IntVal(-1)
            ctx.walked = True
        else:
            g['ended'] = 1
    elif name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, 'the search does not pass over the worker which died')
    elif name == 'link':
        g['links'] += ((ctx.cterm(st, args[0]), ctx.cterm(st, args[1])),)


def s_died(ctx, st, args):
    s_workers(ctx, st, args)
    ctx.walked = False
    ctx.id = ctx.cterm(st, args[2])
    ctx.me = ctx.eng.F('upgraded', [V], V)(ctx.cterm(st, args[1]))
    st.ghost.update({k: z3.Const('no!' + k, V) for k in ('actor', 'worker')})


def fin_died(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    ok = ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Ok')))
    ctx.prove(st, ok and gz(ctx.is_variant(st, ctx.payload(st, v, 'Ok'), 'Continue')) if ok else False, 'the pool goes on')
    b, a = g['before'].seq, workers(ctx, st, ctx.args[0]).seq
    made = z3.simplify(zi(g['made']))
    if g['gone']:
        ctx.prove(st, z3.And(made == 0, a == b), 'a pool which is gone does nothing')
        return
    if not ctx.walked:
        raise Unsupported('the worker is not searched by walking over the workers')
    if made.eq(z3.IntVal(0)):
        ctx.prove(st, z3.And(zi(g['ended']) == 1, a == b), 'nothing changes when no worker has that id')
        return
    at = zi(g['at'])
    ctx.prove(st, z3.And(made == 1, zi(g['hit']) == 1), 'exactly the worker which died is replaced')
    nw, _ = w_at(ctx, st, workers(ctx, st, ctx.args[0]), at)
    ctx.prove(st, z3.And(z3.Length(a) == z3.Length(b), ctx.term(st, nw) == g['worker']), 'the new worker takes its place')
    ctx.prove(st, a == z3.Concat(z3.SubSeq(b, 0, at), z3.Unit(a[at]), z3.SubSeq(b, at + 1, z3.Length(b) - at - 1)), 'the other workers stay')
    l = g['links']
    ctx.prove(st, len(l) == 1 and z3.Or(z3.And(l[0][0] == g['worker'], l[0][1] == ctx.me), z3.And(l[0][1] == g['worker'], l[0][0] == ctx.me)) if len(l) == 1 else False, 'the new worker is linked with the pool')


# ------------------------------------------------------------------ Broadcast
ALL = 'every worker is told once, in the order of the workers'


def s_cast(ctx, st, args):
    s_workers(ctx, st, args)
    ctx.msg = ctx.term(st, ctx.field(st, args[1], '0'))
    ctx.walked = False
    st.ghost.update({k: z3.Const('no!' + k, V) for k in ('w', 'weak', 'out')})


def m_cast(ctx, st, name, args):
    g = st.ghost
    if name == 'seq_next':
        ctx.prove(st, zi(g['owed']) + zi(g['answer']) == 0, ALL)
        w, c = pair(ctx, st, args[0])
        g['w'], g['weak'], g['owed'] = ctx.cterm(st, w), weak_of(ctx.eng, ctx.cterm(st, c)), 1
        ctx.walked = True
    elif name == 'seq_end':
        ctx.prove(st, zi(g['owed']) + zi(g['answer']) == 0, ALL)
        g['ended'] = 1
    elif name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, ALL)
    elif name == 'tell':
        if not ctx.walked:
            raise Unsupported('workers are told outside a walk over them')
        ctx.prove(st, z3.And(zi(g['owed']) == 1, ctx.cterm(st, args[0]) == g['w'], wrapped(ctx, st, args[1], g['weak'])), 'the worker at hand is told the message, with its counter')
        ctx.prove(st, args[2] == 'send' and args[3] is None, 'waiting for room in its mailbox')
        g['owed'], g['answer'] = 0, 1
    elif name == 'told':
        g['kind'] = 0 if args[4] == 'Ok' else 1
    elif name == 'joined':
        r = args[0]
        ctx.prove(st, zi(g['answer']) == 1, ALL)
        k = zi(g['kind'])
        if ctx.eng.entails(st, gz(ctx.is_variant(st, r, 'Ok'))):
            ctx.prove(st, k == 0, 'what came of each is reported')
        else:
            e = ctx.payload(st, r, 'Err')
            ctx.prove(st, z3.And(k == 1, gz(ctx.is_variant(st, e, 'ActorNotRunning')), ctx.term(st, ctx.payload(st, e, 'ActorNotRunning')) == ctx.msg), 'what came of each is reported')
        g['answer'] = 0
    elif name == 'join_end':
        g['out'] = ctx.term(st, args[0])


def fin_cast(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, zi(g['ended']) == 1, ALL)
        ctx.prove(st, ctx.term(st, v) == g['out'], 'the answer holds what came of each, in order')


# ------------------------------------------------------------------ new pools
def s_new(ctx, st, args):
    ctx.n = zi(args[0].e)
    st.ghost.update({k: z3.Const('no!' + k, V) for k in ('actor', 'worker', 'out')})


def m_new(ctx, st, name, args):
    g = st.ghost
    m_spawn(ctx, st, name, args)
    if name in ('collected', 'joined'):
        w, _ = pair(ctx, st, args[0])
        ctx.prove(st, z3.And(zi(g['pending']) == 0, ctx.term(st, w) == g['worker']), 'the workers of the pool are those spawned')
    elif name in ('join_end', 'collect_end'):
        g['out'] = ctx.term(st, args[0])
    elif name == 'push':
        w, _ = pair(ctx, st, args[1])
        ctx.prove(st, z3.And(zi(g['pending']) == 0, ctx.term(st, w) == g['worker']), 'the workers of the pool are those spawned')
        g['list'] = z3.Concat(g['list'], z3.Unit(ctx.term(st, args[1])))


def fin_newpool(ctx, st, kind, v):
    g = st.ghost
    if kind != 'ret':
        ctx.prove(st, ctx.n == 0, 'panics only for a pool without workers')
        return
    s = workers(ctx, st, v)
    ctx.prove(st, z3.And(z3.Length(s.seq) == ctx.n, zi(g['made']) == ctx.n), 'the pool has as many workers as asked for')
    ctx.prove(st, z3.Or(s.seq == g['list'], ctx.term(st, lib.content(ctx.eng, st, ctx.field(st, v, 'workers'))) == g['out']), 'the workers of the pool are those spawned')


# ------------------------------------------------------------------ replies
def fin_any_err(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    e = ctx.args[0]
    err = gz(ctx.is_variant(st, e, 'Err'))
    if ctx.eng.entails(st, err):
        ok = ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Some')))
        b = ctx.payload(st, v, 'Some') if ok else None
        ctx.prove(st, ok and isinstance(b, BoxV) and deep_eq(ctx, st, ctx.payload(st, e, 'Err'), st.heap[b.cell]) if ok else False, 'an error to report is that of the dispatch')
    else:
        ctx.prove(st, z3.And(z3.Not(err), gz(ctx.is_variant(st, v, 'None'))), 'a forwarded message is no error')


def h_bse_downcast(eng, st, info):
    """BoxSendError::downcast (verified in errors.py): the same kind of error with what is in the box; the boxes hold the types asked for"""
    out = []
    D = info.dest
    for s, x, fs in by_variant(eng, st, info.args[0]):
        n = x['name']
        un = lambda s, b, t: eng.from_term(s, eng.F('unbox', [V], V)(eng.term(s, b)), t)
        if not fs:
            out += ret(eng, s, variant(eng, D, n))
        elif n == 'Timeout':
            ot = field_tid(eng, D, n)
            for s2, yes in eng.branch(s, eng.discriminant(s, fs[0]) == 1):
                out += ret(eng, s2, variant(eng, D, n, some(eng, ot, un(s2, eng.field_of(s2, fs[0], 1, 0, field_tid(eng, fs[0].tid, 'Some')), field_tid(eng, ot, 'Some'))) if yes else none(eng, ot)))
        else:
            out += ret(eng, s, variant(eng, D, n, un(s, fs[0], field_tid(eng, D, n))))
    return out


HANDLER = 'an error of the worker is about the dispatched message'


def fin_downcast(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    e, E = ctx.args[0], ctx.eng
    n, r = kind_of(ctx, st, e), kind_of(ctx, st, v)
    if n is None or r is None:
        ctx.prove(st, False, 'the kind is determined')
        return
    un = lambda b: E.F('unbox', [V], V)(ctx.term(st, b))

    def opt(s, k):
        """the payload, None when there is none"""
        p = ctx.payload(st, s, k)
        if k != 'Timeout':
            return p
        return ctx.payload(st, p, 'Some') if E.entails(st, gz(ctx.is_variant(st, p, 'Some'))) else None
    if n != 'HandlerError':
        ok = n == r
        if ok and n != 'ActorStopped':
            a, b = opt(e, n), opt(v, n)
            ok = (a is None) == (b is None) and (a is None or E.entails(st, un(a) == ctx.term(st, b)))
        ctx.prove(st, ok, 'an error of the pool itself is kept')
        return
    inner = Sym(un(ctx.payload(st, e, n)), inner_tid(ctx, ctx.args[0], v))
    k = kind_of(ctx, st, inner)
    if k in ('ActorStopped', 'HandlerError'):
        ctx.prove(st, r == k and (k == 'ActorStopped' or E.entails(st, ctx.term(st, ctx.payload(st, inner, k)) == ctx.term(st, ctx.payload(st, v, k)))), HANDLER)
        return
    if k is None:
        ctx.prove(st, False, 'the kind is determined')
        return
    if k == 'Timeout' and kind_of(ctx, st, v) == k and E.entails(st, gz(ctx.is_variant(st, ctx.payload(st, v, k), 'None'))):
        ctx.prove(st, z3.Or(gz(ctx.is_variant(st, ctx.payload(st, inner, k), 'None')), z3.Not(dispatched(ctx, st, v))), HANDLER)
        return
    m = opt(inner, k)
    if r != k:
        ctx.prove(st, z3.And(r == 'ActorStopped' and k != 'Timeout', z3.Not(dispatched(ctx, st, v))), HANDLER)
        return
    o = opt(v, k)
    if m is None or o is None:
        ctx.prove(st, o is None and (m is None or E.entails(st, z3.Not(dispatched(ctx, st, v)))), HANDLER)
        return
    x = lib.content(E, st, o)
    ctx.prove(st, z3.And(dispatched(ctx, st, v), ctx.term(st, x.fields[0]) == ctx.term(st, m)) if isinstance(x, Agg) and x.path.endswith('Dispatch') else False, HANDLER)


def kind_of(ctx, st, e):
    vs = ctx.P.t(e.tid)['variants']
    hit = [x['name'] for x in vs if ctx.eng.entails(st, gz(ctx.is_variant(st, e, x['name'])))]
    return hit[0] if len(hit) == 1 else None


def inner_tid(ctx, e, v):
    """the type SendError<M, A::Reply::Error>"""
    for i, t in enumerate(ctx.P.types):
        if t['k'] == 'adt' and t['path'].endswith('error::SendError') and t['s'].startswith('kameo::error::SendError<M,') and 'SendError<M, kameo' not in t['s'] and 'Reply>::Error' in t['s'] and t.get('variants'):
            return i
    raise Unsupported('anchor lost: SendError<M, _>')


def dispatched(ctx, st, v):
    """condition: the message type asked for is that of the dispatch"""
    return z3.Bool('same_type(pool::Dispatch<M>,N)')


JOBS = [
    Job('ActorPool::next_worker', POOL + 'next_worker$', crate='actors', extra=USES, setup=s_workers, monitor=m_next, finish=fin_next, ghost={'before': None, 'alive': (), 'load': (), 'best': ()},
        expect=('the worker is the one found', 'and the counter is its own', 'of those, none has fewer messages to handle')),
    Job('pool Dispatch', MSG('Dispatch'), crate='actors', extra=USES + [(POOL + 'next_worker$', h_next_worker)], setup=s_disp, monitor=m_disp, finish=fin_disp,
        ghost={'before': None, 'chosen': 0, 'asker': 0, 'delivered': 0, 'answered': 0, 'tries': z3.IntVal(0)}, needs=('^pool::ActorPool::<A>::next_worker$',),
        expect=(ONCE, 'says whether the message was passed on', 'an undelivered message is given back: not running', 'as many workers are tried as there are')),
    Job('a worker', r'^<pool::Worker<A> as kameo::message::Message<pool::WorkerMsgWrapper<M>>>::handle$', crate='actors', extra=USES, setup=s_worker, monitor=m_worker, finish=fin_worker, config=drops(r'^alloc::(sync|rcs::arc)::Weak$', 'counter_gone'),
        ghost={'asks': (), 'res': None, 'alive': (), 'kills': (), 'counter': None, 'early': False}, expect=('its actor is asked that message, once', 'it answers what its actor answered')),
    Job('pool on_start', HOOK('on_start'), crate='actors', extra=USES, setup=s_start, monitor=m_start, finish=fin_start, ghost={'before': None, 'owed': 0, 'ended': 0, 'n': 0}, expect=(LINKED, 'the worker at hand is linked with the pool')),
    Job('pool on_link_died', HOOK('on_link_died'), crate='actors', extra=USES, setup=s_died, monitor=m_died, finish=fin_died, config=factory, budget=300,
        ghost={'before': None, 'made': z3.IntVal(0), 'pending': 0, 'gone': 0, 'hit': 0, 'at': z3.IntVal(-1), 'ended': 0, 'links': ()},
        expect=('exactly the worker which died is replaced', 'the new worker takes its place', 'the other workers stay', 'the new worker is linked with the pool', 'nothing changes when no worker has that id')),
    Job('pool Broadcast', MSG('Broadcast'), crate='actors', extra=USES, setup=s_cast, monitor=m_cast, finish=fin_cast, ghost={'before': None, 'owed': 0, 'answer': 0, 'kind': 0, 'ended': 0},
        expect=(ALL, 'what came of each is reported', 'the worker at hand is told the message, with its counter')),
    Job('ActorPool::new', POOL + 'new$', crate='actors', extra=USES, setup=s_new, monitor=m_new, finish=fin_newpool, config=factory, ghost={'made': z3.IntVal(0), 'pending': 0, 'list': z3.Empty(SeqV)},
        expect=('the pool has as many workers as asked for', "a worker's mailbox has the capacity of its actor's")),
    Job('ActorPool::new_async', POOL + 'new_async$', crate='actors', extra=USES, setup=s_new, monitor=m_new, finish=fin_newpool, config=factory, ghost={'made': z3.IntVal(0), 'pending': 0, 'list': z3.Empty(SeqV)},
        expect=('the pool has as many workers as asked for', "a worker's mailbox has the capacity of its actor's")),
    Job('WorkerReply::into_any_err', r'^<pool::WorkerReply<A, M> as kameo::reply::Reply>::into_any_err$', crate='actors', finish=fin_any_err, expect=('an error to report is that of the dispatch', 'a forwarded message is no error')),
    Job('WorkerReply::downcast_err', r'^<pool::WorkerReply<A, M> as kameo::reply::Reply>::downcast_err$', crate='actors', finish=fin_downcast, extra=ERR + [(r'^kameo::error::SendError::<.*>::downcast$', h_bse_downcast)],
        expect=('an error of the pool itself is kept', HANDLER)),
]
