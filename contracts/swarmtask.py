"""The swarm task: what it does with the commands of this node and with what the network tells it."""
from .base import *
from .ids import is_ok, LOCAL
from .swarm import *
from .lifecycle import same_box

HD = r'^remote::swarm::ActorSwarmHandler::'
QUERIES = ('get_queries', 'put_queries', 'requests')
BoolS = z3.BoolSort()


# ------------------------------------------------------------------ the network below it
def h_net(eng, st, info):
    """the network behaviour (a type parameter here; kameo's own is verified below): told of every operation, arbitrary result"""
    r = eng.fresh_val(st, info.dest, 'net_' + info.callee['name']) if not unit(eng, info.dest) else UNIT
    eng.emit(st, 'net', info.callee['name'], info.args[1:], r)
    return ret(eng, st, r)


def unit(eng, t):
    return t is None or (ty(eng, t)['k'] == 'tuple' and not ty(eng, t).get('fields'))


def h_swarm(eng, st, info):
    """libp2p's Swarm: told of every operation, arbitrary result"""
    n = info.callee['name']
    r = eng.fresh_val(st, info.dest, 'swarm_' + n) if not unit(eng, info.dest) else UNIT
    eng.emit(st, 'net', n, info.args[1:], r)
    return ret(eng, st, r)


def h_info(eng, st, info):
    """how many peers are connected"""
    return ret(eng, st, Sym(eng.F('networkInfo', [V], V)(lib.cterm(eng, st, info.args[0])), info.dest))


def h_num(eng, st, info):
    """how many peers are connected"""
    n = z3.Int('connected_peers')
    eng.axiom(n >= 0)
    return ret(eng, st, I(n))


def h_bmut(eng, st, info):
    """the behaviour inside the swarm"""
    return ret(eng, st, Ref(eng.alloc(st, Sym(eng.F('behaviour', [V], V)(lib.cterm(eng, st, info.args[0])), ty(eng, info.dest)['to']))))


def h_local(eng, st, info):
    """the swarm's own peer id, the one the actor swarm was bootstrapped with"""
    return ret(eng, st, Ref(eng.alloc(st, Sym(LOCAL, ty(eng, info.dest)['to']))))


def h_dispatch(op):
    def h(eng, st, info):
        return ret(eng, st, mkfut('dispatch', op, *info.args))
    h.__doc__ = f'remote::{op} (verified in dispatch.py): arbitrary result'
    return h


@fut('dispatch')
def f_dispatch(eng, st, fv, out):
    eng.emit(st, 'dispatch', fv.args[0], fv.args[1:])
    r = eng.fresh_val(st, out, 'dispatched')
    eng.emit(st, 'dispatched', r)
    return ret(eng, st, r)


def h_ask_swarm(eng, st, info):
    """a question about the connections, which changes nothing: any answer"""
    return ret(eng, st, eng.fresh_val(st, info.dest, 'swarm_' + info.callee['name']))


NET = [(r'^libp2p_swarm::Swarm::<\w+>::(is_connected|connected_peers|listeners|external_addresses)$', h_ask_swarm),
       (r'^remote::swarm::SwarmBehaviour::\w+$', h_net), (r'^libp2p_swarm::Swarm::<\w+>::network_info$', h_info), (r'libp2p_swarm::NetworkInfo::num_peers$', h_num),
       (r'^libp2p_swarm::Swarm::<\w+>::behaviour_mut$', h_bmut), (r'^libp2p_swarm::Swarm::<\w+>::local_peer_id$', h_local),
       (r'^libp2p_swarm::Swarm::<\w+>::(listen_on|dial|add_peer_address|disconnect_peer_id|add_external_address|close_connection)$', h_swarm)]
DISPATCH = [(rf'^remote::{o}$', h_dispatch(o)) for o in ('ask', 'tell', 'link', 'unlink', 'signal_link_died')]
TG = {'net': (), 'replies': (), 'disp': (), 'res': (), 'spawns': 0, 'before': None, 'cmds': (), 'refused': False, 'now': None}


def inline(eng, ctx):
    eng.inline_spawn = True


def m_task(ctx, st, name, args):
    g = st.ghost
    if name == 'net':
        g['net'] += ((args[0], [lib.content(ctx.eng, st, a) for a in args[1]], args[2]),)
    elif name == 'reply':
        g['replies'] += ((ctx.term(st, args[0]), args[1]),)
    elif name == 'dispatch':
        g['disp'] += ((args[0], args[1]),)
    elif name == 'dispatched':
        g['res'] += (args[0],)
    elif name == 'spawn':
        g['spawns'] += 1
    elif name == 'send_attempt':
        g['cmds'] += ((ctx.term(st, args[0]), args[1]),)
    elif name == 'send_refused':
        g['refused'] = True
    elif name == 'map_retained':
        # any of the tables may be rid of slots nobody waits for
        ctx.prove(st, z3.Or(gz(args[2].e), abandoned(ctx)(ctx.cterm(st, args[1]))), 'a slot is given up only when nobody waits for its answer')
    elif name == 'map_retain_end':
        x = z3.Const('any!query', V)
        for q, m in maps(ctx, st, ctx.args[0]).items():
            if m.val.eq(g['now'][q].val):
                ctx.eng.assume(st, z3.Implies(z3.And(z3.Select(g['now'][q].dom, x), z3.Not(z3.Select(m.dom, x))), abandoned(ctx)(z3.Select(m.val, x))))
        g['now'] = None
    elif name == 'map_retain':
        g['now'] = maps(ctx, st, ctx.args[0])


def abandoned(ctx):
    return ctx.eng.F('noOneWaits', [V], z3.BoolSort())


def maps(ctx, st, self):
    return {q: lib.as_map(ctx.eng, st, ctx.field(st, self, q)) for q in QUERIES}


def ends(ctx, st, self):
    return ctx.eng.F('ends', [V, V], V)(sender_of(ctx, st, ctx.field(st, self, 'cmd_tx')), ctx.term(st, ctx.field(st, self, 'cmd_rx')))


def others(ctx, b, a, k=None):
    """table a is table b, save for what is under k, and for slots nobody waits for"""
    x = z3.Const('any!query', V)
    d = z3.Select
    return z3.Implies(z3.BoolVal(True) if k is None else x != k,
                      z3.And(z3.Implies(d(a.dom, x), z3.And(d(b.dom, x), d(a.val, x) == d(b.val, x))), z3.Implies(d(b.dom, x), z3.Or(d(a.dom, x), abandoned(ctx)(d(b.val, x))))))


def keep(ctx, st, but=()):
    """the tables of waiting slots are as before, except the named one"""
    b, a = st.ghost['before'], maps(ctx, st, ctx.args[0])
    ctx.prove(st, ends(ctx, st, ctx.args[0]) == b['ends'], 'the task keeps both ends of its queue')
    ctx.prove(st, z3.And(*[others(ctx, b[q], a[q]) for q in QUERIES if q not in but]), 'the answers others wait for are left alone')
    return b, a


def stored(ctx, st, table, key, slot):
    b, a = keep(ctx, st, (table,))
    b, a = b[table], a[table]
    k, s = ctx.term(st, key), ctx.term(st, slot)
    ctx.prove(st, z3.And(z3.Select(a.dom, k), z3.Select(a.val, k) == s, others(ctx, b, a, k)),
              'the slot waits under the id of this very request')


def taken(ctx, st, table, key):
    """the slot is removed; returns (was there, slot term)"""
    b, a = keep(ctx, st, (table,))
    b, a = b[table], a[table]
    k = ctx.term(st, key)
    ctx.prove(st, z3.And(z3.Not(z3.Select(a.dom, k)), others(ctx, b, a, k)),
              'its slot no longer waits, the others do')
    return z3.Select(b.dom, k), z3.Select(b.val, k)


def a_cmd(variant, which=2):
    """the given enum argument is of this variant, with arbitrary fields"""
    def f(ctx, st, args):
        return args[:which] + [enum_of(ctx, st, args[which].tid, variant)]
    return f


def enum_of(ctx, st, tid, variant, **over):
    T = ctx.P.t(tid)
    vi = [i for i, x in enumerate(T['variants']) if x['name'] == variant][0]
    return Agg(T['path'], vi, [over.get(n) or ctx.eng.fresh_val(st, ft, n) for n, ft in T['variants'][vi]['fields']], tid)


def struct_of(ctx, st, tid, **over):
    T = ctx.P.t(tid)
    return Agg(T['path'], 0, [over.get(n) or ctx.eng.fresh_val(st, ft, n) for n, ft in T['variants'][0]['fields']], tid)


def f_of(ctx, c, n):
    return c.fields[[f[0] for f in ctx.P.t(c.tid)['variants'][c.variant]['fields']].index(n)]


def s_task(ctx, st, args):
    st.ghost['before'] = dict(maps(ctx, st, args[0]), ends=ends(ctx, st, args[0]))


def teq(ctx, st, a, b):
    """same value; texts and references by what they hold"""
    a, b = lib.content(ctx.eng, st, a), lib.content(ctx.eng, st, b)
    pa = [ctx.P.t(x.tid)['path'] if isinstance(x, (Agg, Sym)) and x.tid is not None and ctx.P.t(x.tid)['k'] == 'adt' else '' for x in (a, b)]
    if any(p.endswith('borrow::Cow') for p in pa):
        return ctx.eng.term(st, lib.text_of(ctx.eng, st, a)) == ctx.eng.term(st, lib.text_of(ctx.eng, st, b))
    return deep_eq(ctx, st, a, b)


def all_eq(ctx, st, xs, ys):
    return len(xs) == len(ys) and z3.And(*[gz(teq(ctx, st, x, y)) for x, y in zip(xs, ys)])


def once(ctx, st, op, args, what):
    """exactly this network operation with these arguments; its result"""
    n = [x for x in st.ghost['net']]
    ok = len(n) == 1 and n[0][0] == op
    ctx.prove(st, ok, what)
    if ok:
        ctx.prove(st, all_eq(ctx, st, n[0][1], args), what + ': with what the command says')
        return n[0][2]


def one_reply(ctx, st, slot, what='the slot is answered once'):
    r = st.ghost['replies']
    ok = len(r) == 1
    ctx.prove(st, ok and gz(r[0][0] == ctx.term(st, slot)), what)
    return r[0][1] if ok else None


def nothing_else(ctx, st):
    g = st.ghost
    ctx.prove(st, not g['replies'] and not g['disp'] and not g['cmds'], 'nobody is answered yet')


def fin(f):
    def g(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'the swarm task never panics')
        if kind == 'ret':
            f(ctx, st)
    return g


# ------------------------------------------------------------------ requests to actors
# command -> (operation here, its arguments as fields of the command, fields of the arguments on the network, whose peer, answer)
REQ = {
    'Ask': ('ask', 'actor_id actor_remote_id message_remote_id payload mailbox_timeout reply_timeout immediate', '&peer_id', 'Ask'),
    'Tell': ('tell', 'actor_id actor_remote_id message_remote_id payload mailbox_timeout immediate', '&peer_id', 'Tell'),
    'Link': ('link', 'sibbling_id sibbling_remote_id actor_id actor_remote_id', 'sibbling_id', 'Link'),
    'Unlink': ('unlink', 'sibbling_id sibbling_remote_id actor_id', 'sibbling_id', 'Unlink'),
    'SignalLinkDied': ('signal_link_died', 'dead_actor_id notified_actor_id notified_actor_remote_id stop_reason', 'notified_actor_id', 'SignalLinkDied'),
}


def target_local(ctx, st, c, who):
    """the actor addressed runs on this node"""
    if who == '&peer_id':
        return ctx.term(st, f_of(ctx, c, 'peer_id')) == LOCAL
    k = ctx.field(st, f_of(ctx, c, who), 'peer_id')
    isl = gz(ctx.is_variant(st, k, 'Local'))
    return z3.Or(isl, ctx.term(st, ctx.payload(st, k, 'PeerId')) == LOCAL)


def response(ctx, st, r, variant, result):
    return isinstance(r, Agg) and ctx.P.t(r.tid)['variants'][r.variant]['name'] == variant and deep_eq(ctx, st, r.fields[0], result)


def c_request(v):
    op, fields, who, ans = REQ[v]

    def f(ctx, st):
        g, c = st.ghost, ctx.args[2]
        args = [f_of(ctx, c, n) for n in fields.split()]
        loc = target_local(ctx, st, c, who)
        here = bool(g['disp'])
        ctx.prove(st, loc if here else z3.Not(loc), 'it is handled here exactly when the actor runs on this node')
        if here:
            ctx.prove(st, len(g['disp']) == 1 and g['disp'][0][0] == op and not g['net'], 'it is dispatched once, by the right operation')
            ctx.prove(st, all_eq(ctx, st, g['disp'][0][1], args), 'with what the command says')
            r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
            if r is not None and g['res']:
                ctx.prove(st, response(ctx, st, r, ans, g['res'][0]), 'what came of it is the answer')
            keep(ctx, st)
        else:
            nargs = ([f_of(ctx, c, 'peer_id')] if who == '&peer_id' else []) + args
            rid = once(ctx, st, op, nargs, 'the peer is asked once, for the right thing')
            nothing_else(ctx, st)
            if rid is not None:
                stored(ctx, st, 'requests', rid, f_of(ctx, c, 'reply'))
    return fin(f)


def c_send_response(op):
    def f(ctx, st):
        c = ctx.args[2]
        once(ctx, st, op, [f_of(ctx, c, 'channel'), f_of(ctx, c, 'result')], 'the result goes back through its channel once')
        nothing_else(ctx, st)
        keep(ctx, st)
    return fin(f)


# ------------------------------------------------------------------ names
def c_lookup(ctx, st):
    c = ctx.args[2]
    q = once(ctx, st, 'kademlia_get_record', [f_of(ctx, c, 'key')], 'the record of the name is asked for')
    nothing_else(ctx, st)
    if q is not None:
        stored(ctx, st, 'get_queries', q, f_of(ctx, c, 'reply'))


def c_lookup_local(ctx, st):
    e, c = ctx.eng, ctx.args[2]
    rec = once(ctx, st, 'kademlia_get_record_local', [f_of(ctx, c, 'key')], "this node's record of the name is read")
    r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
    keep(ctx, st)
    if rec is None or r is None:
        return
    some_ = is_var(ctx, st, rec, 'Some')
    if e.entails(st, z3.Not(some_)):
        ctx.prove(st, is_var(ctx, st, r, 'None'), 'without a record there is no actor')
        return
    cow = ctx.payload(st, rec, 'Some')
    recv = lib.cow_content(e, st, cow)
    ok, i, t = reg_parts(e, lib.as_seq(e, st, ctx.field(st, recv, 'value')).seq)
    ctx.prove(st, z3.And(some_, is_var(ctx, st, r, 'Some') == ok), 'the answer is an actor exactly when the record is a registration')
    if e.entails(st, is_var(ctx, st, r, 'Some')):
        reg = ctx.payload(st, r, 'Some')
        ctx.prove(st, z3.And(ctx.term(st, ctx.field(st, reg, 'actor_id')) == i, e.term(st, lib.text_of(e, st, ctx.field(st, reg, 'remote_id'))) == t), 'the answer is the registration in the record')


def put_reply(ctx, st, r, key, ok):
    """r: the answer to a put: Ok with the key / QuorumFailed"""
    ctx.prove(st, is_var(ctx, st, r, 'Ok') == ok, 'it says whether the record was stored')
    if ctx.eng.entails(st, is_var(ctx, st, r, 'Err')):
        ctx.prove(st, is_var(ctx, st, ctx.payload(st, r, 'Err'), 'QuorumFailed'), 'not stored by anyone is a failed quorum')


def c_register(ctx, st):
    g, c = st.ghost, ctx.args[2]
    rec = f_of(ctx, c, 'record')
    alone = z3.Int('connected_peers') == 0
    if g['net'] and g['net'][0][0] == 'kademlia_put_record_local':
        ctx.prove(st, alone, 'only without peers it is stored on this node alone')
        res = once(ctx, st, 'kademlia_put_record_local', [rec], 'the record is stored on this node')
        r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
        keep(ctx, st)
        if r is not None:
            put_reply(ctx, st, r, None, is_var(ctx, st, res, 'Ok'))
        return
    put_network(ctx, st, c, [x for x in g['net']], rec=rec)


def put_network(ctx, st, c, net, rec=None):
    g = st.ghost
    puts = [x for x in net if x[0] == 'kademlia_put_record']
    ctx.prove(st, len(puts) == 1, 'the record is put into the network')
    if len(puts) != 1:
        return
    if rec is not None:
        ctx.prove(st, teq(ctx, st, puts[0][1][0], rec) if len(net) == 1 else False, 'the record is put into the network')
    ctx.prove(st, is_var(ctx, st, puts[0][1][1], 'One'), 'one node that stores it suffices')
    res = puts[0][2]
    if ctx.eng.entails(st, is_var(ctx, st, res, 'Ok')):
        nothing_else(ctx, st)
        stored(ctx, st, 'put_queries', ctx.payload(st, res, 'Ok'), f_of(ctx, c, 'reply'))
    else:
        ctx.prove(st, is_var(ctx, st, res, 'Err'), 'a put that was refused is answered at once')
        r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
        keep(ctx, st)
        if r is not None:
            put_reply(ctx, st, r, None, z3.BoolVal(False))


def c_unregister(ctx, st):
    g, c, e = st.ghost, ctx.args[2], ctx.eng
    key = f_of(ctx, c, 'key')
    kt = ctx.term(st, key)
    names = [x[0] for x in g['net']]
    gone = [x for x in g['net'] if x[0] in ('kademlia_remove_record', 'kademlia_remove_record_local')]
    ctx.prove(st, len(gone) == 1 and gz(ctx.term(st, lib.content(e, st, gone[0][1][0])) == kt), 'the record of the name is removed from this node')
    if 'kademlia_put_record' in names:
        ctx.prove(st, names == ['kademlia_put_record', 'kademlia_remove_record'], 'it is overwritten in the network, then removed here')
        rec = g['net'][0][1][0]
        ctx.prove(st, z3.And(ctx.term(st, ctx.field(st, rec, 'key')) == kt, z3.Length(lib.as_seq(e, st, ctx.field(st, rec, 'value')).seq) == 0), 'what is put in its place is no registration')
        put_network(ctx, st, c, g['net'])
    else:
        ctx.prove(st, z3.Int('connected_peers') == 0, 'only without peers it concerns this node alone')
        r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
        keep(ctx, st)
        if r is not None:
            ctx.prove(st, is_var(ctx, st, r, 'Ok'), 'removing a name succeeds')


# ------------------------------------------------------------------ the node itself
def c_listen(ctx, st):
    c, g = ctx.args[2], st.ghost
    l = [x for x in g['net'] if x[0] == 'listen_on']
    ctx.prove(st, len(l) == 1 and gz(teq(ctx, st, l[0][1][0], f_of(ctx, c, 'addr'))), 'it listens on the address, once')
    m = [x for x in g['net'] if x[0] == 'kademlia_set_mode']
    ctx.prove(st, len(m) == 1 and len(g['net']) == 2 and z3.And(gz(is_var(ctx, st, m[0][1][0], 'Some')), gz(is_var(ctx, st, ctx.payload(st, m[0][1][0], 'Some'), 'Server'))), 'and serves records from then on')
    r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
    keep(ctx, st)
    if r is not None and l:
        ctx.prove(st, deep_eq(ctx, st, r, l[0][2]), 'the answer is what came of it')


def c_dial(ctx, st):
    c = ctx.args[2]
    res = once(ctx, st, 'dial', [f_of(ctx, c, 'opts')], 'the peer is dialed')
    r = one_reply(ctx, st, f_of(ctx, c, 'reply'))
    keep(ctx, st)
    if r is not None and res is not None:
        ctx.prove(st, deep_eq(ctx, st, r, res), 'the answer is what came of it')


def c_plain(op, fields):
    def f(ctx, st):
        c = ctx.args[2]
        once(ctx, st, op, [f_of(ctx, c, n) for n in fields], 'the swarm is told')
        nothing_else(ctx, st)
        keep(ctx, st)
    return fin(f)


ALL = EXTRA + NET + DISPATCH


def cmd(v, finish):
    return Job(f'command {v}', HD + 'handle_command$', s_task, m_task, finish, ALL, crate='remote', ghost=TG, args=a_cmd(v), config=inline)


NAMES = [cmd('Lookup', fin(c_lookup)), cmd('LookupLocal', fin(c_lookup_local)), cmd('Register', fin(c_register)), cmd('Unregister', fin(c_unregister))]
REQS = [cmd(v, c_request(v)) for v in REQ]
RESP = [cmd(f'Send{v}Response', c_send_response(f'send_{REQ[v][0]}_response')) for v in REQ]
NODE = [cmd('ListenOn', fin(c_listen)), cmd('Dial', fin(c_dial)), cmd('AddPeerAddress', c_plain('add_peer_address', ['peer_id', 'addr'])),
        cmd('DisconnectPeerId', c_plain('disconnect_peer_id', ['peer_id']))]


# ------------------------------------------------------------------ events
def a_event(*path, over=None):
    """the event is the given nest of variants; what is not fixed is arbitrary"""
    def f(ctx, st, args):
        return args[:2] + [nest(ctx, st, args[2].tid, list(path))]
    return f


def nest(ctx, st, tid, path):
    """path: variant names; (field name, ...) goes into that field of the variant just built"""
    v = path.pop(0)
    T = ctx.P.t(tid)
    vi = [i for i, x in enumerate(T['variants']) if x['name'] == v][0]
    fs = T['variants'][vi]['fields']
    inner = path.pop(0) if path and isinstance(path[0], tuple) else None
    vals = []
    for i, (n, ft) in enumerate(fs):
        if path and (inner is not None and n == inner[0] or inner is None and i == 0 and len(fs) == 1):
            vals.append(nest(ctx, st, ft, path))
        else:
            vals.append(ctx.eng.fresh_val(st, ft, n))
    return Agg(T['path'], vi, vals, tid)


def leaf(ctx, n):
    v = ctx.args[2]
    for _ in range(n):
        v = [f for f in v.fields if isinstance(f, Agg)][0]
    return v


def quiet(ctx, st, what='nothing else happens'):
    g = st.ghost
    ctx.prove(st, not g['net'] and not g['replies'] and not g['disp'] and not g['cmds'] and not g['spawns'], what)


def answer_waiting(ctx, st, table, key, check):
    """whoever waits for this very request is answered, once"""
    has, slot_ = taken(ctx, st, table, key)
    g = st.ghost
    ctx.prove(st, not g['net'] and not g['disp'] and not g['cmds'] and not g['spawns'], 'nothing else happens')
    if ctx.eng.entails(st, z3.Not(has)):
        ctx.prove(st, not g['replies'], 'nobody else is answered')
        return
    r = g['replies']
    ok = len(r) == 1
    ctx.prove(st, z3.And(has, r[0][0] == slot_) if ok else False, 'whoever waits for this very answer gets it, once')
    if ok:
        check(r[0][1])


def e_kad(ctx, st):
    ev, e = leaf(ctx, 2), ctx.eng
    qid, res = f_of(ctx, ev, 'id'), f_of(ctx, ev, 'result')
    got = is_var(ctx, st, res, 'GetRecord')
    put = is_var(ctx, st, res, 'PutRecord')
    if e.entails(st, got):
        r = ctx.payload(st, res, 'GetRecord')
        if e.entails(st, is_var(ctx, st, r, 'Err')):
            answer_waiting(ctx, st, 'get_queries', qid, lambda a: ctx.prove(st, z3.And(is_var(ctx, st, a, 'Err'), deep_eq(ctx, st, ctx.payload(st, a, 'Err'), ctx.payload(st, r, 'Err'))), 'the answer is what was found out'))
            return
        ctx.prove(st, is_var(ctx, st, r, 'Ok'), 'every outcome of a query is told apart')
        o = ctx.payload(st, r, 'Ok')
        if e.entails(st, is_var(ctx, st, o, 'FoundRecord')):
            answer_waiting(ctx, st, 'get_queries', qid, lambda a: ctx.prove(st, z3.And(is_var(ctx, st, a, 'Ok'), deep_eq(ctx, st, ctx.payload(st, a, 'Ok'), ctx.payload(st, o, 'FoundRecord'))), 'the answer is what was found out'))
            return
        ctx.prove(st, z3.Not(is_var(ctx, st, o, 'FoundRecord')), 'every outcome of a query is told apart')
    elif e.entails(st, put):
        answer_waiting(ctx, st, 'put_queries', qid, lambda a: ctx.prove(st, deep_eq(ctx, st, a, ctx.payload(st, res, 'PutRecord')), 'the answer is what was found out'))
        return
    else:
        ctx.prove(st, z3.And(z3.Not(got), z3.Not(put)), 'every outcome of a query is told apart')
    quiet(ctx, st)
    keep(ctx, st)


def e_response(ctx, st):
    m = f_of(ctx, leaf(ctx, 2), 'message')
    answer_waiting(ctx, st, 'requests', f_of(ctx, m, 'request_id'), lambda a: ctx.prove(st, deep_eq(ctx, st, a, f_of(ctx, m, 'response')), 'the answer is the response of the peer'))


FAILURES = {'DialFailure': 'DialFailure', 'Timeout': 'NetworkTimeout', 'ConnectionClosed': 'ConnectionClosed', 'UnsupportedProtocols': 'UnsupportedProtocols', 'Io': 'Io'}


def e_failure(ctx, st):
    ev = leaf(ctx, 2)
    err = f_of(ctx, ev, 'error')

    def check(a):
        ok = isinstance(a, Agg) and ctx.P.t(a.tid)['variants'][a.variant]['name'] == 'OutboundFailure'
        ctx.prove(st, ok, 'the answer is that the request failed')
        if ok:
            x = a.fields[0]
            ctx.prove(st, z3.And(*[is_var(ctx, st, x, t) == is_var(ctx, st, err, f) for f, t in FAILURES.items()]), 'for the very reason it failed')
            if ctx.eng.entails(st, is_var(ctx, st, err, 'Io')):
                o = ctx.payload(st, x, 'Io')
                ctx.prove(st, z3.And(is_var(ctx, st, o, 'Some'), deep_eq(ctx, st, ctx.payload(st, o, 'Some'), ctx.payload(st, err, 'Io'))), 'with the error of the network')
    answer_waiting(ctx, st, 'requests', f_of(ctx, ev, 'request_id'), check)


# the fields of a peer's request, in the order the operation takes them
PEER_REQ = {'Ask': REQ['Ask'][1], 'Tell': REQ['Tell'][1], 'Link': 'actor_id actor_remote_id sibbling_id sibbling_remote_id', 'Unlink': 'actor_id actor_remote_id sibbling_id',
            'SignalLinkDied': REQ['SignalLinkDied'][1]}


def e_request(v):
    op = REQ[v][0]

    def f(ctx, st):
        g, e = st.ghost, ctx.eng
        m = f_of(ctx, leaf(ctx, 2), 'message')
        r = f_of(ctx, m, 'request')
        ok = len(g['disp']) == 1 and g['disp'][0][0] == op
        ctx.prove(st, ok, 'the request is carried out once, by the right operation')
        if ok:
            ctx.prove(st, all_eq(ctx, st, g['disp'][0][1], [f_of(ctx, r, n) for n in PEER_REQ[v].split()]), 'with what the request says')
        ctx.prove(st, g['spawns'] == 1 and not g['net'] and not g['replies'], 'in a task of its own, so that the swarm goes on')
        keep(ctx, st)
        c = g['cmds']
        want = f'Send{v}Response'
        ok = len(c) == 1 and isinstance(c[0][1], Agg) and ctx.P.t(c[0][1].tid)['variants'][c[0][1].variant]['name'] == want
        ctx.prove(st, ok and gz(c[0][0] == sender_of(ctx, st, ctx.field(st, ctx.args[0], 'cmd_tx'))), 'what came of it is sent back, once, as the answer to this kind of request')
        if ok and g['res']:
            ctx.prove(st, z3.And(deep_eq(ctx, st, f_of(ctx, c[0][1], 'result'), g['res'][0]), ctx.term(st, f_of(ctx, c[0][1], 'channel')) == ctx.term(st, f_of(ctx, m, 'channel'))),
                      'with the result, through the channel of this request')
    return fin(f)


def m_mdns(ctx, st, name, args):
    g = st.ghost
    if name == 'seq_next':
        ctx.prove(st, gz(g['pend'] == 0), 'every discovered address is added before the next')
        g['pend'], g['entry'] = 1, args
    elif name == 'seq_end':
        g['whole'] = 1
    elif name == 'seq_skip':
        ctx.prove(st, zi(args[0].e) <= 0, 'every discovered address is added')
    elif name == 'net':
        ok = args[0] == 'kademlia_add_address'
        ctx.prove(st, ok, 'it only adds addresses')
        ctx.prove(st, gz(g['pend'] == 1), 'each address is added once')
        if ok and isinstance(g['entry'], tuple):
            it = g['entry'][0]
            a = [lib.content(ctx.eng, st, x) for x in args[1]]
            ctx.prove(st, all_eq(ctx, st, a, [ctx.payload(st, it, None, i) for i in (0, 1)]), 'for the peer that was discovered')
        g['pend'] = 0
    elif name in ('reply', 'dispatch', 'send_attempt', 'spawn'):
        ctx.prove(st, False, 'nothing else happens')


def e_mdns(ctx, st):
    ctx.prove(st, z3.And(gz(st.ghost['pend'] == 0), gz(st.ghost['whole'] == 1)), 'every discovered address is added')
    keep(ctx, st)


def e_quiet(ctx, st):
    quiet(ctx, st)
    keep(ctx, st)


# ------------------------------------------------------------------ a connection is lost
def m_closed(ctx, st, name, args):
    g, e = st.ghost, ctx.eng
    if name == 'spawn':
        g['spawns'] += 1
    elif name == 'lock':
        t = str(ctx.term(st, args[0]))
        if 'REMOTE_REGISTRY' in t:
            g['reg'] = 1
        else:
            ctx.prove(st, isinstance(g['entry'], tuple) and gz(ctx.term(st, args[0]) == ctx.term(st, arc_content(ctx, st, ctx.payload(st, ctx.field(st, g['entry'][1], 'links'), None, 0)))),
                      'it looks at the links of each actor of this node')
            g['seen'], g['open'] = 1, 1
    elif name == 'iter_end':
        o = zi(g['open'])
        g['open'], g['whole'] = z3.IntVal(0), z3.If(o == 0, z3.IntVal(1), zi(g['whole']))
    elif name == 'iter_next':
        done(ctx, st)
        if 'RemoteRegistryActorRef' in ctx.P.t(args[1].tid).get('path', ''):
            ctx.prove(st, gz(g['seen'] == 1), 'no actor of this node is left out')
            ctx.prove(st, gz(g['open'] == 0), 'all links of an actor are gone through')
            g['entry'], g['seen'] = args, 0
        else:
            g['link'], g['pend'] = args, z3.If(peer_is(ctx, st, args[0], ctx.peer), z3.IntVal(1), z3.IntVal(0))
    elif name == 'sig_link_died':
        ctx.prove(st, gz(g['pend'] == 1), 'only links with actors of that peer, each at most once')
        if not isinstance(g['link'], tuple) or not isinstance(g['entry'], tuple):
            raise Unsupported('notification outside the loop over the links')
        k = g['link'][0]
        ctx.prove(st, gz(ctx.eq(st, args[1], ctx.term(st, k))), 'the notification names the linked actor')
        ctx.prove(st, gz(ctx.is_variant(st, args[2], 'PeerDisconnected')), 'the reason is that the peer disconnected')
        a, b = ctx.cterm(st, args[0]), cterm_box(e, st, ctx.field(st, g['entry'][1], 'signal_mailbox'))
        ctx.prove(st, same_box(ctx, a, b), 'the notification goes to the actor that has the link')
        g['pend'] = 0
    elif name == 'unlock':
        done(ctx, st)
    elif name == 'fu_dropped':
        ctx.prove(st, zi(args[0].e) <= 0, 'every notification is delivered')
    elif name in ('reply', 'dispatch', 'send_attempt', 'net'):
        ctx.prove(st, False, 'nothing else happens')


def peer_is(ctx, st, idv, peer):
    k = ctx.field(st, idv, 'peer_id')
    return z3.And(gz(ctx.is_variant(st, k, 'PeerId')), ctx.term(st, ctx.payload(st, k, 'PeerId')) == peer)


def done(ctx, st):
    ctx.prove(st, gz(st.ghost['pend'] == 0), 'no link with an actor of that peer is left out')


def s_closed(ctx, st, args):
    s_task(ctx, st, args)
    ev = args[2]
    ctx.peer = ctx.term(st, f_of(ctx, ev, 'peer_id'))
    ctx.left = f_of(ctx, ev, 'num_established')
    ctx.eng.axiom(ctx.peer != LOCAL)
    ctx.eng.axiom(zi(ctx.left.e) >= 0)


def e_closed(ctx, st):
    g = st.ghost
    done(ctx, st)
    still = zi(ctx.left.e) > 0
    if g['spawns']:
        ctx.prove(st, z3.Not(still), 'while another connection remains the peer is not gone')
        ctx.prove(st, z3.And(gz(g['seen'] == 1), gz(g['open'] == 0), gz(g['whole'] == 1)) if g['reg'] else False, 'the actors of this node are gone through')
    else:
        ctx.prove(st, still, 'when the last connection is lost the links are notified')
    keep(ctx, st)


B_, RR_ = 'Behaviour', 'RequestResponse'


def evt(name, finish, *path, monitor=m_task, setup=s_task, extra=(), ghost=TG, **kw):
    return Job(f'event {name}', HD + 'handle_event$', setup, monitor, fin(finish) if finish.__name__ != 'g' else finish, ALL + list(extra), crate='remote', ghost=ghost, args=a_event(*path), config=inline, **kw)


CG = dict(TG, reg=0, seen=1, open=0, whole=0, pend=0, entry=None, link=None)
EV_NAMES = [evt('Kademlia query', e_kad, B_, 'Kademlia', 'OutboundQueryProgressed')]
EV_MSG = [evt(f'{v} request', e_request(v), B_, RR_, 'Message', ('message',), 'Request', ('request',), v) for v in ('Ask', 'Tell')]
EV_LINK = [evt(f'{v} request', e_request(v), B_, RR_, 'Message', ('message',), 'Request', ('request',), v) for v in ('Link', 'Unlink', 'SignalLinkDied')]
EV_ANS = [evt('response', e_response, B_, RR_, 'Message', ('message',), 'Response'), evt('outbound failure', e_failure, B_, RR_, 'OutboundFailure'),
          evt('inbound failure', e_quiet, B_, RR_, 'InboundFailure'), evt('response sent', e_quiet, B_, RR_, 'ResponseSent')]
EV_NODE = [evt('mdns discovered', e_mdns, B_, 'Mdns', 'Discovered', monitor=m_mdns, ghost=dict(TG, pend=0, whole=0, entry=None)), evt('mdns expired', e_quiet, B_, 'Mdns', 'Expired')]
EV_CLOSED = [evt('connection closed', e_closed, 'ConnectionClosed', monitor=m_closed, setup=s_closed, extra=SIGNALS, ghost=CG,
                 expect=('no link with an actor of that peer is left out', 'every notification is delivered', 'the notification goes to the actor that has the link'))]
JOBS = NAMES + REQS + RESP + NODE + EV_NAMES + EV_MSG + EV_LINK + EV_ANS + EV_NODE + EV_CLOSED
