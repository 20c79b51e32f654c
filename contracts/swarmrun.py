"""The swarm task as a whole: starting it once, its loop, and the operations of this node."""
from .base import *
from .ids import is_ok, LOCAL
from .swarm import *
from .swarmtask import f_of, teq, unit, QUERIES

HD, SW = r'^remote::swarm::ActorSwarmHandler::', r'^remote::swarm::ActorSwarm::'


# ------------------------------------------------------------------ the loop
def h_handle(op):
    def h(eng, st, info):
        eng.emit(st, op, *info.args)
        # the tables of waiting slots change as they like
        c, p = eng.deref(st, info.args[0])
        fs = ty(eng, eng.load(st, c, p).tid)['variants'][0]['fields']
        for i, (n, t) in enumerate(fs):
            if n in QUERIES:
                eng.store(st, c, tuple(p) + (('f', None, i, t),), eng.fresh_val(st, t, n))
        return ret(eng, st, UNIT)
    h.__doc__ = f'ActorSwarmHandler::{op} (verified in swarmtask.py)'
    return h


@fut('swarm_recv')
def f_swarm_recv(eng, st, fv, out):
    out_ = cancel_points(eng, st)
    v = eng.fresh_val(st, lib.field_tid(eng, out, 'Some'), 'command')
    eng.emit(st, 'command', fv.args[0], v)
    return out_ + ret(eng, st, lib.some(eng, out, v))


def h_cmd_recv(eng, st, info):
    """the next command; never None, since the task itself holds a sender (established where the handler is made)"""
    return ret(eng, st, mkfut('swarm_recv', lib.content(eng, st, info.args[0])))


@fut('swarm_event')
def f_swarm_event(eng, st, fv, out):
    out_ = cancel_points(eng, st)
    v = eng.fresh_val(st, lib.field_tid(eng, out, 'Some'), 'event')
    eng.emit(st, 'event', v)
    return out_ + ret(eng, st, lib.some(eng, out, v))


def h_swarm_next(eng, st, info):
    """the next event of libp2p's Swarm, which never ends"""
    return ret(eng, st, mkfut('swarm_event', info.args[0]))


LOOP = [(HD + 'handle_command$', h_handle('handle_command')), (HD + 'handle_event$', h_handle('handle_event')), (r'mpsc::unbounded::UnboundedReceiver::<T>::recv$', h_cmd_recv),
        (r'StreamExt::next$', h_swarm_next)]
LG = {'pend': 0, 'val': None, 'self': None, 'swarm': None}


def s_loop(ctx, st, args):
    st.ghost['self'], st.ghost['swarm'] = eng_at(ctx, st, args[0]), eng_at(ctx, st, args[1])


def eng_at(ctx, st, ref):
    return ctx.eng.deref(st, ref)[0]


def m_loop(ctx, st, name, args):
    g = st.ghost
    done = lambda: ctx.prove(st, gz(g['pend'] <= 0), 'everything received is handled before the next')
    if name == 'command':
        done()
        ctx.prove(st, gz(ctx.term(st, args[0]) == ctx.term(st, ctx.field(st, ctx.args[0], 'cmd_rx'))), 'commands are taken from its own queue')
        g['pend'], g['val'] = 1, args[1]
    elif name == 'recv':
        done()
        ctx.prove(st, gz(ctx.term(st, args[0]) == ctx.term(st, ctx.field(st, ctx.args[0], 'cmd_rx'))), 'commands are taken from its own queue')
    elif name == 'recv_done':
        n = 'Ok' if gz_possible(ctx, args[0], 'Ok') else 'Some'
        g['pend'], g['val'] = z3.If(gz(ctx.is_variant(st, args[0], n)), z3.IntVal(1), z3.IntVal(0)), ctx.payload(st, args[0], n)
    elif name == 'event':
        done()
        v = args[0]
        cc, bh = gz(ctx.is_variant(st, v, 'ConnectionClosed')), gz(ctx.is_variant(st, v, 'Behaviour'))
        g['pend'], g['val'] = z3.If(z3.Or(cc, bh), z3.IntVal(2), z3.IntVal(0)), v
    elif name in ('handle_command', 'handle_event'):
        n = 1 if name == 'handle_command' else 2
        ctx.prove(st, gz(g['pend'] == n), 'it is handled once, as what it is')
        ctx.prove(st, eng_at(ctx, st, args[0]) == g['self'] and eng_at(ctx, st, args[1]) == g['swarm'], 'by this handler, with its swarm')
        v = g['val']
        if v is not None and n == 1:
            ctx.prove(st, deep_eq(ctx, st, args[2], v), 'exactly what was received')
        elif v is not None:
            ctx.prove(st, same_event(ctx, st, args[2], v), 'exactly what was received')
        g['pend'], g['val'] = 0, None


def gz_possible(ctx, v, n):
    return any(x['name'] == n for x in ctx.P.t(v.tid)['variants'])


def same_event(ctx, st, ev, v):
    """the event handed on says what the swarm event says"""
    if not isinstance(ev, Agg):
        raise Unsupported('event not built here')
    n = ctx.P.t(ev.tid)['variants'][ev.variant]['name']
    T = ctx.P.t(v.tid)
    sv = [x for x in T['variants'] if x['name'] == n]
    if not sv:
        return z3.BoolVal(False)
    if n == 'Behaviour':
        return z3.And(gz(ctx.is_variant(st, v, n)), deep_eq(ctx, st, ev.fields[0], ctx.payload(st, v, n, 0)))
    cs = [gz(ctx.is_variant(st, v, n))]
    for f, x in zip(ctx.P.t(ev.tid)['variants'][ev.variant]['fields'], ev.fields):
        i = [y[0] for y in sv[0]['fields']].index(f[0])
        cs.append(deep_eq(ctx, st, x, ctx.payload(st, v, n, i)))
    return z3.And(*[gz(c) for c in cs])


def f_loop(ctx, st, kind, v):
    ctx.prove(st, False, 'the task never ends')


# ------------------------------------------------------------------ starting it
def h_swarm_id(eng, st, info):
    """the swarm's own peer id"""
    return ret(eng, st, Ref(eng.alloc(st, Sym(eng.F('swarmPeer', [V], V)(lib.cterm(eng, st, info.args[0])), ty(eng, info.dest)['to']))))


def h_any(eng, st, info):
    """key material: arbitrary"""
    return ret(eng, st, eng.fresh_val(st, info.dest, 'key'))


simple_fut('run')


def h_run(eng, st, info):
    """ActorSwarmHandler::run (verified above)"""
    return ret(eng, st, mkfut('run', lib.content(eng, st, info.args[0]), info.args[1]))


START = [(r'^libp2p_identity::(keypair|peer_id)::\w+::(generate|public|to_peer_id|random|from_\w+)', h_any), (r'libp2p_swarm::Swarm::<\w+>::local_peer_id$', h_swarm_id), (HD + 'run$', h_run)]
SG = {'chan': None, 'chans': 0, 'set': None, 'kept': None, 'spawns': 0, 'runs': (), 'on': None}


def m_start(ctx, st, name, args):
    g = st.ghost
    if name == 'channel':
        g['chan'] = ctx.term(st, args[0])
        g['chans'] += 1
        ctx.prove(st, args[1] == 'unbounded', 'sending a command never waits')
    elif name == 'global_get' and args[1] and g['set'] is None:
        g['on'], g['kept'] = ctx.term(st, args[0]), args[2]
    elif name in ('global_set', 'global_kept'):
        g['on'] = ctx.term(st, args[0])
        g['set' if name == 'global_set' else 'kept'] = args[1]
    elif name == 'spawn':
        g['spawns'] += 1
    elif name == 'run':
        g['runs'] += ((lib.content(ctx.eng, st, args[0]), ctx.cterm(st, args[1])),)


def ends(ctx, st, h):
    """the handler has both ends of the channel just made, and nobody waits yet"""
    e, g = ctx.eng, st.ghost
    tx = sender_of(ctx, st, ctx.field(st, h, 'cmd_tx'))
    ctx.prove(st, g['chans'] == 1 and gz(z3.And(tx == e.F('txOf', [V], V)(g['chan']), ctx.term(st, ctx.field(st, h, 'cmd_rx')) == e.F('rxOf', [V], V)(g['chan']))),
              'the task takes the commands of this very swarm, and can send itself some')
    x = z3.Const('any!query', V)
    for q in ('get_queries', 'put_queries', 'requests'):
        ctx.prove(st, z3.Not(z3.Select(lib.as_map(e, st, ctx.field(st, h, q)).dom, x)), 'nobody waits at first')


def the_global(ctx, st, peer):
    g, e = st.ghost, ctx.eng
    ctx.prove(st, 'ACTOR_SWARM' in str(g['on']), 'it becomes the swarm of this process')
    s = g['set']
    ctx.prove(st, g['chan'] is not None and gz(sender_of(ctx, st, s) == e.F('txOf', [V], V)(g['chan'])), 'the swarm of this process sends to the task')
    ctx.prove(st, ctx.term(st, ctx.field(st, s, 'local_peer_id')) == peer, 'its peer id is that of the node')


def f_start(ctx, st, kind, v):
    g, e = st.ghost, ctx.eng
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    peer = e.F('swarmPeer', [V], V)(ctx.swarm)
    if g['set'] is not None:
        the_global(ctx, st, peer)
        ctx.prove(st, is_ok(ctx, st, v) and deep_eq(ctx, st, lib.content(e, st, ctx.payload(st, v, 'Ok')), g['set']), 'the result is the swarm of this process')
        ctx.prove(st, g['spawns'] == 1 and len(g['runs']) == 1, 'one task serves it')
        if len(g['runs']) == 1:
            ends(ctx, st, g['runs'][0][0])
            ctx.prove(st, g['runs'][0][1] == ctx.swarm, 'with the given libp2p swarm')
        return
    ctx.prove(st, g['kept'] is not None and g['spawns'] == 0 and not g['runs'], 'a second start leaves the first alone')
    if g['kept'] is None:
        return
    ctx.prove(st, not is_ok(ctx, st, v), 'and is an error')
    x = ctx.payload(st, v, 'Err')
    ctx.prove(st, z3.And(gz(ctx.is_variant(st, x, 'AlreadyBootstrapped')), gz(deep_eq(ctx, st, lib.content(e, st, ctx.payload(st, x, 'AlreadyBootstrapped', 0)), lib.content(e, st, g['kept'])))), 'that names the first')
    o = ctx.payload(st, x, 'AlreadyBootstrapped', 1)
    ctx.prove(st, z3.And(gz(ctx.is_variant(st, o, 'Some')), ctx.term(st, ctx.payload(st, o, 'Some')) == ctx.swarm), 'and gives the libp2p swarm back')


def s_start(ctx, st, args):
    ctx.swarm = ctx.term(st, args[0])


def f_manual(ctx, st, kind, v):
    g, e = st.ghost, ctx.eng
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    ctx.prove(st, g['spawns'] == 0, 'no task is started: the caller drives it')
    some_ = e.entails(st, gz(ctx.is_variant(st, v, 'Some')))
    ctx.prove(st, some_ == (g['set'] is not None), 'it starts once per process')
    if g['set'] is not None and some_:
        the_global(ctx, st, ctx.swarm)
        t = ctx.payload(st, v, 'Some')
        ctx.prove(st, deep_eq(ctx, st, lib.content(e, st, ctx.payload(st, t, None, 0)), g['set']), 'the result is the swarm of this process')
        ends(ctx, st, ctx.payload(st, t, None, 1))


# ------------------------------------------------------------------ this node
def node(op, variant, fields, waits):
    """fields: of the command, in the order of the arguments"""
    def f(ctx, st, kind, v):
        g = st.ghost
        if kind == 'panic':
            ctx.prove(st, not g['sent'], 'it panics only when the swarm task is gone')
            return
        ok = g['sends'] == 1 and g['sent'] and isinstance(g['cmd'], Agg) and cmd_name(ctx, st) == variant
        ctx.prove(st, ok, f'one {variant} command is sent')
        if not ok:
            return
        ctx.prove(st, g['chan'] == sender_of(ctx, st, ctx.args[0]), 'it goes to the task of this swarm')
        for n, a in zip(fields, ctx.args[1:]):
            if n == 'opts':
                t = ctx.cterm(st, cmd_field(ctx, st, n))
                ctx.prove(st, t.num_args() == 1 and gz(t.arg(0) == ctx.term(st, a)), 'with what was given')
            else:
                ctx.prove(st, teq(ctx, st, cmd_field(ctx, st, n), a), 'with what was given')
        if waits:
            s = slot(ctx, st)
            fu = v.fields[0] if isinstance(v, Agg) else None
            ctx.prove(st, s is not None and fu is not None and gz(ctx.term(st, fu) == s), 'what is returned waits for the answer to this very command')
    return Job('ActorSwarm::' + op, SW + op + '$', None, m_cmd, f, EXTRA + [(r'^core::convert::Into::into$', pure('into'))], crate='remote', ghost=G0, drive=False)


# ------------------------------------------------------------------ waiting for an answer
def m_wait(ctx, st, name, args):
    m_cmd(ctx, st, name, args)


def f_wait(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, len(g['waits']) == 1 and gz(g['waits'][0] == ctx.rx), 'it waits on its own slot')
    if kind == 'panic':
        ctx.prove(st, g['lost'], 'it panics only when the swarm task dropped the slot')
    else:
        ctx.prove(st, g['got'] is not None and gz(ctx.eq(st, ctx.payload(st, v, 'Ready'), g['got'])), 'the answer is the result')


def m_next(ctx, st, name, args):
    if name == 'recv':
        st.ghost['n'] += 1
        ctx.prove(st, gz(ctx.term(st, args[0]) == ctx.term(st, ctx.field(st, ctx.args[0], 'cmd_rx'))), 'commands are taken from its own queue')
    elif name == 'recv_done':
        st.ghost['got'] = args[0]


def f_next(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and st.ghost['n'] == 1 and st.ghost['got'] is not None and deep_eq(ctx, st, v, st.ghost['got']), 'the next command, once')


def inline(eng, ctx):
    eng.inline_spawn = True


# ------------------------------------------------------------------ the convenient ways to start it: key, behaviour, libp2p swarm
def h_gen(eng, st, info):
    """a new key pair"""
    v = eng.fresh_val(st, info.dest, 'key')
    eng.emit(st, 'key_made', v)
    return ret(eng, st, v)


def h_step(op):
    def h(eng, st, info):
        r = eng.fresh_val(st, info.dest, op)
        eng.emit(st, op, [lib.cterm(eng, st, x) for x in info.args], r)
        return ret(eng, st, r)
    h.__doc__ = f'ActorSwarm::{op} (its contract is the job of that name)'
    return h


def h_behaviour(eng, st, info):
    """ActorSwarmBehaviour::new: a behaviour for the node of that key, or an i/o error"""
    k = lib.cterm(eng, st, info.args[0])
    out = []
    for i, s in enumerate(lib.choose(st, 2)):
        n = ('Ok', 'Err')[i]
        v = Sym(eng.F('behaviourOf', [V], V)(k), lib.field_tid(eng, info.dest, 'Ok')) if i == 0 else eng.fresh_val(s, lib.field_tid(eng, info.dest, 'Err'), 'io')
        eng.emit(s, 'behaviour', k, v, n)
        out += ret(eng, s, lib.variant(eng, info.dest, n, v))
    return out


def h_builder(eng, st, info):
    """libp2p's SwarmBuilder: what is built has everything it was given"""
    n = info.callee['name']
    ts = [lib.cterm(eng, st, a) for a in info.args[:1]]
    if n == 'with_existing_identity':
        return ret(eng, st, Sym(eng.F('builder_identity', [V], V)(ts[0]), info.dest))
    if n == 'with_new_identity':
        return ret(eng, st, eng.fresh_val(st, info.dest, 'other_identity'))
    if n in ('with_behaviour', 'try_with_behaviour'):
        k = eng.alloc(st, eng.fresh_val(st, None, 'key'))

        def done(s, kind, r):
            if kind != 'ret':
                return eng.deliver(s, kind, r)
            if not isinstance(r, Agg) or not eng.P.t(r.tid).get('variants') or r.path.split('::')[-1] != 'Result':
                raise Unsupported('another kind of behaviour')
            bt = lib.field_tid(eng, info.dest, 'Ok')
            if r.variant == 0:
                return ret(eng, s, lib.variant(eng, info.dest, 'Ok', Sym(eng.F('builder_behaviour', [V, V], V)(ts[0], eng.term(s, r.fields[0])), bt)))
            return ret(eng, s, lib.variant(eng, info.dest, 'Err', eng.fresh_val(s, lib.field_tid(eng, info.dest, 'Err'), 'behaviour_error')))
        eng.push_cont(st, done, 'with_behaviour')
        return eng.call_value(st, info.args[1], [Ref(k)])
    return ret(eng, st, Sym(eng.F('builder_' + n, [V], V)(ts[0]), info.dest))


BOOT = [(r'^libp2p_identity::keypair::Keypair::generate_', h_gen), (SW + 'bootstrap_with_identity$', h_step('bootstrap_with_identity')),
        (SW + 'bootstrap_with_behaviour$', h_step('bootstrap_with_behaviour')), (SW + 'bootstrap_with_swarm$', h_step('bootstrap_with_swarm')),
        (r'ActorSwarmBehaviour>?::new$', h_behaviour), (r'^libp2p::builder::phase::', h_builder)]
BG = {'keys': (), 'steps': (), 'beh': (), 'glob': None, 'on': None}


def m_boot(ctx, st, name, args):
    g = st.ghost
    if name == 'key_made':
        g['keys'] += (ctx.cterm(st, args[0]),)
    elif name.startswith('bootstrap_with'):
        g['steps'] += ((name, args[0], ctx.term(st, args[1])),)
    elif name == 'behaviour':
        g['beh'] += (args,)
    elif name == 'global_get':
        g['on'], g['glob'] = ctx.term(st, args[0]), args[1]
    elif name in ('global_set', 'spawn'):
        ctx.prove(st, False, 'it starts the swarm through the one way there is')


def handed(ctx, st, v, step, same):
    """exactly one further step, with the right things, whose result is the result"""
    g = st.ghost
    ok = len(g['steps']) == 1 and g['steps'][0][0] == step
    ctx.prove(st, ok, 'the swarm is started once')
    if ok:
        ctx.prove(st, gz(same(g['steps'][0][1])), 'with what was given')
        ctx.prove(st, ctx.term(st, v) == g['steps'][0][2], 'and what came of it is the result')


def f_boot(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and len(st.ghost['keys']) == 1, 'one new identity')
    if kind == 'ret' and len(st.ghost['keys']) == 1:
        handed(ctx, st, v, 'bootstrap_with_identity', lambda a: a[0] == st.ghost['keys'][0])


def f_identity(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    ok = len(g['beh']) == 1
    ctx.prove(st, ok and gz(g['beh'][0][0] == ctx.key), 'a behaviour for the node of this key')
    if kind != 'ret' or not ok:
        return
    k, b, n = g['beh'][0]
    if n == 'Ok':
        handed(ctx, st, v, 'bootstrap_with_behaviour', lambda a: z3.And(a[0] == ctx.key, a[1] == ctx.term(st, b)))
        return
    ctx.prove(st, not g['steps'] and not is_ok(ctx, st, v), 'without a behaviour nothing is started')
    ctx.prove(st, gz(ctx.is_variant(st, ctx.payload(st, v, 'Err'), 'BehaviourError')), 'and the error says so')


def s_key(ctx, st, args):
    ctx.key = ctx.term(st, args[0])
    if len(args) > 1:
        ctx.beh = ctx.term(st, args[1])


def parts_of(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            todo += x.children()


def f_behaviour(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    if not g['steps']:
        x = ctx.payload(st, v, 'Err') if not is_ok(ctx, st, v) else None
        ctx.prove(st, x is not None, 'if nothing is started that is an error')
        if x is None:
            return
        if g['glob']:
            o = lib.content(ctx.eng, st, ctx.payload(st, x, 'AlreadyBootstrapped', 0))
            ctx.prove(st, z3.And(gz(ctx.is_variant(st, x, 'AlreadyBootstrapped')), ctx.term(st, o) == ctx.eng.F('lazyVal', [V], V)(g['on'])) if 'ACTOR_SWARM' in str(g['on']) else False,
                      'a second start names the first')
        else:
            ctx.prove(st, gz(ctx.is_variant(st, x, 'BehaviourError')), 'and the error says so')
        return

    def same(a):
        ps = list(parts_of(a[0]))
        e = ctx.eng
        ids = [t for t in ps if t.num_args() == 1 and t.decl().name() == 'builder_identity']
        bs = [t for t in ps if t.num_args() == 2 and t.decl().name() == 'builder_behaviour']
        return z3.And(ids[0].arg(0) == ctx.key, bs[0].arg(1) == ctx.beh) if len(ids) == 1 and len(bs) == 1 else z3.BoolVal(False)
    handed(ctx, st, v, 'bootstrap_with_swarm', same)


def f_local(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.cterm(st, v) == ctx.term(st, ctx.field(st, ctx.args[0], 'local_peer_id'))), 'its own peer id')


def h_part(op, fallible=False):
    def h(eng, st, info):
        if not fallible:
            v = eng.fresh_val(st, info.dest, op)
            eng.emit(st, op, list(info.args), v)
            return ret(eng, st, v)
        out = []
        for i, s in enumerate(lib.choose(st, 2)):
            n = ('Ok', 'Err')[i]
            v = eng.fresh_val(s, lib.field_tid(eng, info.dest, n), op)
            eng.emit(s, op if i == 0 else op + '_failed', list(info.args), v)
            out += ret(eng, s, lib.variant(eng, info.dest, n, v))
        return out
    h.__doc__ = f'a new {op} behaviour of libp2p'
    return h


def h_fn(name):
    def h(eng, st, info):
        return ret(eng, st, Sym(eng.F(name, [V], V)(lib.cterm(eng, st, info.args[0])), info.dest))
    h.__doc__ = f'{name}: a function of its argument'
    return h


PARTS = [(r'^libp2p_identity::keypair::Keypair::public$', h_fn('publicKey')), (r'^libp2p_identity::keypair::PublicKey::to_peer_id$', h_fn('peerIdOf')),
         (r'PublicKey as core::clone::Clone>::clone$', lambda eng, st, info: ret(eng, st, lib.content(eng, st, info.args[0]))),
         (r'^libp2p_kad::record::store::memory::MemoryStore::(new|with_config)$', h_fn('recordStore')), (r'^libp2p_kad::behaviour::Behaviour::<TStore>::(new|with_config)$', h_part('kademlia')),
         (r'^libp2p_mdns::behaviour::Behaviour::<P>::new$', h_part('mdns', True)), (r'^libp2p_request_response::Behaviour::<TCodec>::new$', h_part('request_response')),
         (r'^<?libp2p_(mdns|request_response|swarm|kad)::.*(Config|StreamProtocol).*::(default|new|with_\w+|set_\w+)$', h_any)]
PG = {'made': (), 'failed': None}


def m_parts(ctx, st, name, args):
    g = st.ghost
    if name in ('kademlia', 'mdns', 'request_response'):
        g['made'] += ((name, args[0], ctx.term(st, args[1])),)
    elif name == 'mdns_failed':
        g['failed'] = ctx.term(st, args[1])


def f_parts(ctx, st, kind, v):
    g, e = st.ghost, ctx.eng
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    if g['failed'] is not None:
        ctx.prove(st, not is_ok(ctx, st, v) and gz(ctx.term(st, ctx.payload(st, v, 'Err')) == g['failed']), 'an i/o error is handed on')
        return
    ctx.prove(st, is_ok(ctx, st, v), 'nothing else fails')
    b = ctx.payload(st, v, 'Ok')
    me = e.F('peerIdOf', [V], V)(e.F('publicKey', [V], V)(ctx.cterm(st, ctx.args[0])))
    for n in ('kademlia', 'mdns', 'request_response'):
        m = [x for x in g['made'] if x[0] == n]
        ok = len(m) == 1
        ctx.prove(st, ok and gz(ctx.term(st, ctx.field(st, b, n)) == m[0][2]), f'it has a {n} behaviour')
        if not ok:
            continue
        a = m[0][1]
        if n == 'kademlia':
            ctx.prove(st, z3.And(ctx.term(st, a[0]) == me, ctx.term(st, a[1]) == e.F('recordStore', [V], V)(me)), 'whose records are those of the node of this key')
        elif n == 'mdns':
            ctx.prove(st, ctx.term(st, a[1]) == me, 'which announces the node of this key')
        else:
            if not isinstance(lib.content(e, st, a[0]), Agg):
                raise Unsupported('protocols not given as a literal')
            ctx.prove(st, answers(ctx, st, lib.content(e, st, a[0])), 'which both asks and answers')


def answers(ctx, st, a):
    """an array of (protocol, support) with full support somewhere"""
    for x in a.fields:
        s = x.fields[1]
        if gz_possible(ctx, s, 'Full') and ctx.eng.entails(st, gz(ctx.is_variant(st, s, 'Full'))):
            return True
    return False


STARTS = [Job('ActorSwarmBehaviour::new', r'ActorSwarmBehaviour>?::new$', None, m_parts, f_parts, PARTS, crate='remote', ghost=PG),
          Job('ActorSwarm::bootstrap', SW + 'bootstrap$', None, m_boot, f_boot, BOOT, crate='remote', ghost=BG),
          Job('ActorSwarm::bootstrap_with_identity', SW + 'bootstrap_with_identity$', s_key, m_boot, f_identity, BOOT, crate='remote', ghost=BG),
          Job('ActorSwarm::bootstrap_with_behaviour', SW + 'bootstrap_with_behaviour$', s_key, m_boot, f_behaviour, BOOT, crate='remote', ghost=BG),
          Job('ActorSwarm::local_peer_id', SW + 'local_peer_id$', None, None, f_local, [], crate='remote')]

RUN = [Job('ActorSwarmHandler::run', HD + 'run$', s_loop, m_loop, f_loop, LOOP + EXTRA, crate='remote', ghost=LG, config=inline, endless=True,
           expect=('it is handled once, as what it is', 'exactly what was received', 'everything received is handled before the next')),
       Job('ActorSwarmHandler::next_command', HD + 'next_command$', None, m_next, f_next, EXTRA, crate='remote', ghost={'n': 0, 'got': None}),
       Job('ActorSwarm::bootstrap_with_swarm', SW + 'bootstrap_with_swarm$', s_start, m_start, f_start, START + EXTRA, crate='remote', ghost=SG, config=inline),
       Job('ActorSwarm::bootstrap_manual', SW + 'bootstrap_manual$', s_start, m_start, f_manual, START + EXTRA, crate='remote', ghost=SG, config=inline)]
NODE = [node('listen_on', 'ListenOn', ['addr'], True), node('dial', 'Dial', ['opts'], True), node('add_peer_address', 'AddPeerAddress', ['peer_id', 'addr'], False),
        node('disconnect_peer_id', 'DisconnectPeerId', ['peer_id'], False)]
JOBS = RUN + NODE + STARTS
