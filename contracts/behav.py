"""kameo's own network behaviour: each operation of the swarm task is the matching libp2p operation, with the matching request."""
from .base import *
from .ids import kind_of, is_local, peer_of, m_swarm, LOCAL
from .swarm import *
from .swarmtask import f_of, all_eq, teq, unit, PEER_REQ
from .remotes import peer

BH = r'^<remote::swarm::behaviour::ActorSwarmBehaviour as remote::swarm::SwarmBehaviour>::'


def h_lib(eng, st, info):
    """libp2p: told of the operation, arbitrary result"""
    r = UNIT if unit(eng, info.dest) else eng.fresh_val(st, info.dest, 'libp2p_' + info.callee['name'])
    eng.emit(st, 'net', re.sub(r'\b\w+::', '', info.callee['path'].split(' as ')[0]), info.callee['name'], info.args[0], [lib.content(eng, st, a) for a in info.args[1:]], r)
    return ret(eng, st, r)


def h_store(eng, st, info):
    """the store of the Kademlia behaviour"""
    s = Sym(eng.F('kadStore', [V], V)(lib.cterm(eng, st, info.args[0])), ty(eng, info.dest)['to'])
    return ret(eng, st, Ref(eng.alloc(st, s)))


LIBP2P = [(r'libp2p_request_response::Behaviour::<\w+>::send_(request|response)$', h_lib), (r'libp2p_kad::behaviour::Behaviour::<\w+>::store_mut$', h_store),
          (r'libp2p_kad::behaviour::Behaviour::<\w+>::(add_address|get_record|put_record|remove_record|set_mode)$', h_lib),
          (r'MemoryStore as libp2p_kad::record::store::RecordStore>::(get|put|remove)$', h_lib)]
G = {'net': (), 'before': None, 'swarm': None}


def setup(ctx, st, args):
    st.ghost['before'] = [lib.cterm(ctx.eng, st, ctx.field(st, args[0], f)) for f in ('request_response', 'kademlia')]


def mon(ctx, st, name, args):
    m_swarm(ctx, st, name, args)
    if name == 'net':
        st.ghost['net'] += ((args[1], lib.cterm(ctx.eng, st, args[2]), args[3], args[4]),)


def only(ctx, st, kind, v, op, on, what):
    """exactly this libp2p operation, on this part of the behaviour, and its result is the result"""
    n = st.ghost['net']
    ctx.prove(st, kind == 'ret', 'it never panics')
    ok = len(n) == 1 and n[0][0] == op
    ctx.prove(st, ok and gz(n[0][1] == on), what)
    if ok and kind == 'ret' and n[0][3] is not UNIT and not unit(ctx.eng, ctx.body['locals'][0]):
        ctx.prove(st, deep_eq(ctx, st, v, n[0][3]), 'what libp2p says is the result')
    return n[0][2] if ok and kind == 'ret' else None


def request(variant, fields, to):
    """fields: of the request, in the order of the arguments after the peer / self"""
    fields = fields.split()

    def f(ctx, st, kind, v):
        e = ctx.eng
        args = ctx.args[1:] if to is None else [None] + ctx.args[1:]
        if to is not None:
            i = fields.index(to)
            ctx.idv = args[1 + i]
            known, to_ = peer(ctx, st)
            if kind != 'ret':
                ctx.prove(st, z3.Not(known), 'it panics only without a node to send to')
                ctx.prove(st, not st.ghost['net'], 'nothing is sent then')
                return
        else:
            to_ = lib.cterm(e, st, args[0])
        a = only(ctx, st, kind, v, 'send_request', st.ghost['before'][0], 'one request is sent')
        if a is None:
            return
        ctx.prove(st, gz(lib.cterm(e, st, a[0]) == to_), 'to the node the actor is on')
        r = a[1]
        ok = isinstance(r, Agg) and ctx.P.t(r.tid)['variants'][r.variant]['name'] == variant
        ctx.prove(st, ok, 'it asks for the right thing')
        if ok:
            ctx.prove(st, all_eq(ctx, st, [f_of(ctx, r, n) for n in fields], args[1:]), 'with what was given')
    return f


def response(variant):
    def f(ctx, st, kind, v):
        a = only(ctx, st, kind, v, 'send_response', st.ghost['before'][0], 'one response is sent')
        if a is None:
            return
        r = a[1]
        ok = isinstance(r, Agg) and ctx.P.t(r.tid)['variants'][r.variant]['name'] == variant
        ctx.prove(st, ok and all_eq(ctx, st, [a[0], r.fields[0]], ctx.args[1:]), 'the result, as the answer to this kind of request, through its channel')
    return f


def kad(op, local=False, what='the records are told'):
    def f(ctx, st, kind, v):
        on = st.ghost['before'][1]
        if local:
            on = ctx.eng.F('kadStore', [V], V)(on)
        a = only(ctx, st, kind, v, op, on, what)
        if a is not None:
            ctx.prove(st, all_eq(ctx, st, a, ctx.args[1:]), 'with what was given')
    return f


def job(op, finish):
    return Job(f'network {op}', BH + op + '$', setup, mon, finish, LIBP2P + EXTRA, crate='remote', ghost=G)


SENDS = [job('ask', request('Ask', PEER_REQ['Ask'], None)), job('tell', request('Tell', PEER_REQ['Tell'], None)), job('send_ask_response', response('Ask')), job('send_tell_response', response('Tell'))]
LINKS = [job('link', request('Link', PEER_REQ['Link'], 'actor_id')), job('unlink', request('Unlink', PEER_REQ['Unlink'], 'actor_id')),
         job('signal_link_died', request('SignalLinkDied', PEER_REQ['SignalLinkDied'], 'notified_actor_id')),
         job('send_link_response', response('Link')), job('send_unlink_response', response('Unlink')), job('send_signal_link_died_response', response('SignalLinkDied'))]
KADEMLIA = [job('kademlia_' + n, kad(n)) for n in ('add_address', 'set_mode', 'get_record', 'put_record', 'remove_record')] + \
           [job(f'kademlia_{n}_record_local', kad(n, True, "this node's own records are told")) for n in ('get', 'put', 'remove')]
JOBS = SENDS + LINKS + KADEMLIA
