"""Requests of other nodes: found by the ids of actor and message type, run on that very actor, answered with what came of it."""
from .base import *
from .ids import is_ok
from .swarm import registry_global, is_var

ASK_FNS, TELL_FNS = ('ask', 'try_ask'), ('tell', 'try_tell')


# ------------------------------------------------------------------ remote::ask/tell/link/...: the tables of what is registered
def fn_calls(eng, ctx):
    """calls of registered functions (verified below, once for every type): told of each, arbitrary answer"""
    def call(eng, st, fv, args):
        return ret(eng, st, mkfut('registered', fv, *args))
    eng.on_sym_call = call


@fut('registered')
def f_registered(eng, st, fv, out):
    eng.emit(st, 'registered', fv.args[0], fv.args[1:])
    res = cancel_points(eng, st)
    r = eng.fresh_val(st, out, 'answered')
    eng.emit(st, 'answered', r)
    return res + ret(eng, st, r)


def by_text(eng, st, v):
    """the registration id with its texts themselves in place of references to them"""
    v = lib.content(eng, st, v)
    if isinstance(v, Agg) and v.path.endswith('RemoteMessageRegistrationID'):
        return Agg(v.path, v.variant, [lib.text_of(eng, st, f) for f in v.fields], v.tid)
    return None


def h_get(eng, st, info):
    """HashMap::get; ids are compared by their texts (derived Eq and Hash)"""
    k = by_text(eng, st, info.args[1])
    if k is not None:
        info.args = [info.args[0], Ref(eng.alloc(st, k))] + list(info.args[2:])
    return lib.c_map_op(eng, st, info)


GET = [(r'HashMap::<K, V, S, A>::(get|contains_key)$', h_get)]


def m_disp(ctx, st, name, args):
    g = st.ghost
    if name in ('map_get', 'map_contains_key'):
        g['gets'] += ((args[0].t, lib.as_map(ctx.eng, st, lib.content(ctx.eng, st, args[1])), str(ctx.cterm(st, args[1]))),)
    elif name == 'registered':
        g['calls'] += ((args[0], args[1]),)
    elif name == 'answered':
        g['res'] = args[0]


DG = {'gets': (), 'calls': (), 'res': None}
FOUND = 'it is looked up by the ids the request names'


def teq(ctx, st, a, b):
    return ctx.eng.term(st, lib.content(ctx.eng, st, a)) == ctx.eng.term(st, lib.content(ctx.eng, st, b))


def dispatcher(op, table, key, fns, args, unknown):
    """op: which table, the arguments that are the key, the functions (immediate first when there are two) with the arguments each gets, the error"""
    names = None

    def setup(ctx, st, a):
        ctx.a = dict(zip(args, a))
        ctx.text = {k: ctx.eng.term(st, lib.text_of(ctx.eng, st, ctx.a[k])) for k in key}

    def finish(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        if not g['gets']:
            raise Unsupported('the table is not looked up')
        k, m, where = g['gets'][0]
        ctx.prove(st, table in where and all(z3.eq(x[0], k) for x in g['gets']), FOUND)
        if len(key) == 2:
            ctx.prove(st, z3.And(k.num_args() == 2 and k.arg(0) == ctx.text[key[0]], k.arg(1) == ctx.text[key[1]]) if k.num_args() == 2 else False, FOUND)
        else:
            ctx.prove(st, k == ctx.text[key[0]], FOUND)
        has = z3.Select(m.dom, k)
        if not g['calls']:
            e = ctx.payload(st, v, 'Err') if ctx.eng.entails(st, is_var(ctx, st, v, 'Err')) else None
            ctx.prove(st, z3.And(z3.Not(has), is_var(ctx, st, e, unknown)) if e is not None else False, 'what is not registered is an error that says so')
            if e is not None:
                vs = [x for x in ctx.P.t(e.tid)['variants'] if x['name'] == unknown][0]['fields']
                for i, (n, _) in enumerate(vs):
                    kk = [x for x in key if x.endswith(n)][0]
                    ctx.prove(st, ctx.eng.term(st, lib.text_of(ctx.eng, st, ctx.payload(st, e, unknown, i))) == ctx.text[kk], 'what is not registered is an error that says so')
            return
        ctx.prove(st, z3.And(has, len(g['calls']) == 1), 'what is registered is run, once')
        f, xs = g['calls'][0]
        imm = zb(ctx.a['immediate'].e) if 'immediate' in ctx.a else z3.BoolVal(False)
        entry = Sym(z3.Select(m.val, k), m.vtid)
        for n, (which, want) in enumerate(fns):
            cond = imm if n == 0 and len(fns) == 2 else z3.Not(imm)
            if not ctx.eng.feasible(st, cond):
                continue
            ok = ctx.eng.term(st, f) == ctx.eng.term(st, ctx.field(st, entry, which))
            ctx.prove(st, z3.Implies(cond, ok), f'the function registered for {which}')
            ctx.prove(st, z3.Implies(cond, z3.And(len(xs) == len(want), *[teq(ctx, st, x, ctx.a[w]) for x, w in zip(xs, want)])), 'with what the request says')
        ctx.prove(st, g['res'] is not None and deep_eq(ctx, st, v, g['res']) if g['res'] is not None else False, 'its answer is the answer')
    return Job('remote::' + op, rf'^remote::{op}$', crate='remote', setup=setup, monitor=m_disp, finish=finish, config=fn_calls, extra=GET, ghost=dict(DG),
               expect=(FOUND, 'what is not registered is an error that says so', 'what is registered is run, once', 'with what the request says', 'its answer is the answer') + tuple(f'the function registered for {w}' for w, _ in fns))


# ------------------------------------------------------------------ bytes of messages and replies
def codec(eng, tid):
    """(is an encoding, the value) of bytes, for values of that type; encoding then decoding gives an equal value (what serde promises of the user's types)"""
    s = ty(eng, tid)['s']
    return eng.F('decodes:' + s, [SeqV], z3.BoolSort()), eng.F('decoded:' + s, [SeqV], V)


def h_encode(eng, st, info):
    """rmp_serde: bytes that decode to an equal value, or an error"""
    tid = [x for x in info.callee['args'] if isinstance(x, int)][-1]
    t = lib.cterm(eng, st, info.args[0])
    ok, val = codec(eng, tid)
    s = eng.F('encoded:' + info.callee['name'] + ':' + ty(eng, tid)['s'], [V], SeqV)(t)
    eng.axiom(z3.And(ok(s), val(s) == t))
    s2 = st.fork()
    eng.emit(s2, 'encode_failed')
    vt = field_tid(eng, info.dest, 'Ok')
    return (ret(eng, st, variant(eng, info.dest, 'Ok', Obj('Seq', seq=s, etid=ty(eng, vt)['args'][0], tid=vt)))
            + ret(eng, s2, variant(eng, info.dest, 'Err', Sym(eng.fresh('encodeError'), field_tid(eng, info.dest, 'Err')))))


def h_decode(eng, st, info):
    """rmp_serde: the value whose encoding the bytes are, or an error when they are none"""
    tid = field_tid(eng, info.dest, 'Ok')
    s = lib.as_seq(eng, st, lib.content(eng, st, info.args[0])).seq
    ok, val = codec(eng, tid)
    out = []
    for s2, y in eng.branch(st, ok(s)):
        out += ret(eng, s2, variant(eng, info.dest, 'Ok', eng.from_term(s2, val(s), tid)) if y else variant(eng, info.dest, 'Err', Sym(eng.fresh('decodeError'), field_tid(eng, info.dest, 'Err'))))
    return out


SERDE = [(r'^rmp_serde::encode::(to_vec|to_vec_named)$', h_encode), (r'^rmp_serde::decode::from_(slice|read_ref)$', h_decode)]


# ------------------------------------------------------------------ the functions registered for every actor and message type
def h_req(kind):
    def h(eng, st, info):
        return ret(eng, st, mkfut('local', kind, info.args[0], info.args[1], None, None, 'send'))
    h.__doc__ = f'a request to {kind} that actor'
    return h


def h_opt(i):
    def h(eng, st, info):
        f = info.args[0]
        return ret(eng, st, f.with_(args=f.args[:i] + (info.args[1],) + f.args[i + 1:]))
    h.__doc__ = 'the request with that timeout (verified in requests.py)'
    return h


def h_send(how):
    def h(eng, st, info):
        f = info.args[0]
        f = f.with_(args=f.args[:5] + (how,))
        if ty(eng, info.dest)['k'] == 'coroutine' or not ty(eng, info.dest).get('path', '').endswith('Result'):
            return ret(eng, st, f)
        return sent_local(eng, st, f, info.dest)
    h.__doc__ = f'{how} (verified in requests.py): sends it once; arbitrary outcome'
    return h


def sent_local(eng, st, f, out):
    eng.emit(st, 'local', *f.args)
    r = eng.fresh_val(st, out, 'outcome')
    eng.emit(st, 'outcome', r)
    return ret(eng, st, r)


@fut('local')
def f_local(eng, st, fv, out):
    return cancel_points(eng, st) + sent_local(eng, st, fv, out)


REQUESTS = [(r'^actor::actor_ref::ActorRef::<A>::ask$', h_req('ask')), (r'^actor::actor_ref::ActorRef::<A>::tell$', h_req('tell')),
            (r"^request::(ask::Ask|tell::Tell)Request::<.*>::mailbox_timeout_opt$", h_opt(3)), (r"^request::ask::AskRequest::<.*>::reply_timeout_opt$", h_opt(4)),
            (r"^request::(ask::Ask|tell::Tell)Request::<.*>::send$", h_send('send')), (r"^request::(ask::Ask|tell::Tell)Request::<.*>::try_send$", h_send('try_send'))]


def m_local(ctx, st, name, args):
    g = st.ghost
    if name == 'lock':
        g['held'], g['locks'] = True, g['locks'] + 1
        if g['locks'] == 1:
            g['global'] = ctx.term(st, args[0])
            g['reg'] = lib.as_map(ctx.eng, st, args[1])
    elif name == 'unlock':
        g['held'] = False
        if g['locks'] == 1:
            m = lib.as_map(ctx.eng, st, args[1])
            ctx.prove(st, z3.And(m.dom == g['reg'].dom, m.val == g['reg'].val), 'the registry stays as it was')
    elif name == 'local':
        ctx.prove(st, not g['held'], 'the registry is not locked while the actor is asked')
        g['reqs'] += ((args[0], lib.content(ctx.eng, st, args[1]), lib.content(ctx.eng, st, args[2])) + tuple(args[3:]),)
    elif name == 'outcome':
        g['out'] = args[0]
    elif name == 'encode_failed':
        g['unencodable'] = True


LG = {'held': False, 'locks': 0, 'global': None, 'reg': None, 'reqs': (), 'out': None, 'unencodable': False, 'sig': ()}
WHO = 'it goes to the very actor of that id'


def the_actor(ctx, st, v, idt):
    """(found, of the right type, the reference) in the registry as it was when locked; proves the error cases"""
    g, e = st.ghost, ctx.eng
    if g['reg'] is None:
        raise Unsupported('the registry is not looked at')
    ctx.prove(st, registry_global(ctx, st), WHO)
    m = g['reg']
    has = z3.Select(m.dom, idt)
    ent = Sym(z3.Select(m.val, idt), m.vtid)
    want = next(i for i, t in enumerate(ctx.P.types) if t['s'] == 'actor::actor_ref::ActorRef<A>')
    inner = e.F('unbox', [V], V)(ctx.term(st, ctx.field(st, ent, 'actor_ref')))
    hit = e.F('hasType:' + ctx.P.t(want)['s'], [V], z3.BoolSort())(inner)
    return has, hit, Sym(inner, want)


def is_err(ctx, st, v, n):
    if not ctx.eng.entails(st, is_var(ctx, st, v, 'Err')):
        return z3.BoolVal(False)
    return is_var(ctx, st, ctx.payload(st, v, 'Err'), n)


def s_local(ctx, st, args):
    pass


NOT_SENT = 'an actor that is not there, is of another type, or a message that is none: an error saying so'


def local(op, kind, how, timeouts):
    """op(actor id, payload, timeouts…): decode, send, encode"""
    names = ('actor_id', 'payload') + timeouts

    def setup(ctx, st, a):
        ctx.a = dict(zip(names, a))
        ctx.id = ctx.term(st, ctx.a['actor_id'])
        ctx.bytes = lib.as_seq(ctx.eng, st, ctx.a['payload']).seq

    def finish(ctx, st, k, v):
        ctx.prove(st, k == 'ret', 'never panics')
        if k != 'ret':
            return
        g, e = st.ghost, ctx.eng
        has, hit, ref = the_actor(ctx, st, v, ctx.id)
        mt = next(i for i, t in enumerate(ctx.P.types) if t['s'] == 'M')
        dec, val = codec(e, mt)
        if not g['reqs']:
            ctx.prove(st, z3.Or(z3.And(z3.Not(has), is_err(ctx, st, v, 'ActorNotRunning')), z3.And(has, z3.Not(hit), is_err(ctx, st, v, 'BadActorType')),
                                z3.And(has, hit, z3.Not(dec(ctx.bytes)), is_err(ctx, st, v, 'DeserializeMessage'))), NOT_SENT)
            return
        q = g['reqs'][0]
        ctx.prove(st, z3.And(len(g['reqs']) == 1 and q[0] == kind and q[5] == how, has, hit, deep_eq(ctx, st, ref, lib.content(e, st, q[1]))), WHO)
        ctx.prove(st, z3.And(dec(ctx.bytes), ctx.term(st, lib.content(e, st, q[2])) == val(ctx.bytes)), 'the message is the one in the request')
        for i, n in ((3, 'mailbox_timeout'), (4, 'reply_timeout')):
            ctx.prove(st, (q[i] is None and n not in ctx.a) or (q[i] is not None and n in ctx.a and e.entails(st, gz(deep_eq(ctx, st, q[i], ctx.a[n])))), 'with the timeouts of the request')
        r = g['out']
        answered(ctx, st, v, r, kind)
    J = Job('_internal::' + op, rf'^remote::_internal::{op}$', crate='remote', setup=setup, monitor=m_local, finish=finish, extra=SERDE + REQUESTS, ghost=dict(LG),
            expect=(WHO, NOT_SENT, 'the message is the one in the request', 'with the timeouts of the request', 'the answer is what the actor answered', 'the registry is not locked while the actor is asked'))
    return J


SAID = 'the answer is what the actor answered'
KINDS = {'ActorNotRunning': 'ActorNotRunning', 'ActorStopped': 'ActorStopped', 'MailboxFull': 'MailboxFull', 'Timeout': 'ReplyTimeout'}


def answered(ctx, st, v, r, kind):
    """the answer v tells outcome r: a reply or handler error as bytes that decode to it"""
    g, e = st.ghost, ctx.eng
    if e.entails(st, is_var(ctx, st, r, 'Ok')):
        if kind == 'tell':
            ctx.prove(st, is_var(ctx, st, v, 'Ok'), SAID)
        elif g['unencodable']:
            ctx.prove(st, is_err(ctx, st, v, 'SerializeReply'), SAID)
        else:
            ctx.prove(st, e.entails(st, is_var(ctx, st, v, 'Ok')) and decodes_to(ctx, st, ctx.payload(st, v, 'Ok'), ctx.payload(st, r, 'Ok')), SAID)
        return
    x = ctx.payload(st, r, 'Err')
    ks = [n['name'] for n in ctx.P.t(x.tid)['variants'] if e.entails(st, is_var(ctx, st, x, n['name']))]
    ctx.prove(st, len(ks) == 1 and e.entails(st, is_var(ctx, st, r, 'Err')), 'the kind is determined')
    if len(ks) != 1:
        return
    if ks[0] != 'HandlerError':
        ctx.prove(st, is_err(ctx, st, v, KINDS[ks[0]]), SAID)
        return
    h = ctx.payload(st, x, 'HandlerError')
    if kind == 'tell':
        ctx.prove(st, z3.BoolVal(True), 'telling gives no handler error')
    elif g['unencodable']:
        ctx.prove(st, is_err(ctx, st, v, 'SerializeHandlerError'), SAID)
    else:
        er = ctx.payload(st, v, 'Err') if e.entails(st, is_var(ctx, st, v, 'Err')) else None
        ctx.prove(st, er is not None and e.entails(st, is_var(ctx, st, er, 'HandlerError')) and decodes_to(ctx, st, ctx.payload(st, er, 'HandlerError'), h), SAID)


def decodes_to(ctx, st, b, v):
    """condition: the bytes decode to v, a value of that type"""
    dec, val = codec(ctx.eng, v.tid)
    s = lib.as_seq(ctx.eng, st, lib.content(ctx.eng, st, b)).seq
    return z3.And(dec(s), val(s) == ctx.term(st, v))


JOBS = [
    dispatcher('ask', 'REMOTE_MESSAGES_MAP', ('actor_remote_id', 'message_remote_id'), [('try_ask', ('actor_id', 'payload', 'reply_timeout')), ('ask', ('actor_id', 'payload', 'mailbox_timeout', 'reply_timeout'))],
               ('actor_id', 'actor_remote_id', 'message_remote_id', 'payload', 'mailbox_timeout', 'reply_timeout', 'immediate'), 'UnknownMessage'),
    dispatcher('tell', 'REMOTE_MESSAGES_MAP', ('actor_remote_id', 'message_remote_id'), [('try_tell', ('actor_id', 'payload')), ('tell', ('actor_id', 'payload', 'mailbox_timeout'))],
               ('actor_id', 'actor_remote_id', 'message_remote_id', 'payload', 'mailbox_timeout', 'immediate'), 'UnknownMessage'),
    dispatcher('link', 'REMOTE_ACTORS_MAP', ('actor_remote_id',), [('link', ('actor_id', 'sibbling_id', 'sibbling_remote_id'))], ('actor_id', 'actor_remote_id', 'sibbling_id', 'sibbling_remote_id'), 'UnknownActor'),
    dispatcher('unlink', 'REMOTE_ACTORS_MAP', ('actor_remote_id',), [('unlink', ('actor_id', 'sibbling_id'))], ('actor_id', 'actor_remote_id', 'sibbling_id'), 'UnknownActor'),
    dispatcher('signal_link_died', 'REMOTE_ACTORS_MAP', ('notified_actor_remote_id',), [('signal_link_died', ('dead_actor_id', 'notified_actor_id', 'stop_reason'))],
               ('dead_actor_id', 'notified_actor_id', 'notified_actor_remote_id', 'stop_reason'), 'UnknownActor'),
    local('ask', 'ask', 'send', ('mailbox_timeout', 'reply_timeout')), local('try_ask', 'ask', 'try_send', ('reply_timeout',)),
    local('tell', 'tell', 'send', ('mailbox_timeout',)), local('try_tell', 'tell', 'try_send', ()),
]
