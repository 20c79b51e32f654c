"""Names in the swarm: what is asked of the swarm task, and what its answer means."""
from .base import *
from .ids import is_ok, REMOTE, seq_of, kind_of

SW = r'^remote::swarm::ActorSwarm::'


# ------------------------------------------------------------------ records: bytes <-> registration (verified in ids.py)
def key_of(eng, seq):
    """the kademlia key of these bytes"""
    t = eng.F('kadKey', [SeqV], V)(seq)
    eng.axiom(eng.F('kadKeyBytes', [V], SeqV)(t) == seq)
    return t


def h_key_from(eng, st, info):
    """Key::from(bytes): the key with these bytes"""
    return ret(eng, st, Sym(key_of(eng, lib.as_seq(eng, st, info.args[0]).seq), info.dest))


def h_record_new(eng, st, info):
    """Record::new(key, value): a record with that key and value, without publisher or expiry"""
    k = info.args[0]
    k = lib.content(eng, st, k)
    kt = eng.term(st, k) if not (isinstance(k, Obj) and k.kind == 'Seq') else key_of(eng, k.seq)
    t = eng.F('kadRecord', [V, SeqV], V)(kt, lib.as_seq(eng, st, info.args[1]).seq)
    r = Sym(t, info.dest)
    T = eng.P.t(info.dest)
    for i, (n, ft) in enumerate(T['variants'][0]['fields']):
        f = eng.field_of(st, r, None, i, ft)
        if n == 'key':
            eng.axiom(eng.term(st, f) == kt)
        elif n == 'value':
            eng.axiom(lib.as_seq(eng, st, f).seq == lib.as_seq(eng, st, info.args[1]).seq)
    return ret(eng, st, r)


def h_key_clone(eng, st, info):
    """a clone is equal"""
    return ret(eng, st, Sym(lib.cterm(eng, st, info.args[0]), info.dest))


KAD = [(r'record::Key as core::convert::From<alloc::vec::Vec<u8>>>::from$', h_key_from), (r'libp2p_kad::record::Record::new$', h_record_new),
       (r'record::Key as core::clone::Clone>::clone$', h_key_clone)]


def reg_parts(eng, seq):
    """(is a registration, id, remote id text) of bytes"""
    return (eng.F('isRegistration', [SeqV], z3.BoolSort())(seq), eng.F('registeredId', [SeqV], V)(seq), eng.F('registeredType', [SeqV], V)(seq))


def h_reg_from(eng, st, info):
    """ActorRegistration::from_bytes (verified in ids.py): the registration these bytes encode, if any"""
    s = lib.as_seq(eng, st, lib.content(eng, st, info.args[0])).seq
    ok, i, r = reg_parts(eng, s)
    out = []
    for st2, y in eng.branch(st, ok):
        if y:
            rt = lib.field_tid(eng, info.dest, 'Some')
            fs = eng.P.t(rt)['variants'][0]['fields']
            d = {'actor_id': Sym(i, None), 'remote_id': Sym(r, None)}
            vals = []
            for n, ft in fs:
                if n == 'remote_id':
                    c = eng.P.t(ft)
                    st2, cow = st2, Agg(c['path'], 0, [Ref(eng.alloc(st2, Sym(r, None)))], ft)
                    vals.append(cow)
                else:
                    vals.append(Sym(i, ft))
            out += ret(eng, st2, lib.variant(eng, info.dest, 'Some', Agg(eng.P.t(rt)['path'], 0, vals, rt)))
        else:
            out += ret(eng, st2, lib.none(eng, info.dest))
    return out


def h_reg_into(eng, st, info):
    """ActorRegistration::into_bytes (verified in ids.py): from_bytes of it gives the registration back"""
    v = lib.content(eng, st, info.args[0])
    T = eng.P.t(v.tid)
    d = {n: eng.field_of(st, v, 0 if isinstance(v, Agg) else None, i, ft) for i, (n, ft) in enumerate(T['variants'][0]['fields'])}
    s = eng.F('registrationBytes', [V, V], SeqV)(eng.term(st, d['actor_id']), eng.term(st, lib.text_of(eng, st, d['remote_id'])))
    ok, i, r = reg_parts(eng, s)
    eng.axiom(z3.And(ok, i == eng.term(st, d['actor_id']), r == eng.term(st, lib.text_of(eng, st, d['remote_id']))))
    a = [x for x in eng.P.t(info.dest)['args'] if isinstance(x, int)]
    return ret(eng, st, Obj('Seq', seq=s, etid=a[0], tid=info.dest))


RECORDS = [(r"^remote::swarm::ActorRegistration::<'a>::from_bytes$", h_reg_from), (r"^remote::swarm::ActorRegistration::<'a>::into_bytes$", h_reg_into)]
EXTRA = REMOTE + KAD + RECORDS


# ------------------------------------------------------------------ commands and answers
G0 = {'chan': None, 'cmd': None, 'sends': 0, 'sent': False, 'waits': (), 'got': None, 'lost': False, 'locks': 0, 'at_lock': None, 'at_unlock': None, 'global': None, 'lookups': ()}


def m_cmd(ctx, st, name, args):
    g = st.ghost
    if name == 'send_attempt':
        g['sends'] += 1
        g['chan'], g['cmd'] = ctx.term(st, args[0]), args[1]
    elif name == 'send':
        g['sent'] = True
    elif name == 'reply_wait':
        g['waits'] += (ctx.term(st, args[0]),)
    elif name == 'reply_received':
        g['got'] = args[1]
    elif name == 'reply_lost':
        g['lost'] = True
    elif name == 'lock':
        g['locks'] += 1
        g['global'] = ctx.term(st, args[0])
        try:
            g['at_lock'] = lib.as_map(ctx.eng, st, args[1])
        except Exception:
            g['at_lock'] = None
    elif name == 'unlock':
        try:
            g['at_unlock'] = lib.as_map(ctx.eng, st, args[1])
        except Exception:
            g['at_unlock'] = None


def cmd_field(ctx, st, fname):
    c = st.ghost['cmd']
    T = ctx.P.t(c.tid)
    fs = T['variants'][c.variant]['fields']
    i = [f[0] for f in fs].index(fname)
    return c.fields[i]


def cmd_name(ctx, st):
    c = st.ghost['cmd']
    return ctx.P.t(c.tid)['variants'][c.variant]['name']


def slot(ctx, st):
    """receiving end of the slot the command carries"""
    t = ctx.term(st, cmd_field(ctx, st, 'reply'))
    return ctx.eng.F('orx', [V], V)(t.arg(0)) if t.decl().name() == 'otx' else None


def sent_command(ctx, st, kind, variant, swarm):
    """one command of this kind went to the swarm task; True if its answer arrived"""
    g = st.ghost
    if kind == 'panic':
        ctx.prove(st, z3.BoolVal(not g['sent'] or g['lost']), 'it panics only when the swarm task is gone')
        return False
    ctx.prove(st, g['sends'] == 1 and g['sent'] and isinstance(g['cmd'], Agg) and cmd_name(ctx, st) == variant, f'one {variant} command is sent')
    if not (g['sent'] and isinstance(g['cmd'], Agg) and cmd_name(ctx, st) == variant):
        return False
    ctx.prove(st, g['chan'] == sender_of(ctx, st, swarm), 'it goes to the task of this swarm')
    s = slot(ctx, st)
    ctx.prove(st, len(g['waits']) == 1 and s is not None and gz(g['waits'][0] == s), 'it waits for the answer to this very command')
    return g['got'] is not None


def sender_of(ctx, st, swarm):
    return ctx.term(st, ctx.eng.field_of(st, *_tx0(ctx, st, swarm)))


def _tx0(ctx, st, swarm):
    tx = ctx.content(st, swarm)
    if 'ActorSwarm' in ctx.P.t(tx.tid)['path']:
        tx = ctx.field(st, tx, 'swarm_tx')
    f = ctx.P.t(tx.tid)['variants'][0]['fields']
    return tx, (0 if isinstance(tx, Agg) else None), 0, f[0][1]


def name_key(ctx, st):
    return key_of(ctx.eng, lib.str_bytes(ctx.eng, st, ctx.name))


def is_var(ctx, st, v, n):
    return gz(ctx.is_variant(st, v, n))


def registry_global(ctx, st):
    return 'REMOTE_REGISTRY' in str(st.ghost['global'])


REMOTE_ID = lambda ctx, i=0: ctx.eng.F('deref', [V], V)(z3.Const(f'const:remote::RemoteActor::REMOTE_ID[#{i}]', V))


# ------------------------------------------------------------------ the four operations
def s_named(i):
    def s(ctx, st, args):
        ctx.name = args[i]
        ctx.name_term = ctx.term(st, args[i])
    return s


def put_answer(ctx, st, v):
    """Ok / QuorumFailed / Timeout become just that"""
    r = st.ghost['got']
    ctx.prove(st, is_var(ctx, st, v, 'Ok') == is_var(ctx, st, r, 'Ok'), 'it succeeds exactly when the record was put')
    if not is_ok(ctx, st, v) and not is_ok(ctx, st, r):
        e, x = ctx.payload(st, v, 'Err'), ctx.payload(st, r, 'Err')
        for n in ('QuorumFailed', 'Timeout'):
            ctx.prove(st, is_var(ctx, st, e, n) == is_var(ctx, st, x, n), 'the error is the one reported')
        if ctx.eng.entails(st, is_var(ctx, st, x, 'QuorumFailed')):
            ctx.prove(st, gz(ctx.eq(st, ctx.payload(st, e, 'QuorumFailed'), ctx.payload(st, x, 'QuorumFailed', vfield(ctx, x, 'QuorumFailed', 'quorum')))), 'with the quorum that failed')


def vfield(ctx, v, variant, fname):
    x = [x for x in ctx.P.t(v.tid)['variants'] if x['name'] == variant][0]
    return [f[0] for f in x['fields']].index(fname)


def f_register(ctx, st, kind, v):
    if not sent_command(ctx, st, kind, 'Register', ctx.args[0]):
        return
    g, e = st.ghost, ctx.eng
    rec = cmd_field(ctx, st, 'record')
    aid = ctx.field(st, ctx.args[1], 'id')
    ctx.prove(st, gz(ctx.eq(st, ctx.field(st, rec, 'key'), name_key(ctx, st))), 'the record is stored under the name')
    ok, i, r = reg_parts(e, lib.as_seq(e, st, ctx.field(st, rec, 'value')).seq)
    ctx.prove(st, z3.And(ok, i == ctx.term(st, aid), r == REMOTE_ID(ctx)), 'the record holds the id of the actor and its type')
    put_answer(ctx, st, v)
    if not is_ok(ctx, st, v):
        ctx.prove(st, g['locks'] == 0, 'an actor whose record was not put is not made reachable')
        return
    ctx.prove(st, g['locks'] == 1 and registry_global(ctx, st) and g['at_unlock'] is not None, 'the actor is entered into the registry of this node, under its lock')
    if g['at_lock'] is None or g['at_unlock'] is None:
        return
    a, b = g['at_lock'], g['at_unlock']
    k = ctx.term(st, aid)
    ctx.prove(st, b.dom == z3.Store(a.dom, k, z3.BoolVal(True)), 'under its id, and nothing else changes')
    x = z3.Const('any!id', V)
    ctx.prove(st, z3.Implies(x != k, z3.Select(b.val, x) == z3.Select(a.val, x)), 'other actors keep their entries')
    ent = g['entry']
    if ent is None:
        ctx.prove(st, False, 'the entry holds a reference to this very actor')
        return
    ctx.prove(st, z3.Select(b.val, k) == ctx.term(st, ent), 'under its id, and nothing else changes')
    ref = ctx.field(st, ent, 'actor_ref')
    inner = st.heap[ref.cell] if isinstance(ref, BoxV) and ref.cell in st.heap else None
    ctx.prove(st, inner is not None and deep_eq(ctx, st, inner, ctx.args[1]), 'the entry holds a reference to this very actor')
    ctx.prove(st, deep_eq(ctx, st, ctx.field(st, ent, 'links'), ctx.field(st, ctx.args[1], 'links')), 'and its very set of links')
    mb = ctx.field(st, ent, 'signal_mailbox')
    mi = st.heap[mb.cell] if isinstance(mb, BoxV) and mb.cell in st.heap else None
    ctx.prove(st, mi is not None and weak_of(ctx, st, mi, ctx.field(st, ctx.args[1], 'mailbox_sender')), 'and a weak mailbox of it')


def weak_of(ctx, st, w, mailbox):
    """w is the weak form of the mailbox sender"""
    e = ctx.eng
    path = ctx.P.t(w.tid)['path'] if w.tid is not None else ''
    if not path.endswith('WeakMailboxSender'):
        return z3.BoolVal(False)
    cs = []
    for n in ('Bounded', 'Unbounded'):
        cs.append(z3.And(is_var(ctx, st, w, n), is_var(ctx, st, mailbox, n),
                         e.F('weakOf', [V], V)(ctx.term(st, ctx.payload(st, mailbox, n))) == ctx.term(st, ctx.payload(st, w, n)) if is_possible(ctx, st, w, n) else z3.BoolVal(True)))
    return z3.Or(*cs)


def is_possible(ctx, st, v, n):
    return ctx.is_variant(st, v, n) is not False


def m_register(ctx, st, name, args):
    m_cmd(ctx, st, name, args)
    if name == 'map_insert':
        st.ghost['entry'] = args[2]


def f_unregister(ctx, st, kind, v):
    if sent_command(ctx, st, kind, 'Unregister', ctx.args[0]):
        ctx.prove(st, gz(ctx.eq(st, cmd_field(ctx, st, 'key'), name_key(ctx, st))), 'it is about the name')
        put_answer(ctx, st, v)


def f_lookup(ctx, st, kind, v):
    if not sent_command(ctx, st, kind, 'Lookup', ctx.args[0]):
        return
    e, r = ctx.eng, st.ghost['got']
    ctx.prove(st, gz(ctx.eq(st, cmd_field(ctx, st, 'key'), name_key(ctx, st))), 'it is about the name')
    if is_ok(ctx, st, r):
        rec = ctx.field(st, ctx.payload(st, r, 'Ok'), 'record')
        ok, i, t = reg_parts(e, lib.as_seq(e, st, ctx.field(st, rec, 'value')).seq)
        right = t == REMOTE_ID(ctx)
        ctx.prove(st, z3.Not(is_var(ctx, st, v, 'Ok')) == z3.And(ok, z3.Not(right)), 'it is an error exactly when the record names an actor of another type')
        if is_ok(ctx, st, v):
            o = ctx.payload(st, v, 'Ok')
            ctx.prove(st, is_var(ctx, st, o, 'Some') == z3.And(ok, right), 'it finds an actor exactly when the record is a registration of that type')
            if e.entails(st, is_var(ctx, st, o, 'Some')):
                rr = ctx.payload(st, o, 'Some')
                ctx.prove(st, gz(ctx.eq(st, ctx.field(st, rr, 'id'), i)), 'the reference has the id in the record')
                ctx.prove(st, e.term(st, e.field_of(st, *_tx0(ctx, st, ctx.field(st, rr, 'swarm_tx')))) == sender_of(ctx, st, ctx.args[0]), 'and talks through this swarm')
        else:
            ctx.prove(st, is_var(ctx, st, ctx.payload(st, v, 'Err'), 'BadActorType'), 'the error says the type is wrong')
    else:
        x = ctx.payload(st, r, 'Err')
        nf = is_var(ctx, st, x, 'NotFound')
        ctx.prove(st, is_var(ctx, st, v, 'Ok') == nf, 'no record means no actor; everything else is an error')
        if is_ok(ctx, st, v):
            ctx.prove(st, is_var(ctx, st, ctx.payload(st, v, 'Ok'), 'None'), 'no record means no actor; everything else is an error')
        else:
            er = ctx.payload(st, v, 'Err')
            for n in ('QuorumFailed', 'Timeout'):
                ctx.prove(st, is_var(ctx, st, er, n) == is_var(ctx, st, x, n), 'the error is the one reported')


def f_lookup_local(ctx, st, kind, v):
    if not sent_command(ctx, st, kind, 'LookupLocal', ctx.args[0]):
        return
    e, r, g = ctx.eng, st.ghost['got'], st.ghost
    ctx.prove(st, gz(ctx.eq(st, cmd_field(ctx, st, 'key'), name_key(ctx, st))), 'it is about the name')
    if ctx.eng.entails(st, is_var(ctx, st, r, 'None')):
        ctx.prove(st, is_ok(ctx, st, v) and is_var(ctx, st, ctx.payload(st, v, 'Ok'), 'None'), 'no record means no actor')
        return
    reg = ctx.payload(st, r, 'Some')
    rid = e.term(st, lib.text_of(e, st, ctx.field(st, reg, 'remote_id')))
    aid = ctx.term(st, ctx.field(st, reg, 'actor_id'))
    right = rid == REMOTE_ID(ctx)
    if g['at_lock'] is None:
        ctx.prove(st, z3.And(z3.Not(right), z3.Not(is_var(ctx, st, v, 'Ok'))), 'a record of another type is an error')
        return
    ctx.prove(st, registry_global(ctx, st) and g['locks'] == 1, 'it looks into the registry of this node, under its lock')
    ctx.prove(st, g['at_unlock'] is not None and gz(z3.And(g['at_unlock'].dom == g['at_lock'].dom, g['at_unlock'].val == g['at_lock'].val)), 'the registry stays as it was')
    has = z3.Select(g['at_lock'].dom, aid)
    ent = Sym(z3.Select(g['at_lock'].val, aid), g['at_lock'].vtid)
    bt = ctx.term(st, ctx.field(st, ent, 'actor_ref'))
    okt = lib.field_tid(e, v.tid, 'Ok')
    want = lib.field_tid(e, okt, 'Some')
    inner = e.F('unbox', [V], V)(bt)
    hit = e.F('hasType:' + ctx.P.t(want)['s'], [V], z3.BoolSort())(inner)
    ctx.prove(st, right, 'a record of another type is an error')
    ctx.prove(st, is_var(ctx, st, v, 'Ok') == z3.Or(z3.Not(has), hit), 'it is an error exactly when the actor is of another type')
    if is_ok(ctx, st, v):
        o = ctx.payload(st, v, 'Ok')
        ctx.prove(st, is_var(ctx, st, o, 'Some') == has, 'it finds an actor exactly when it is registered here')
        if e.entails(st, is_var(ctx, st, o, 'Some')):
            ctx.prove(st, deep_eq(ctx, st, ctx.payload(st, o, 'Some'), Sym(inner, want)), 'what it finds is the very actor registered')
    else:
        ctx.prove(st, is_var(ctx, st, ctx.payload(st, v, 'Err'), 'BadActorType'), 'the error says the type is wrong')



# ------------------------------------------------------------------ through references
def h_swarm_op(op):
    """an operation of the swarm (verified above): arbitrary result"""
    def h(eng, st, info):
        eng.emit(st, 'swarm_types', [ty(eng, x)['s'] for x in info.callee['args'] if isinstance(x, int)])
        eng.emit(st, 'swarm_op', op, *info.args)
        return ret(eng, st, mkfut('swarm_op', op, *info.args))
    h.__doc__ = h_swarm_op.__doc__
    return h


@fut('swarm_op')
def f_swarm_op(eng, st, fv, out):
    res = cancel_points(eng, st)
    r = eng.fresh_val(st, out, 'swarm_result')
    eng.emit(st, 'swarm_result', r)
    return res + ret(eng, st, r)


OPS = [(SW + n + '$', h_swarm_op(n)) for n in ('register', 'lookup', 'lookup_local', 'unregister', 'link', 'unlink', 'signal_link_died')]
R0 = {'swarm': None, 'ops': (), 'types': (), 'results': (), 'result': None, 'swarmref': None, 'locks': ()}


def m_ref(ctx, st, name, args):
    g = st.ghost
    if name == 'global_get':
        g['swarm'], g['swarmref'] = args[1], ctx.term(st, args[0])
    elif name == 'swarm_op':
        g['ops'] += (args,)
    elif name == 'swarm_types':
        g['types'] += (args[0],)
    elif name == 'swarm_result':
        g['result'] = args[0]
        g['results'] += (args[0],)
    elif name in ('lock', 'unlock'):
        g['locks'] += ((name, ctx.term(st, args[0]), args[1]),)


def through(op, check):
    def f(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        g = st.ghost
        if not g['ops']:
            ctx.prove(st, g['swarm'] is False and not is_ok(ctx, st, v) and gz(is_var(ctx, st, ctx.payload(st, v, 'Err'), 'SwarmNotBootstrapped')), 'without a swarm it says so, and only then')
            return
        ctx.prove(st, len(g['ops']) == 1 and g['ops'][0][0] == op, f'it asks the swarm once, for the right operation')
        if len(g['ops']) == 1 and g['ops'][0][0] == op:
            check(ctx, st, g['ops'][0])
        ctx.prove(st, g['result'] is not None and gz(ctx.eq(st, v, g['result'])), 'the answer of the swarm is its result')
    return f


def same_name(ctx, st, x, arg):
    ctx.prove(st, ctx.eng.term(st, lib.text_of(ctx.eng, st, x)) == ctx.eng.term(st, lib.text_of(ctx.eng, st, arg)), 'with the given name')


def c_reg(ctx, st, op):
    ctx.prove(st, deep_eq(ctx, st, op[2], ctx.args[0]), 'with a reference to this very actor')
    same_name(ctx, st, op[3], ctx.args[1])


def c_look(ctx, st, op):
    same_name(ctx, st, op[2], ctx.args[0])


AR, RR = r'^actor::actor_ref::ActorRef::<A>::', r'^actor::actor_ref::RemoteActorRef::<A>::'
JOBS = [
    Job('ActorSwarm::register', SW + 'register$', s_named(2), m_register, f_register, EXTRA, crate='remote', ghost=dict(G0, entry=None)),
    Job('ActorSwarm::lookup', SW + 'lookup$', s_named(1), m_cmd, f_lookup, EXTRA, crate='remote', ghost=G0),
    Job('ActorSwarm::lookup_local', SW + 'lookup_local$', s_named(1), m_cmd, f_lookup_local, EXTRA, crate='remote', ghost=G0),
    Job('ActorSwarm::unregister', SW + 'unregister$', s_named(1), m_cmd, f_unregister, EXTRA, crate='remote', ghost=G0),
    Job('ActorRef::register (remote)', AR + 'register$', None, m_ref, through('register', c_reg), OPS + REMOTE, crate='remote', ghost=R0),
    Job('ActorRef::lookup (remote)', AR + 'lookup$', None, m_ref, through('lookup_local', c_look), OPS + REMOTE, crate='remote', ghost=R0),
    Job('RemoteActorRef::lookup', RR + 'lookup$', None, m_ref, through('lookup', c_look), OPS + REMOTE, crate='remote', ghost=R0),
]
