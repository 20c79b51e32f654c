"""Actor ids: their byte form, equality, hashing and generation, and the registration records built from them."""
from .base import *

ID = r'^actor::id::ActorID::'
IDAS = r'^<actor::id::ActorID as '
KIND = r'^<actor::id::PeerIdKind as '
REG = r"^remote::swarm::ActorRegistration::<'a>::"


# ------------------------------------------------------------------------------ the library below it
def h_peer_to_bytes(eng, st, info):
    """PeerId::to_bytes / from_bytes are inverse; a peer id has 2 to 66 bytes"""
    s = peer_bytes(eng, lib.cterm(eng, st, info.args[0]))
    a = [x for x in eng.P.t(info.dest)['args'] if isinstance(x, int)]
    return ret(eng, st, Obj('Seq', seq=s, etid=a[0], tid=info.dest))


def peer_bytes(eng, t):
    s = eng.F('peerBytes', [V], SeqV)(t)
    eng.axiom(z3.And(z3.Length(s) >= 2, z3.Length(s) <= 66))
    eng.axiom(eng.F('isPeer', [SeqV], z3.BoolSort())(s))
    eng.axiom(eng.F('peerOf', [SeqV], V)(s) == t)
    return s


def h_peer_from_bytes(eng, st, info):
    s = lib.as_seq(eng, st, lib.content(eng, st, info.args[0])).seq
    ok = eng.F('isPeer', [SeqV], z3.BoolSort())(s)
    t = eng.F('peerOf', [SeqV], V)(s)
    eng.axiom(z3.Implies(ok, z3.And(eng.F('peerBytes', [V], SeqV)(t) == s, z3.Length(s) >= 2)))
    out = []
    for st2, y in eng.branch(st, ok):
        if y:
            out += ret(eng, st2, lib.variant(eng, info.dest, 'Ok', Sym(t, lib.field_tid(eng, info.dest, 'Ok'))))
        else:
            out += ret(eng, st2, lib.variant(eng, info.dest, 'Err', Sym(eng.fresh('ParseError'), lib.field_tid(eng, info.dest, 'Err'))))
    return out


def h_hash_write(eng, st, info):
    """Hasher::write and friends: the hash is a function of what is written, in order"""
    v = lib.content(eng, st, info.args[-1] if info.callee['name'] != 'hash' else info.args[0])
    if isinstance(v, Obj) and v.kind == 'Seq':
        v = Sym(eng.term(st, v), None)
    eng.emit(st, 'hashed', v)
    return ret(eng, st, UNIT)


def h_serialize(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'serialized')
    eng.emit(st, 'serialized', lib.content(eng, st, info.args[1]), r)
    return ret(eng, st, r)


def h_deserialize(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'deserialized')
    eng.emit(st, 'deserialized', r)
    return ret(eng, st, r)


def h_de_error(eng, st, info):
    return ret(eng, st, Sym(eng.fresh('de_error'), info.dest))


def h_peer_eq(eng, st, info):
    e = lib.cterm(eng, st, info.args[0]) == lib.cterm(eng, st, info.args[1])
    return ret(eng, st, B(z3.Not(e) if info.callee['name'] == 'ne' else e))


PEER = [(r'peer_id::PeerId::to_bytes$', h_peer_to_bytes), (r'peer_id::PeerId::from_bytes$', h_peer_from_bytes),
        (r'PeerId as core::cmp::PartialEq>::(eq|ne)$', h_peer_eq),
        (r'^core::hash::Hasher::write', h_hash_write), (r'core::hash::Hash for (u64|u32|u8|usize|\[T\])>::hash$', h_hash_write),
        (r'ser::Serializer::serialize_bytes$', h_serialize),
        (r"Deserialize<'de> for &'a \[u8\]>::deserialize$", h_deserialize), (r'de::Error::(invalid_length|custom)', h_de_error)]


# ------------------------------------------------------------------------------ the abstract id
def seq_of(ctx, st, idv):
    return zi(ctx.field(st, idv, 'sequence_id').e)


def kind_of(ctx, st, idv):
    """(peer kind value | None without remote)"""
    t = ctx.P.t(ctx.content(st, idv).tid)
    return ctx.field(st, idv, 'peer_id') if any(f[0] == 'peer_id' for f in t['variants'][0]['fields']) else None


def is_local(ctx, st, k):
    return gz(ctx.is_variant(st, k, 'Local'))


def is_ok(ctx, st, v):
    return ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Ok')))


def peer_of(ctx, st, k):
    if isinstance(k, Agg) and not k.fields:
        return z3.Const('no_peer', V)
    return ctx.term(st, ctx.payload(st, k, 'PeerId'))


def m_swarm(ctx, st, name, args):
    """global_get: is there a swarm"""
    g = st.ghost
    if name == 'global_get':
        g['swarm'] = args[1]
        if g.get('swarm0') is None:
            g['swarm0'] = args[1]
    elif name == 'hashed':
        g['hashed'] = g.get('hashed', ()) + (ctx.term(st, args[0]),)


LOCAL = z3.Const('local_peer_id_of_the_swarm', V)


def h_local_peer_id(eng, st, info):
    """the swarm's own peer id: set when it is bootstrapped, never changed"""
    to = eng.P.t(info.dest)['to'] if info.dest is not None else None
    return ret(eng, st, Ref(eng.alloc(st, Sym(LOCAL, to))))


REMOTE = PEER + [(r'^remote::swarm::ActorSwarm::local_peer_id$', h_local_peer_id)]
GH = {'swarm': None, 'swarm0': None, 'hashed': ()}


def le(ctx, x):
    e = ctx.eng
    s = e.F('le64', [z3.IntSort()], SeqV)(x)
    e.axiom(z3.Implies(z3.And(x >= 0, x < 2 ** 64), z3.And(z3.Length(s) == 8, e.F('unle64', [SeqV], z3.IntSort())(s) == x)))
    return s


def id_bytes_ok(ctx, st, idv, seq):
    """seq is the byte form of the id"""
    k = kind_of(ctx, st, idv)
    head = le(ctx, seq_of(ctx, st, idv))
    if k is None:
        return seq == head
    with_local = seq == z3.Concat(head, peer_bytes(ctx.eng, LOCAL))
    bare = seq == head
    local = {None: z3.Or(with_local, bare), True: with_local, False: bare}[st.ghost.get('swarm')]
    p = peer_of(ctx, st, k)
    return z3.If(is_local(ctx, st, k), local, seq == z3.Concat(head, peer_bytes(ctx.eng, p)))


JOBS = []
for C, EX in (('core', PEER), ('remote', REMOTE)):
    L = '' if C == 'core' else ' (remote)'

    def f_to_bytes(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind == 'ret':
            ctx.prove(st, id_bytes_ok(ctx, st, ctx.args[0], lib.as_seq(ctx.eng, st, ctx.content(st, v)).seq),
                      'the bytes are the little endian sequence id, then the peer id if there is one')
    JOBS.append(Job('ActorID::to_bytes' + L, ID + 'to_bytes$', monitor=m_swarm, finish=f_to_bytes, extra=EX, crate=C, ghost=GH))

    def f_from_bytes(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'no input makes it panic')
        if kind != 'ret':
            return
        s = lib.as_seq(ctx.eng, st, ctx.content(st, ctx.args[0])).seq
        n = z3.Length(s)
        ok = gz(ctx.is_variant(st, v, 'Ok'))
        remote = ctx.job.crate == 'remote'
        rest = z3.SubSeq(s, 8, n - 8)
        good = n >= 8
        if remote:
            good = z3.And(n >= 8, z3.Or(n == 8, ctx.eng.F('isPeer', [SeqV], z3.BoolSort())(rest)))
        ctx.prove(st, ok == good, 'it succeeds exactly on a sequence id followed by nothing or a peer id')
        if is_ok(ctx, st, v):
            i = ctx.payload(st, v, 'Ok')
            ctx.prove(st, z3.Implies(n >= 8, le(ctx, seq_of(ctx, st, i)) == z3.SubSeq(s, 0, 8)), 'the sequence id is the one in the bytes')
            k = kind_of(ctx, st, i)
            if k is not None:
                ctx.prove(st, z3.If(n == 8, is_local(ctx, st, k), z3.And(z3.Not(is_local(ctx, st, k)), peer_bytes(ctx.eng, peer_of(ctx, st, k)) == rest)),
                          'the peer is the one in the bytes, none meaning this one')
            # round trip: whatever id these bytes are the form of, it is this one
            x, q, has = z3.Int('x!id'), z3.Const('q!peer', V), z3.Bool('has!peer')
            form = z3.Concat(le(ctx, x), z3.If(has, peer_bytes(ctx.eng, q), z3.Empty(SeqV))) if remote else le(ctx, x)
            same = seq_of(ctx, st, i) == x
            if k is not None:
                same = z3.And(same, is_local(ctx, st, k) == z3.Not(has), z3.Implies(has, peer_of(ctx, st, k) == q))
            ctx.prove(st, z3.Implies(z3.And(x >= 0, x < 2 ** 64, s == form), same), 'reading the byte form of an id gives that id back')
        else:
            e = ctx.payload(st, v, 'Err')
            ctx.prove(st, gz(ctx.is_variant(st, e, 'MissingSequenceID')) == (n < 8), 'the error says what is missing')
    JOBS.append(Job('ActorID::from_bytes' + L, ID + 'from_bytes$', finish=f_from_bytes, extra=EX, crate=C))

    def f_generate(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind == 'ret':
            ctx.prove(st, len(g['adds']) == 1, 'one atomic step per id')
            if len(g['adds']) == 1:
                (n, arg, r), = g['adds']
                ctx.prove(st, n == 'atomic_fetch_add' and gz(zi(arg.e) == 1), 'the counter is advanced by one, atomically')
                ctx.prove(st, seq_of(ctx, st, v) == zi(r.e), 'the id is the value before: ids never repeat')
                k = kind_of(ctx, st, v)
                ctx.prove(st, k is None or is_local(ctx, st, k), 'the id is local')

    def m_generate(ctx, st, name, args):
        g = st.ghost
        if name == 'atomic_result':
            n, a, _ = g['adds'][-1]
            g['adds'] = g['adds'][:-1] + ((n, a, args[0]),)
        elif name.startswith('atomic_'):
            g['adds'] += ((name, args[1] if len(args) > 1 else None, None),)
    JOBS.append(Job('ActorID::generate' + L, ID + 'generate$', monitor=m_generate, finish=f_generate, extra=EX, crate=C, ghost={'adds': ()}))

    def f_new(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret' and gz(seq_of(ctx, st, v) == zi(ctx.args[0].e)), 'it has the given sequence id')
        if kind == 'ret':
            k = kind_of(ctx, st, v)
            if k is not None and len(ctx.args) > 1:
                ctx.prove(st, z3.And(z3.Not(is_local(ctx, st, k)), peer_of(ctx, st, k) == ctx.term(st, ctx.args[1])), 'it has the given peer')
            elif k is not None:
                ctx.prove(st, is_local(ctx, st, k), 'it is local')
    JOBS.append(Job('ActorID::new' + L, ID + 'new$', finish=f_new, extra=EX, crate=C))
    if C == 'remote':
        JOBS.append(Job('ActorID::new_with_peer_id', ID + 'new_with_peer_id$', finish=f_new, extra=EX, crate=C))
    JOBS.append(Job('ActorID::sequence_id' + L, ID + 'sequence_id$', extra=EX, crate=C,
                    finish=lambda ctx, st, kind, v: ctx.prove(st, kind == 'ret' and gz(zi(v.e) == seq_of(ctx, st, ctx.args[0])), 'it is the sequence id')))

    def eff(ctx, st, k):
        """(has a peer, the peer): what the id means while the swarm is as seen on this path"""
        loc = is_local(ctx, st, k)
        p = peer_of(ctx, st, k)
        sw = z3.Bool('the_swarm_is_there') if st.ghost.get('swarm') is None else z3.BoolVal(bool(st.ghost['swarm']))
        return z3.If(loc, sw, z3.BoolVal(True)), z3.If(loc, LOCAL, p)

    def kinds_eq(ctx, st, a, b):
        ha, pa = eff(ctx, st, a)
        hb, pb = eff(ctx, st, b)
        return z3.Or(z3.And(is_local(ctx, st, a), is_local(ctx, st, b)), z3.And(ha, hb, pa == pb))

    def f_eq(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        a, b = ctx.args[0], ctx.args[1]
        ka, kb = kind_of(ctx, st, a), kind_of(ctx, st, b)
        e = seq_of(ctx, st, a) == seq_of(ctx, st, b)
        if ka is not None:
            e = z3.And(e, kinds_eq(ctx, st, ka, kb))
            if st.ghost.get('swarm0') is False and st.ghost.get('swarm'):
                e = None
                ctx.prove(st, z3.Implies(z3.And(seq_of(ctx, st, a) == seq_of(ctx, st, b), is_local(ctx, st, ka), is_local(ctx, st, kb)), zb(v.e)),
                          'two local ids with the same number are equal, also while the swarm starts')
        if e is not None:
            ctx.prove(st, zb(v.e) == e, 'ids are equal exactly when number and peer are, local meaning the peer of this process')
    JOBS.append(Job('ActorID::eq' + L, IDAS + r'core::cmp::PartialEq>::eq$', monitor=m_swarm, finish=f_eq, extra=EX, crate=C, ghost=GH))

    def f_hash(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        h = st.ghost['hashed']
        a = ctx.args[0]
        k = kind_of(ctx, st, a)
        num = ctx.term(st, ctx.field(st, a, 'sequence_id'))
        # what is hashed must be a function of what equality compares
        if k is None:
            ctx.prove(st, len(h) == 1 and gz(h[0] == num), 'the hash covers the number and nothing equality ignores')
            return
        ctx.prove(st, len(h) >= 1 and gz(h[0] == num), 'the hash covers the number and nothing equality ignores')
        tail = h[1:]
        pb = ctx.eng.F('ofSeq', [SeqV], V)(peer_bytes(ctx.eng, peer_of(ctx, st, k)))
        ctx.prove(st, z3.Implies(is_local(ctx, st, k), z3.BoolVal(len(tail) == 0)), 'a local id hashes the same whether or not the swarm is there: nothing is written for its peer')
        sw = st.ghost['swarm']
        same = z3.And(z3.BoolVal(bool(sw)), peer_of(ctx, st, k) == LOCAL)
        if sw is None:
            ctx.prove(st, is_local(ctx, st, k), 'the id of another peer is compared with this one')
        else:
            ctx.prove(st, z3.Implies(z3.And(z3.Not(is_local(ctx, st, k)), same), z3.BoolVal(len(tail) == 0)), 'the id of this peer, spelled out, hashes as the local one it equals')
            if len(tail) == 1:
                ctx.prove(st, z3.Implies(z3.Not(is_local(ctx, st, k)), tail[0] == pb), 'what is written for another peer is determined by the peer')
            else:
                ctx.prove(st, len(tail) == 0, 'what is written for another peer is determined by the peer')
    JOBS.append(Job('ActorID::hash' + L, IDAS + r'core::hash::Hash>::hash$', monitor=m_swarm, finish=f_hash, extra=EX, crate=C, ghost=GH))

    # ---- serde
    def m_ser(ctx, st, name, args):
        m_swarm(ctx, st, name, args)
        if name == 'serialized':
            st.ghost['ser'] += ((lib.as_seq(ctx.eng, st, args[0]).seq, ctx.term(st, args[1])),)
        elif name == 'deserialized':
            st.ghost['des'] = args[0]

    def f_ser(ctx, st, kind, v):
        s = st.ghost['ser']
        ctx.prove(st, kind == 'ret' and len(s) == 1, 'it is written once')
        if kind == 'ret' and len(s) == 1:
            ctx.prove(st, id_bytes_ok(ctx, st, ctx.args[0], s[0][0]), 'what is written is the byte form of the id')
            ctx.prove(st, ctx.term(st, v) == s[0][1], 'the outcome is the serializer\'s')
    JOBS.append(Job('ActorID::serialize' + L, IDAS + r'serde_core::ser::Serialize>::serialize$', monitor=m_ser, finish=f_ser, extra=EX, crate=C, ghost={**GH, 'ser': ()}))

    def f_des(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'no input makes it panic')
        d = st.ghost['des']
        if kind != 'ret' or d is None:
            return
        if not is_ok(ctx, st, d):
            ctx.prove(st, gz(ctx.is_variant(st, v, 'Err')), 'what cannot be read is an error')
            return
        s = lib.as_seq(ctx.eng, st, ctx.content(st, ctx.payload(st, d, 'Ok'))).seq
        n = z3.Length(s)
        good = n >= 8
        if ctx.job.crate == 'remote':
            good = z3.And(n >= 8, z3.Or(n == 8, ctx.eng.F('isPeer', [SeqV], z3.BoolSort())(z3.SubSeq(s, 8, n - 8))))
        ctx.prove(st, gz(ctx.is_variant(st, v, 'Ok')) == good, 'it succeeds exactly on the byte form of an id')
        if is_ok(ctx, st, v):
            i = ctx.payload(st, v, 'Ok')
            ctx.prove(st, z3.Implies(n >= 8, le(ctx, seq_of(ctx, st, i)) == z3.SubSeq(s, 0, 8)), 'the id is the one in the bytes')
            k = kind_of(ctx, st, i)
            if k is not None:
                ctx.prove(st, z3.If(n == 8, is_local(ctx, st, k), z3.And(z3.Not(is_local(ctx, st, k)), peer_bytes(ctx.eng, peer_of(ctx, st, k)) == z3.SubSeq(s, 8, n - 8))),
                          'the peer is the one in the bytes')
    JOBS.append(Job('ActorID::deserialize' + L, IDAS + r"serde_core::de::Deserialize<'de>>::deserialize$", monitor=m_ser, finish=f_des, extra=EX, crate=C, ghost={**GH, 'des': None}))


# ------------------------------------------------------------------------------ registration records
def reg_fields(ctx, st, v):
    return ctx.field(st, v, 'actor_id'), ctx.term(st, lib.text_of(ctx.eng, st, ctx.field(st, v, 'remote_id')))


def f_reg_into(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    s = lib.as_seq(ctx.eng, st, ctx.content(st, v)).seq
    i, name = reg_fields(ctx, st, ctx.args[0])
    k = kind_of(ctx, st, i)
    text = lib.str_bytes(ctx.eng, st, Sym(name, None))
    n = z3.Length(s)
    plen = ctx.eng.F('intOf', [V], z3.IntSort())(s[0])
    idb = z3.SubSeq(s, 1, n - 1 - z3.Length(text))
    ctx.prove(st, z3.And(n >= 9 + z3.Length(text), z3.SubSeq(s, n - z3.Length(text), z3.Length(text)) == text), 'it ends with the remote id of the actor')
    ctx.prove(st, id_bytes_ok(ctx, st, i, idb), 'the id comes before it, in its byte form')
    ctx.prove(st, plen == z3.Length(idb) - 8, 'it starts with the number of bytes of the peer id')


def f_reg_from(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'no record, whatever another peer put into it, makes it panic')
    if kind != 'ret':
        return
    s = lib.as_seq(ctx.eng, st, ctx.content(st, ctx.args[0])).seq
    e = ctx.eng
    n = z3.Length(s)
    pl = e.F('intOf', [V], z3.IntSort())(s[0])
    e.axiom(z3.Implies(n >= 1, z3.And(pl >= 0, pl < 256)))
    peer, text = z3.SubSeq(s, 9, pl), z3.SubSeq(s, 9 + pl, n - 9 - pl)
    good = z3.And(n >= 1, n >= 9 + pl, z3.Or(pl == 0, e.F('isPeer', [SeqV], z3.BoolSort())(peer)), e.F('isUtf8', [SeqV], z3.BoolSort())(text))
    some_ = gz(ctx.is_variant(st, v, 'Some'))
    ctx.prove(st, some_ == good, 'it gives a registration exactly for the byte form of one')
    if e.entails(st, some_):
        i, name = reg_fields(ctx, st, ctx.payload(st, v, 'Some'))
        k = kind_of(ctx, st, i)
        ctx.prove(st, z3.Implies(good, le(ctx, seq_of(ctx, st, i)) == z3.SubSeq(s, 1, 8)), 'the id is the one in the record')
        ctx.prove(st, z3.Implies(good, z3.If(pl == 0, is_local(ctx, st, k), z3.And(z3.Not(is_local(ctx, st, k)), peer_bytes(e, peer_of(ctx, st, k)) == peer))), 'the peer is the one in the record')
        ctx.prove(st, z3.Implies(good, name == e.F('fromUtf8', [SeqV], V)(text)), 'the remote id is the one in the record')


def f_reg_owned(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        a, n = reg_fields(ctx, st, ctx.args[0])
        b, m = reg_fields(ctx, st, v)
        ctx.prove(st, z3.And(seq_of(ctx, st, a) == seq_of(ctx, st, b), gz(ctx.eq(st, kind_of(ctx, st, a), kind_of(ctx, st, b))), m == n), 'nothing of it changes')


JOBS += [Job('ActorRegistration::into_bytes', REG + 'into_bytes$', monitor=m_swarm, finish=f_reg_into, extra=REMOTE, crate='remote', ghost=GH),
         Job('ActorRegistration::from_bytes', REG + 'from_bytes$', finish=f_reg_from, extra=REMOTE, crate='remote'),
         Job('ActorRegistration::into_owned', REG + 'into_owned$', finish=f_reg_owned, extra=REMOTE, crate='remote')]
