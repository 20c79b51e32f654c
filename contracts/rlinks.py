"""Links between actors of different nodes: what each side's table holds, and how a death is told across."""
from .base import *
from .ids import is_ok
from .swarm import *
from .swarm import OPS, R0
from .dispatch import LG, WHO, the_actor, is_err, registry_global
from .swarmtask import teq
from . import refs as R

ARI = r'^actor::actor_ref::ActorRef::<A>::'
RRI = r'^actor::actor_ref::RemoteActorRef::<A>::'


# ------------------------------------------------------------------ asked by another node: the actor of that id, its table, its mailbox
def mutex_of(ctx, st, ref):
    return ctx.term(st, arc_content(ctx, st, ctx.field(st, fld(ctx, st, 'links', ref), '0')))


def fld(ctx, st, n, ref):
    return R.fld(ctx, st, n, ref)


def m_table(ctx, st, name, args):
    g = st.ghost
    if name == 'lock':
        g['held'] += (ctx.term(st, args[0]),)
        m = lib.as_map(ctx.eng, st, args[1])
        g['tables'] += ((ctx.term(st, args[0]), m, None),)
        if g['reg'] is None:
            g['reg'], g['global'] = m, ctx.term(st, args[0])
    elif name == 'unlock':
        t = ctx.term(st, args[0])
        g['held'] = tuple(x for x in g['held'] if not z3.eq(x, t))
        m = lib.as_map(ctx.eng, st, args[1])
        g['tables'] = tuple((x, a, m) if z3.eq(x, t) and b is None else (x, a, b) for x, a, b in g['tables'])
    elif name == 'map_insert':
        g['ins'] += ((ctx.term(st, args[0]), args[2], ctx.term(st, args[2]), link_of(ctx, st, args[2])),)
    elif name == 'sig_link_died':
        ctx.prove(st, g['held'] == (), 'nothing is locked while the actor is told')
        w = ctx.content(st, args[0])
        w = st.heap[w.cell] if isinstance(w, BoxV) and w.cell in st.heap else w
        g['sig'] += ((w, args[1], args[2]),)
    elif name == 'sig_link_died_done':
        g['out'] = args[0]


def link_of(ctx, st, v):
    """(kind, the text of a remote link's type id | None) of what is entered"""
    v = ctx.content(st, v)
    if ctx.P.t(v.tid)['path'].endswith('Link') and ctx.eng.entails(st, is_var(ctx, st, v, 'Remote')):
        return 'Remote', ctx.term(st, lib.text_of(ctx.eng, st, ctx.payload(st, v, 'Remote')))
    return None


TG = dict(LG, held=(), tables=(), ins=())
ERRS = 'an actor that is not there, or is of another type: an error saying so, and nothing changes'
UNTOUCHED = 'nothing else changes'


def incoming(op, names, post):
    def setup(ctx, st, a):
        ctx.a = dict(zip(names, a))
        ctx.id = ctx.term(st, ctx.a['notified_actor_id' if op == 'signal_link_died' else 'actor_id'])

    def finish(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        has, hit, ref = the_actor(ctx, st, v, ctx.id)
        _, a, b = g['tables'][0]
        ctx.prove(st, g['held'] == () and b is not None and z3.And(a.dom == b.dom, a.val == b.val), 'the registry stays as it was')
        if len(g['tables']) == 1 and not g['sig']:
            ctx.prove(st, z3.Or(z3.And(z3.Not(has), is_err(ctx, st, v, 'ActorNotRunning')), z3.And(has, z3.Not(hit), is_err(ctx, st, v, 'BadActorType'))), ERRS)
            return
        ctx.prove(st, z3.And(has, hit), WHO)
        post(ctx, st, v, ref)
    return Job('_internal::' + op, rf'^remote::_internal::{op}$', crate='remote', setup=setup, monitor=m_table, finish=finish, ghost=dict(TG), extra=SIGNALS,
               expect=(WHO, ERRS, 'the registry stays as it was'))


def one_table(ctx, st, mux, key, present, link, side):
    """the table under mux, locked once, afterwards: key present (with that link) or not, and the rest as before"""
    ts = [t for t in st.ghost['tables'] if ctx.eng.entails(st, t[0] == mux)]
    ctx.prove(st, len(ts) == 1 and ts[0][2] is not None, f'{side}: its table is changed, once')
    if len(ts) != 1 or ts[0][2] is None:
        return
    _, a, b = ts[0]
    ctx.prove(st, b.dom == z3.Store(a.dom, key, z3.BoolVal(present)), f"{side}: the other actor is {'in' if present else 'out of'} it, and the rest stays")
    ctx.prove(st, z3.Store(a.val, key, z3.Select(b.val, key)) == b.val, f'{side}: no other link changes')
    if present:
        ins = [x for x in st.ghost['ins'] if x[3] is not None and ctx.eng.entails(st, x[0] == key)]
        ok = z3.BoolVal(False)
        if ins:
            ok = z3.And(z3.Select(b.val, key) == ins[-1][2], ins[-1][3][1] == link)
        ctx.prove(st, ok, f'{side}: as a remote link, with the type id it is reached by')


def in_link(ctx, st, v, ref):
    ctx.prove(st, len(st.ghost['tables']) == 2 and not st.ghost['sig'], UNTOUCHED)
    one_table(ctx, st, mutex_of(ctx, st, ref), ctx.term(st, ctx.a['sibbling_id']), True, ctx.term(st, lib.text_of(ctx.eng, st, ctx.a['sibbling_remote_id'])), 'the actor')
    ctx.prove(st, is_var(ctx, st, v, 'Ok'), 'it succeeds')


def in_unlink(ctx, st, v, ref):
    ctx.prove(st, len(st.ghost['tables']) == 2 and not st.ghost['sig'], UNTOUCHED)
    one_table(ctx, st, mutex_of(ctx, st, ref), ctx.term(st, ctx.a['sibbling_id']), False, None, 'the actor')
    ctx.prove(st, is_var(ctx, st, v, 'Ok'), 'it succeeds')


def in_died(ctx, st, v, ref):
    g = st.ghost
    ctx.prove(st, len(g['sig']) == 1 and len(g['tables']) == 1, 'the actor is told, once')
    if len(g['sig']) != 1:
        return
    w, i, r = g['sig'][0]
    ctx.prove(st, R.weak_of(ctx, st, w, fld(ctx, st, 'mailbox_sender', ref)), 'through its own mailbox')
    ctx.prove(st, z3.And(ctx.term(st, i) == ctx.term(st, ctx.a['dead_actor_id']), ctx.term(st, r) == ctx.term(st, ctx.a['stop_reason'])), 'who died, and why')
    out = g['out']
    ctx.prove(st, gz(is_ok(ctx, st, v) == is_ok(ctx, st, out)), 'the answer says whether it was told')


# ------------------------------------------------------------------ links of a local actor with one of another node, and of two such
def h_id_eq(eng, st, info):
    """ActorID == (verified in ids.py)"""
    f = eng.F('sameActor', [V, V], z3.BoolSort())
    e = f(lib.cterm(eng, st, info.args[0]), lib.cterm(eng, st, info.args[1]))
    return ret(eng, st, B(z3.Not(e) if info.callee['name'] == 'ne' else e))


IDEQ = [(r'^<actor::id::ActorID as core::cmp::PartialEq>::(eq|ne)$', h_id_eq)]


def s_pair(ctx, st, a):
    ctx.ids = [ctx.term(st, fld(ctx, st, 'id', x)) for x in a[:2]]
    e = ctx.eng.F('sameActor', [V, V], z3.BoolSort())
    ctx.same = z3.Or(e(*ctx.ids), e(ctx.ids[1], ctx.ids[0]))
    ctx.eng.axiom(e(*ctx.ids) == e(ctx.ids[1], ctx.ids[0]))


def m_pair(ctx, st, name, args):
    m_ref(ctx, st, name, args)
    if name != 'swarm_op':
        m_table(ctx, st, name, args)
    else:
        ctx.prove(st, not [t for t in st.ghost['tables'] if t[2] is None], 'nothing is locked while the other node is asked')


def asked(ctx, st, op, pairs):
    """the swarm was asked op for exactly these (actor, sibling, type parameters)"""
    g = st.ghost
    ctx.prove(st, len(g['ops']) == len(pairs) and all(o[0] == op for o in g['ops']), 'each other node is asked, once')
    todo = list(pairs)
    for o, tys in zip(g['ops'], g['types']):
        hit = [p for p in todo if ctx.eng.entails(st, z3.And(ctx.term(st, o[2]) == p[0], ctx.term(st, o[3]) == p[1])) and [t for t in tys if t in ('A', 'B')] == p[2]]
        ctx.prove(st, bool(hit), 'for these two actors, by the ids of their types')
        if hit:
            todo.remove(hit[0])


def nothing(ctx, st):
    return not st.ghost['ops'] and not st.ghost['tables']


def local_remote(op, present):
    def finish(ctx, st, kind, v):
        g, e = st.ghost, ctx.eng
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        if nothing(ctx, st):
            ctx.prove(st, z3.And(ctx.same, is_var(ctx, st, v, 'Ok')), 'only linking with itself does nothing')
            return
        ctx.prove(st, z3.Not(ctx.same), 'an actor is never linked with itself')
        ctx.prove(st, g['held'] == (), 'everything is unlocked')
        link = None
        regs = [t for t in g['tables'] if 'REMOTE_REGISTRY' in str(t[0])]
        if present:
            link = REMOTE_ID(ctx, 1)
            ctx.prove(st, len(regs) == 1, 'the actor can be reached from other nodes')
            if len(regs) == 1 and regs[0][2] is not None:
                _, a, b = regs[0]
                k = ctx.ids[0]
                ctx.prove(st, b.dom == z3.Store(a.dom, k, z3.BoolVal(True)) , 'the actor can be reached from other nodes')
                ctx.prove(st, z3.Store(a.val, k, z3.Select(b.val, k)) == b.val, 'no other registration changes')
                ins = [x for x in g['regins'] if e.entails(st, x[0] == k)]
                ok = z3.BoolVal(False)
                if ins:
                    ok = z3.And(z3.Select(b.val, k) == ins[-1][2], gz(ins[-1][3]))
                ctx.prove(st, ok, 'by a reference to itself, its mailbox and its links')
        else:
            ctx.prove(st, len(regs) == 0, UNTOUCHED)
        ctx.prove(st, len(g['tables']) == len(regs) + 1, UNTOUCHED)
        one_table(ctx, st, mutex_of(ctx, st, ctx.args[0]), ctx.ids[1], present, link, 'the local actor')
        if not g['ops']:
            ctx.prove(st, g['swarm'] is False and gz(is_err(ctx, st, v, 'SwarmNotBootstrapped')), 'without a swarm it says so, and only then')
            return
        asked(ctx, st, op, [(ctx.ids[0], ctx.ids[1], ['A', 'B'] if present else ['B'])])
        ctx.prove(st, g['result'] is not None and gz(teq(ctx, st, v, g['result'])), 'the answer of the swarm is its result')

    def mon(ctx, st, name, args):
        m_pair(ctx, st, name, args)
        if name == 'map_insert' and link_of(ctx, st, args[2]) is None:
            st.ghost['regins'] += ((ctx.term(st, args[0]), args[2], ctx.term(st, args[2]), reg_ok(ctx, st, args[2])),)
    return Job(f'ActorRef::{op}_remote', ARI + op + '_remote$', crate='remote', setup=s_pair, monitor=mon, finish=finish, ghost=dict(TG, **R0, regins=()), extra=OPS + IDEQ,
               expect=('only linking with itself does nothing', 'the answer of the swarm is its result', 'without a swarm it says so, and only then', 'for these two actors, by the ids of their types', 'the local actor: no other link changes'))


def reg_ok(ctx, st, v):
    """condition: the registration holds the actor's own reference, mailbox and links"""
    me = ctx.content(st, ctx.args[0])
    inner = lambda n: (lambda x: st.heap[x.cell] if isinstance(x, BoxV) and x.cell in st.heap else None)(ctx.field(st, v, n))
    ref, mb = inner('actor_ref'), inner('signal_mailbox')
    if ref is None or mb is None:
        return z3.BoolVal(False)
    return z3.And(gz(deep_eq(ctx, st, ref, me)), gz(deep_eq(ctx, st, ctx.field(st, v, 'links'), fld(ctx, st, 'links', me))), R.weak_of(ctx, st, mb, fld(ctx, st, 'mailbox_sender', me)))


def remote_remote(op, types):
    def finish(ctx, st, kind, v):
        g, e = st.ghost, ctx.eng
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        ctx.prove(st, not g['tables'], UNTOUCHED)
        if nothing(ctx, st):
            ctx.prove(st, z3.Or(z3.And(ctx.same, is_var(ctx, st, v, 'Ok')), z3.And(z3.Not(ctx.same), z3.BoolVal(g['swarm'] is False), is_err(ctx, st, v, 'SwarmNotBootstrapped'))), 'only linking with itself, or having no swarm, does nothing')
            return
        ctx.prove(st, z3.Not(ctx.same), 'an actor is never linked with itself')
        asked(ctx, st, op, [(ctx.ids[0], ctx.ids[1], types[0]), (ctx.ids[1], ctx.ids[0], types[1])])
        rs = g['results']
        if e.entails(st, is_var(ctx, st, v, 'Ok')):
            ctx.prove(st, z3.And(len(rs) == 2, *[is_var(ctx, st, r, 'Ok') for r in rs]), 'it succeeds when both nodes did')
        else:
            ctx.prove(st, z3.Or(z3.BoolVal(False), *[z3.And(is_var(ctx, st, r, 'Err'), ctx.term(st, ctx.payload(st, r, 'Err')) == ctx.term(st, ctx.payload(st, v, 'Err'))) for r in rs]), 'a failure is one of theirs')
    return Job(f'RemoteActorRef::{op}_remote', RRI + op + '_remote$', crate='remote', setup=s_pair, monitor=m_pair, finish=finish, ghost=dict(TG, **R0), extra=OPS + IDEQ,
               expect=('it succeeds when both nodes did', 'a failure is one of theirs', 'for these two actors, by the ids of their types', 'only linking with itself, or having no swarm, does nothing'))


JOBS = [
    incoming('link', ('actor_id', 'sibbling_id', 'sibbling_remote_id'), in_link),
    incoming('unlink', ('actor_id', 'sibbling_id'), in_unlink),
    incoming('signal_link_died', ('dead_actor_id', 'notified_actor_id', 'stop_reason'), in_died),
    local_remote('link', True), local_remote('unlink', False),
    remote_remote('link', (['A', 'B'], ['B', 'A'])), remote_remote('unlink', (['B'], ['A'])),
]
