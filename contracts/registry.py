"""The registry of names: a map from names to the actors registered under them."""
from .base import *
from .ids import is_ok

RG = r'^registry::ActorRegistry::'


def refs_map(ctx, st, reg):
    return lib.as_map(ctx.eng, st, ctx.field(st, reg, 'actor_refs'))


def h_into(eng, st, info):
    """Into<Cow<str>> of the caller's name: the same name"""
    r = info.callee.get('res') or {}
    if r.get('key') and 'Cow<' not in ty(eng, info.dest)['s']:
        eng.push_fn(st, r['key'], info.args)
        return [st]
    t = eng.F('nameOf', [V], V)(eng.term(st, info.args[0]))
    return ret(eng, st, Sym(t, info.dest))


EXTRA = [(r'^core::convert::Into::into$', h_into)]


def s_reg(ctx, st, args):
    ctx.m0 = refs_map(ctx, st, args[0])
    if len(args) > 1:
        ctx.key = ctx.cterm(st, args[1])


def unchanged(ctx, st, name='the registry stays as it was'):
    m = refs_map(ctx, st, ctx.args[0])
    ctx.prove(st, z3.And(m.dom == ctx.m0.dom, m.val == ctx.m0.val), name)


def is_ref_of_a(ctx, st, box_t, tid):
    """the stored value is a reference to an actor of the type asked for"""
    e = ctx.eng
    inner = e.F('unbox', [V], V)(box_t)
    return e.F('hasType:' + ctx.P.t(tid)['s'], [V], z3.BoolSort())(inner)


def get_post(ctx, st, v, m, key):
    """result of a lookup in the map m"""
    e = ctx.eng
    has = z3.Select(m.dom, key)
    stored = z3.Select(m.val, key)
    okt = lib.field_tid(e, v.tid, 'Ok')
    want = lib.field_tid(e, okt, 'Some')
    hit = is_ref_of_a(ctx, st, stored, want)
    ctx.prove(st, gz(ctx.is_variant(st, v, 'Err')) == z3.And(has, z3.Not(hit)), 'it is an error exactly when the name belongs to an actor of another type')
    if is_ok(ctx, st, v):
        o = ctx.payload(st, v, 'Ok')
        ctx.prove(st, gz(ctx.is_variant(st, o, 'Some')) == z3.And(has, hit), 'it finds an actor exactly when one of that type is registered under the name')
        if e.entails(st, gz(ctx.is_variant(st, o, 'Some'))):
            r = ctx.payload(st, o, 'Some')
            s = Sym(e.F('unbox', [V], V)(stored), want)
            ctx.prove(st, deep_eq(ctx, st, r, s), 'what it finds is the very actor registered under the name')
    else:
        ctx.prove(st, gz(ctx.is_variant(st, ctx.payload(st, v, 'Err'), 'BadActorType')), 'the error says the type is wrong')


def f_get(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        get_post(ctx, st, v, ctx.m0, ctx.key)
        unchanged(ctx, st)


def f_contains(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(zb(v.e) == z3.Select(ctx.m0.dom, ctx.key)), 'it says whether the name is registered')
    unchanged(ctx, st)


def put_post(ctx, st, m0, m1, key, ref):
    e = ctx.eng
    ctx.prove(st, m1.dom == z3.Store(m0.dom, key, z3.BoolVal(True)), 'the name is registered, no other name appears or vanishes')
    x = z3.Const('any!name', V)
    ctx.prove(st, z3.Implies(x != key, z3.Select(m1.val, x) == z3.Select(m0.val, x)), 'other names keep their actors')
    got = e.F('unbox', [V], V)(z3.Select(m1.val, key))
    ctx.prove(st, deep_eq(ctx, st, Sym(got, ref.tid), ref) if isinstance(ref, (Sym, Agg)) else got == ctx.term(st, ref), 'the name leads to the given actor')


def f_insert(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        key = ctx.eng.F('nameOf', [V], V)(ctx.key)
        put_post(ctx, st, ctx.m0, refs_map(ctx, st, ctx.args[0]), key, ctx.arg2)
        ctx.prove(st, zb(v.e) == z3.Select(ctx.m0.dom, key), 'it says whether the name was taken before')


def s_insert(ctx, st, args):
    s_reg(ctx, st, args)
    ctx.key = ctx.term(st, args[1])
    ctx.arg2 = args[2]


def f_remove(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        m = refs_map(ctx, st, ctx.args[0])
        ctx.prove(st, m.dom == z3.Store(ctx.m0.dom, ctx.key, z3.BoolVal(False)), 'the name is gone, the others stay')
        x = z3.Const('any!name', V)
        ctx.prove(st, z3.Implies(x != ctx.key, z3.Select(m.val, x) == z3.Select(ctx.m0.val, x)), 'other names keep their actors')
        ctx.prove(st, zb(v.e) == z3.Select(ctx.m0.dom, ctx.key), 'it says whether the name was registered')


def f_clear(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    ctx.prove(st, refs_map(ctx, st, ctx.args[0]).dom == z3.K(V, z3.BoolVal(False)), 'no name is left')


def f_empty(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, refs_map(ctx, st, v).dom == z3.K(V, z3.BoolVal(False)), 'it starts without names')


def f_len(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        ctx.prove(st, zi(v.e) == ctx.eng.F('card', [DomV], z3.IntSort())(ctx.m0.dom), 'it is the number of registered names')
        unchanged(ctx, st)


def f_isempty(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(zb(v.e) == (ctx.m0.dom == z3.K(V, z3.BoolVal(False)))), 'it says whether no name is registered')
    unchanged(ctx, st)


def f_names(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and isinstance(v, Obj) and v.kind == 'MapIter' and v.mode == 'keys', 'it iterates the names')
    if kind == 'ret' and isinstance(v, Obj) and v.kind == 'MapIter':
        ctx.prove(st, v.dom == ctx.m0.dom, 'exactly the registered ones')
    unchanged(ctx, st)


# ------------------------------------------------------------------------------ the process-wide registry
def m_global(ctx, st, name, args):
    g = st.ghost
    if name == 'lock':
        g['locks'] += 1
        g['at_lock'] = refs_map(ctx, st, args[1])
        g['global'] = ctx.term(st, args[0])
    elif name == 'unlock':
        g['at_unlock'] = refs_map(ctx, st, args[1])


def the_registry(ctx, st):
    """the locked mutex is the one behind the process-wide registry"""
    g = st.ghost['global']
    return 'lazyVal' in str(g)


def f_register(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    g = st.ghost
    ctx.prove(st, g['locks'] == 1 and the_registry(ctx, st), 'it works on the registry of this process, under its lock, once')
    if g['at_unlock'] is None:
        ctx.prove(st, False, 'the lock is released')
        return
    ctx.prove(st, gz(ctx.is_variant(st, v, 'Ok')), 'it succeeds')
    key = ctx.eng.F('nameOf', [V], V)(ctx.key)
    put_post(ctx, st, g['at_lock'], g['at_unlock'], key, ctx.content(st, ctx.args[0]))


def s_register(ctx, st, args):
    ctx.key = ctx.term(st, args[1])


def f_lookup(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    g = st.ghost
    ctx.prove(st, g['locks'] == 1 and the_registry(ctx, st), 'it looks into the registry of this process, under its lock, once')
    if g['at_unlock'] is None:
        ctx.prove(st, False, 'the lock is released')
        return
    get_post(ctx, st, v, g['at_lock'], ctx.key)
    ctx.prove(st, z3.And(g['at_unlock'].dom == g['at_lock'].dom, g['at_unlock'].val == g['at_lock'].val), 'the registry stays as it was')


def s_lookup(ctx, st, args):
    ctx.key = ctx.cterm(st, args[0])


G0 = {'locks': 0, 'at_lock': None, 'at_unlock': None, 'global': None}
JOBS = [
    Job('ActorRegistry::get', RG + 'get$', s_reg, finish=f_get, extra=EXTRA),
    Job('ActorRegistry::contains_name', RG + 'contains_name$', s_reg, finish=f_contains, extra=EXTRA),
    Job('ActorRegistry::insert', RG + 'insert$', s_insert, finish=f_insert, extra=EXTRA),
    Job('ActorRegistry::remove', RG + 'remove$', s_reg, finish=f_remove, extra=EXTRA),
    Job('ActorRegistry::clear', RG + 'clear$', s_reg, finish=f_clear, extra=EXTRA),
    Job('ActorRegistry::len', RG + 'len$', s_reg, finish=f_len, extra=EXTRA),
    Job('ActorRegistry::is_empty', RG + 'is_empty$', s_reg, finish=f_isempty, extra=EXTRA),
    Job('ActorRegistry::names', RG + 'names$', s_reg, finish=f_names, extra=EXTRA),
    Job('ActorRegistry::new', RG + 'new$', finish=f_empty, extra=EXTRA),
    Job('ActorRegistry::with_capacity', RG + 'with_capacity$', finish=f_empty, extra=EXTRA),
    Job('ActorRegistry::default', r'^<registry::ActorRegistry as core::default::Default>::default$', finish=f_empty, extra=EXTRA),
    Job('ActorRef::register', r'^actor::actor_ref::ActorRef::<A>::register$', s_register, m_global, f_register, EXTRA, ghost=G0),
    Job('ActorRef::lookup', r'^actor::actor_ref::ActorRef::<A>::lookup$', s_lookup, m_global, f_lookup, EXTRA, ghost=G0),
]
