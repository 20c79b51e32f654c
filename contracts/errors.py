"""Errors: conversions keep the kind and the payload; a PanicError holds the very payload."""
from .base import *

SE = r'^error::SendError::<M, E>::'
PE = r'^error::PanicError::'


# ---- calls of a caller's closure: event user_call(closure, args, result)
def user_calls(eng, ctx):
    def call(eng, st, fv, args):
        r = Sym(eng.fresh('closure_result'), None)
        eng.emit(st, 'user_call', fv, list(args), r)
        return ret(eng, st, r)
    eng.on_sym_call = call


def m_calls(ctx, st, name, args):
    if name == 'user_call':
        st.ghost['calls'] += ((ctx.term(st, args[0]), args[1], ctx.term(st, args[2])),)


VARIANTS = ('ActorNotRunning', 'ActorStopped', 'MailboxFull', 'HandlerError', 'Timeout')


def variant_of(ctx, st, v):
    """name of the variant of an enum value (known in every final state)"""
    v = ctx.content(st, v)
    if isinstance(v, Agg):
        return ctx.P.t(v.tid)['variants'][v.variant]['name'] if v.tid is not None else None
    for x in ctx.P.t(v.tid)['variants']:
        if ctx.eng.entails(st, gz(ctx.is_variant(st, v, x['name']))):
            return x['name']
    return None


def convert(name, root, msg='same', err='same', **kw):
    """the result is of the same kind as the argument; message and handler error are kept / mapped once / boxed"""
    def setup(ctx, st, args):
        ctx.arg = args[0]
        ctx.fn = ctx.term(st, args[1]) if len(args) > 1 else None
        st.ghost['calls'] = ()

    def finish(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        n = variant_of(ctx, st, v)
        ctx.prove(st, n is not None and gz(ctx.is_variant(st, ctx.arg, n)), 'the result is of the same kind')
        calls = 0
        if n is None:
            return
        fields = [x for x in ctx.P.t(v.tid)['variants'] if x['name'] == n][0]['fields']
        if n == 'Timeout':
            a, r = ctx.payload(st, ctx.arg, n), ctx.payload(st, v, n)
            m = variant_of(ctx, st, r)
            if m is None:
                ctx.prove(st, deep_eq(ctx, st, a, r) if msg == 'same' else False, 'the message is kept, and what is converted is converted once')
            else:
                ctx.prove(st, gz(ctx.is_variant(st, a, m)), 'a timeout has a message exactly when it had one')
                if m == 'Some':
                    calls = part(ctx, st, msg, ctx.payload(st, a, 'Some'), ctx.payload(st, r, 'Some'))
        else:
            for i in range(len(fields)):
                how = err if n == 'HandlerError' else msg if n in ('ActorNotRunning', 'MailboxFull') else 'same'
                calls += part(ctx, st, how, ctx.payload(st, ctx.arg, n, i), ctx.payload(st, v, n, i))
        ctx.prove(st, len(g['calls']) == calls, 'nothing else is passed to the closure')
    return Job(name, root, setup=setup, monitor=m_calls, finish=finish, config=user_calls, expect=('the result is of the same kind',), **kw)


def part(ctx, st, how, a, r):
    g = st.ghost
    what = 'the message is kept, and what is converted is converted once'
    if how == 'same':
        ctx.prove(st, deep_eq(ctx, st, a, r), what)
        return 0
    if how == 'box':
        b = ctx.content(st, r)
        ctx.prove(st, isinstance(b, BoxV) and deep_eq(ctx, st, a, st.heap[b.cell]), what)
        return 0
    ok = len(g['calls']) == 1 and g['calls'][0][0].eq(ctx.fn) and len(g['calls'][0][1]) == 1
    ctx.prove(st, z3.And(deep_eq(ctx, st, g['calls'][0][1][0], a), gz(ctx.eq(st, g['calls'][0][2], r))) if ok else False, what)
    return 1


def unwrap(name, root, kinds):
    """gives the payload, panics exactly when there is none"""
    def setup(ctx, st, args):
        ctx.arg = args[0]

    def finish(ctx, st, kind, v):
        has = []
        for n in kinds:
            c = gz(ctx.is_variant(st, ctx.arg, n))
            p = ctx.eng.field_of(st, ctx.arg, [i for i, x in enumerate(ctx.P.t(ctx.arg.tid)['variants']) if x['name'] == n][0], 0,
                                 [x for x in ctx.P.t(ctx.arg.tid)['variants'] if x['name'] == n][0]['fields'][0][1])
            if n == 'Timeout':
                c = z3.And(c, gz(ctx.is_variant(st, p, 'Some')))
                p = ctx.eng.field_of(st, p, 1, 0, field_tid(ctx.eng, p.tid, 'Some'))
            has.append((c, p))
        if kind == 'ret':
            ctx.prove(st, z3.Or(*[z3.And(c, deep_eq(ctx, st, p, v)) for c, p in has]), 'it is the payload')
        else:
            ctx.prove(st, z3.Not(z3.Or(*[c for c, _ in has])), 'panics only if there is none')
    return Job(name, root, setup=setup, finish=finish, expect=('it is the payload', 'panics only if there is none'))


def setup_arg(ctx, st, args):
    ctx.arg = args[0]
    st.ghost['calls'] = ()


def f_reset(ctx, st, kind, v):
    if kind == 'panic':
        ctx.prove(st, gz(ctx.is_variant(st, ctx.arg, 'HandlerError')), 'panics only for a handler error')
        return
    n = variant_of(ctx, st, v)
    ctx.prove(st, n is not None and n != 'HandlerError' and gz(ctx.is_variant(st, ctx.arg, n)), 'the result is of the same kind')
    if n in ('ActorNotRunning', 'MailboxFull', 'Timeout'):
        ctx.prove(st, deep_eq(ctx, st, ctx.payload(st, ctx.arg, n), ctx.payload(st, v, n)), 'the message is kept')


def from_channel(name, root, table, wrap=False):
    """table: channel error variant (None: a struct) -> SendError variant; the message is the one inside"""
    def finish(ctx, st, kind, v):
        if kind != 'ret':
            ctx.prove(st, z3.Not(z3.Or(*[holds_msg(ctx, st, k) for k in table])) if wrap else False, 'panics only if what was refused is no message of that type')
            return
        n = variant_of(ctx, st, v)
        src = [k for k, w in table.items() if w == n]
        ctx.prove(st, len(src) == 1, 'the kind is one the channel error maps to')
        if len(src) != 1:
            return
        if src[0] is not None:
            ctx.prove(st, gz(ctx.is_variant(st, ctx.arg, src[0])), 'full, closed and timed out are kept apart')
        sig = inside(ctx, st, src[0])
        m = ctx.payload(st, v, n)
        if n == 'Timeout':
            ctx.prove(st, gz(ctx.is_variant(st, m, 'Some')), 'with the message')
            m = ctx.payload(st, m, 'Some')
        if wrap:
            box = message_box(ctx, st, sig)
            ctx.prove(st, gz(ctx.is_variant(st, sig, 'Message')), 'the signal was a message')
            ctx.prove(st, gz(ctx.eq(st, ctx.eng.F('unbox', [V], V)(ctx.term(st, box)), m)), 'the very message comes back')
        else:
            ctx.prove(st, deep_eq(ctx, st, sig, m), 'the very message comes back')
    return Job(name, root, setup=setup_arg, finish=finish, expect=('the very message comes back',))


def inside(ctx, st, variant):
    """the signal inside a channel error"""
    vs = ctx.P.t(ctx.arg.tid)['variants']
    vi = 0 if variant is None else [i for i, x in enumerate(vs) if x['name'] == variant][0]
    return ctx.eng.field_of(st, ctx.arg, None if variant is None else vi, 0, vs[vi]['fields'][0][1])


def message_box(ctx, st, sig):
    t = ctx.P.t(sig.tid)
    vi = [i for i, x in enumerate(t['variants']) if x['name'] == 'Message'][0]
    fi = [i for i, f in enumerate(t['variants'][vi]['fields']) if f[0] == 'message'][0]
    return ctx.eng.field_of(st, sig, vi, fi, t['variants'][vi]['fields'][fi][1])


def holds_msg(ctx, st, variant):
    """condition: the channel error is of that variant and holds a message of type M"""
    sig = inside(ctx, st, variant)
    return z3.And(gz(ctx.is_variant(st, ctx.arg, variant)) if variant else z3.BoolVal(True), gz(ctx.is_variant(st, sig, 'Message')),
                  ctx.eng.F('hasType:M', [V], z3.BoolSort())(ctx.term(st, message_box(ctx, st, sig))))


def f_stopped(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'ActorStopped')), 'a dropped reply slot means the actor stopped')


def f_elapsed(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.is_variant(st, v, 'Timeout')), 'a timeout')
    if kind == 'ret':
        ctx.prove(st, gz(ctx.is_variant(st, ctx.payload(st, v, 'Timeout'), 'None')), 'without the message')


# ---- flatten: SendError<M, SendError<M, E>> and the remote one
def f_flatten(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    n = variant_of(ctx, st, v)
    t = ctx.P.t(ctx.arg.tid)
    hi = [i for i, x in enumerate(t['variants']) if x['name'] == 'HandlerError'][0]
    nested = ctx.eng.field_of(st, ctx.arg, hi, 0, t['variants'][hi]['fields'][0][1])
    if n is None:
        # not looked into: then it is what was inside, as it was
        ctx.prove(st, z3.And(gz(ctx.is_variant(st, ctx.arg, 'HandlerError')), deep_eq(ctx, st, nested, v)), 'the kind is determined')
        return
    outer = gz(ctx.is_variant(st, ctx.arg, n))
    inner = z3.And(gz(ctx.is_variant(st, ctx.arg, 'HandlerError')), gz(ctx.is_variant(st, nested, n)))
    vi = [i for i, x in enumerate(t['variants']) if x['name'] == n][0]

    def same(src):
        fs = ctx.P.t(src.tid)['variants'][vi]['fields']
        return z3.And(*[deep_eq(ctx, st, ctx.eng.field_of(st, src, vi, i, ft), ctx.payload(st, v, n, i)) for i, (_, ft) in enumerate(fs)]) if fs else z3.BoolVal(True)
    if n == 'HandlerError':
        ctx.prove(st, z3.And(inner, same(nested)), 'the innermost error is kept')
    else:
        ctx.prove(st, z3.Or(z3.And(outer, same(ctx.arg)), z3.And(inner, same(nested))), 'the innermost error is kept')


# ---- boxed errors back to typed ones
def f_try_downcast(ctx, st, kind, v):
    """Ok: same kind, and the payload is what is in the box; Err: the argument itself, and only if the box holds another type"""
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        downcasted(ctx, st, v, True)


def downcasted(ctx, st, v, tries):
    ok = ctx.is_variant(st, v, 'Ok') if tries else True
    ok = ok is True
    e = (ctx.payload(st, v, 'Ok' if ok else 'Err')) if tries else v
    n = variant_of(ctx, st, e)
    ctx.prove(st, n is not None and gz(ctx.is_variant(st, ctx.arg, n)), 'the result is of the same kind')
    if n is None or n == 'ActorStopped':
        ctx.prove(st, ok, 'an error without payload is of any type')
        return
    a, r = ctx.payload(st, ctx.arg, n), ctx.payload(st, e, n)
    if n == 'Timeout':
        m = variant_of(ctx, st, r)
        ctx.prove(st, m is not None and gz(ctx.is_variant(st, a, m)), 'a timeout has a message exactly when it had one')
        if m != 'Some':
            ctx.prove(st, ok, 'an error without payload is of any type')
            return
        a, r = ctx.payload(st, a, 'Some'), ctx.payload(st, r, 'Some')
    want = 'E' if n == 'HandlerError' else 'M'
    has = ctx.eng.F('hasType:' + want, [V], z3.BoolSort())(ctx.term(st, a))
    if ok:
        ctx.prove(st, has, 'typed only if the box holds that type')
        ctx.prove(st, gz(ctx.eq(st, ctx.eng.F('unbox', [V], V)(ctx.term(st, a)), r)), 'the payload is what is in the box')
    else:
        ctx.prove(st, z3.Not(has), 'refused only if the box holds another type')
        ctx.prove(st, gz(ctx.eq(st, a, r)), 'the box comes back')


def f_downcast(ctx, st, kind, v):
    if kind == 'ret':
        downcasted(ctx, st, v, False)
        return
    t = lambda n: ctx.eng.F('hasType:' + n, [V], z3.BoolSort())
    cs = []
    for n in VARIANTS:
        if n == 'ActorStopped':
            continue
        vi = VARIANTS.index(n)
        a = ctx.eng.field_of(st, ctx.arg, vi, 0, ctx.P.t(ctx.arg.tid)['variants'][vi]['fields'][0][1])
        c = gz(ctx.is_variant(st, ctx.arg, n))
        if n == 'Timeout':
            c = z3.And(c, gz(ctx.is_variant(st, a, 'Some')))
            a = ctx.eng.field_of(st, a, 1, 0, field_tid(ctx.eng, a.tid, 'Some'))
        cs.append(z3.And(c, z3.Not(t('E' if n == 'HandlerError' else 'M')(ctx.term(st, a)))))
    ctx.prove(st, z3.Or(*cs), 'panics only if the box holds another type')


# ---- PanicError
def h_lock(eng, st, info, poisoned=None):
    """lock of the panic error's mutex: its content never changes (nothing hands it out mutably: the monitor checks every unlock); a
    closure that panicked under the lock has poisoned it"""
    m = content(eng, st, info.args[0])
    if isinstance(m, Agg):
        v = m.fields[0]
    else:
        tid = [x for x in ty(eng, m.tid)['args'] if isinstance(x, int)][0]
        v = eng.sym(st, eng.F('mutexContent', [V], V)(m.t), tid)
    c = eng.alloc(st, v)
    g = lambda: lib.Obj('Guard', mutex=m, cell=c, t=eng.fresh('guard'))
    st.ghost['locked'] = st.ghost.get('locked', ()) + ((c, eng.term(st, v)),)
    s2 = st.fork()
    return ret(eng, st, variant(eng, info.dest, 'Ok', g())) + ret(eng, s2, poisoned(g()) if poisoned else variant(eng, info.dest, 'Err', Agg('std::sync::poison::PoisonError', 0, [g()])))


def h_try_lock(eng, st, info):
    """try_lock: as lock, or somebody else holds it just now"""
    s3 = st.fork()
    err = field_tid(eng, info.dest, 'Err')
    out = h_lock(eng, st, info, lambda g: variant(eng, info.dest, 'Err', variant(eng, err, 'Poisoned', Agg('std::sync::poison::PoisonError', 0, [g]))))
    return out + ret(eng, s3, variant(eng, info.dest, 'Err', variant(eng, err, 'WouldBlock')))


def h_get_ref(eng, st, info):
    """PoisonError::get_ref: the guard"""
    c, p = eng.deref(st, info.args[0])
    return ret(eng, st, Ref(c, tuple(p) + (('f', None, 0, None),)))


MUTEX = [(r'^std::sync::poison::mutex::Mutex::<T>::lock$', h_lock), (r'^std::sync::poison::mutex::Mutex::<T>::try_lock$', h_try_lock), (r'^std::sync::poison::PoisonError::<T>::get_ref$', h_get_ref)]


def setup_pe(ctx, st, args):
    """the error inside: a box of some dynamic type"""
    st.ghost['calls'] = ()
    pe = ctx.content(st, args[0])
    m = arc_content(ctx, st, ctx.eng.field_of(st, pe, None, 0, ctx.P.t(pe.tid)['variants'][0]['fields'][0][1]))
    ctx.inner = ctx.eng.F('mutexContent', [V], V)(ctx.eng.term(st, m))
    ctx.fn = ctx.term(st, args[1]) if len(args) > 1 else None


def m_pe(ctx, st, name, args):
    m_calls(ctx, st, name, args)
    if name == 'unlock':
        for c, t in st.ghost.get('locked', ()):
            ctx.prove(st, gz(ctx.eq(st, t, st.heap[c])), 'the error inside is left unchanged')


def has_type(ctx, t, s):
    return ctx.eng.F('hasType:' + s, [V], z3.BoolSort())(t)


def f_with(ctx, st, kind, v):
    g = st.ghost
    ok = kind == 'ret' and len(g['calls']) == 1 and g['calls'][0][0].eq(ctx.fn)
    ctx.prove(st, z3.And(gz(ctx.eq(st, ctx.content(st, g['calls'][0][1][0]), ctx.inner)), gz(ctx.eq(st, v, g['calls'][0][2]))) if ok else False,
              'the closure is called once with the error inside, and its result returned')


def f_typed(want):
    def finish(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        some_ = ctx.is_variant(st, v, 'Some')
        inner = ctx.eng.F('unbox', [V], V)(ctx.inner)
        cond = z3.Or(*[has_type(ctx, inner, w) for w in want])
        ctx.prove(st, cond == gz(some_), 'Some exactly if the error inside is of that type')
        if some_ is True:
            ok = len(g['calls']) == 1 and g['calls'][0][0].eq(ctx.fn)
            ctx.prove(st, ok, 'the closure is called once')
            if ok:
                x = g['calls'][0][1][0]
                ctx.prove(st, z3.Or(gz(ctx.eq(st, x, inner)), gz(ctx.eq(st, ctx.cterm(st, x), inner)), gz(ctx.eq(st, ctx.cterm(st, x), ctx.eng.F('deref', [V], V)(inner)))), 'with the very error inside')
                ctx.prove(st, gz(ctx.eq(st, ctx.payload(st, v, 'Some'), g['calls'][0][2])), 'and its result returned')
        else:
            ctx.prove(st, not g['calls'], 'the closure is not called otherwise')
    return finish


def f_pe_downcast(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    some_ = gz(ctx.is_variant(st, v, 'Some'))
    inner = ctx.eng.F('unbox', [V], V)(ctx.inner)
    ctx.prove(st, has_type(ctx, inner, 'T') == some_, 'Some exactly if the error inside is of that type')
    if ctx.eng.entails(st, some_):
        ctx.prove(st, gz(ctx.eq(st, ctx.payload(st, v, 'Some'), inner)), 'it is (a clone of) the very error inside')


# ------------------------------------------------------------------ the error hook: a word of shared memory holding the function
def m_hook(ctx, st, name, args):
    g = st.ghost
    m_calls(ctx, st, name, args)
    if name in ('atomic_store', 'atomic_swap'):
        g['stored'] += ((ctx.term(st, args[0]), ctx.term(st, args[1])),)
    elif name == 'atomic_load':
        g['loaded'] += (ctx.term(st, args[0]),)
    elif name == 'atomic_result':
        g['word'] = ctx.term(st, args[0])
    elif name.startswith('atomic_'):
        raise Unsupported('another way to keep the hook')


def one_hook(t):
    """the two functions use the same static"""
    return z3.is_app(t) and 'static:' in str(t)


def s_hook(ctx, st, args):
    ctx.arg = ctx.term(st, args[0])


def f_set_hook(ctx, st, kind, v):
    s = st.ghost['stored']
    ctx.prove(st, kind == 'ret' and len(s) == 1 and one_hook(s[0][0]) and s[0][1] == ctx.arg if len(s) == 1 else False, 'the hook given is the hook from now on')


def f_run_hook(ctx, st, kind, v):
    g = st.ghost
    c = g['calls']
    ok = kind == 'ret' and len(c) == 1 and len(g['loaded']) == 1 and one_hook(g['loaded'][0]) and not g['stored']
    ctx.prove(st, z3.And(c[0][0] == g['word'], gz(ctx.eq(st, ctx.cterm(st, c[0][1][0]), ctx.cterm(st, ctx.args[0])))) if ok else False, 'the hook which is set is called, once, with the error')


HOOKG = {'calls': (), 'stored': (), 'loaded': (), 'word': None}


def f_pe_new(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        m = arc_content(ctx, st, v.fields[0])
        ctx.prove(st, gz(ctx.eq(st, m.fields[0], ctx.arg)), 'it holds the error given')


def f_pe_any(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    b = arc_content(ctx, st, v.fields[0]).fields[0]
    ok = isinstance(b, BoxV)
    ctx.prove(st, ok, 'it holds a boxed error')
    if not ok:
        return
    x, t = st.heap[b.cell], ctx.term(st, ctx.arg)
    un = ctx.eng.F('unbox', [V], V)(t)
    lit, own = has_type(ctx, t, LIT), has_type(ctx, t, OWN)
    if b.dyn == LIT:
        ctx.prove(st, z3.And(lit, gz(ctx.eq(st, un, x))), 'a string literal stays the string it was')
    elif b.dyn == OWN:
        ctx.prove(st, z3.And(own, z3.Not(lit), gz(ctx.eq(st, un, x))), 'a formatted message stays the string it was')
    else:
        ctx.prove(st, z3.And(z3.Not(lit), z3.Not(own), gz(ctx.eq(st, t, x))), 'any other payload is kept as it is')


LIT, OWN = '&str', 'std::string::String'


# ---- across the network a PanicError is its text
def h_text(eng, st, info):
    return ret(eng, st, Sym(eng.F('text', [V], V)(lib.cterm(eng, st, info.args[0])), info.dest))


def h_write_str(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'serialized')
    eng.emit(st, 'wrote', lib.text_of(eng, st, lib.content(eng, st, info.args[1])), r)
    return ret(eng, st, r)


def h_read_string(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'deserialized')
    eng.emit(st, 'read', r)
    return ret(eng, st, r)


TEXT = [(r'alloc::string::ToString>::to_string$', h_text), (r'ser::Serializer::serialize_str$', h_write_str),
        (r"Deserialize<'de> for alloc::string::String>::deserialize$", h_read_string)]


def m_text(ctx, st, name, args):
    if name == 'wrote':
        st.ghost['serde'] += ((ctx.term(st, args[0]), ctx.term(st, args[1])),)
    elif name == 'read':
        st.ghost['serde'] += (args[0],)


def f_pe_ser(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    w = st.ghost['serde']
    if kind == 'ret':
        ok = len(w) == 1
        ctx.prove(st, z3.And(w[0][0] == ctx.eng.F('text', [V], V)(ctx.cterm(st, ctx.args[0])), gz(ctx.eq(st, v, w[0][1]))) if ok else False,
                  'what is written is the text of the error, once, and the outcome is the outcome of that')


def f_pe_de(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'no input makes it panic')
    d = st.ghost['serde']
    if kind != 'ret' or len(d) != 1:
        ctx.prove(st, False, 'the text is read once')
        return
    d = d[0]
    ctx.prove(st, gz(ctx.is_variant(st, v, 'Ok')) == gz(ctx.is_variant(st, d, 'Ok')), 'it succeeds exactly if the text can be read')
    if ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Ok'))):
        b = arc_content(ctx, st, ctx.payload(st, v, 'Ok').fields[0]).fields[0]
        ok = isinstance(b, BoxV) and b.dyn == OWN
        ctx.prove(st, gz(ctx.eq(st, st.heap[b.cell], ctx.payload(st, d, 'Ok'))) if ok else False, 'the error holds the text which was read, as a string')
    elif ctx.eng.entails(st, gz(ctx.is_variant(st, v, 'Err'))):
        ctx.prove(st, gz(ctx.eq(st, ctx.payload(st, v, 'Err'), ctx.payload(st, d, 'Err'))), 'the reason it cannot be read is handed on')


# ---- the remote forms
def f_remote_from(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    n = variant_of(ctx, st, v)
    want = {'ActorNotRunning': 'ActorNotRunning', 'ActorStopped': 'ActorStopped', 'MailboxFull': 'MailboxFull', 'HandlerError': 'HandlerError', 'ReplyTimeout': 'Timeout'}
    ctx.prove(st, n in want and gz(ctx.is_variant(st, ctx.arg, want[n])), 'the kind is kept')
    if n == 'HandlerError':
        ctx.prove(st, deep_eq(ctx, st, ctx.payload(st, ctx.arg, n), ctx.payload(st, v, n)), 'a handler error is kept')


BSE = r'^error::SendError::<alloc::boxed::Box<\(dyn core::any::Any.*>::'
FROM = r'^<error::SendError<M, E> as core::convert::From<tokio::sync::'
JOBS = [
    convert('map_msg', SE + r'map_msg$', msg='map'),
    convert('map_err', SE + r'map_err$', err='map'),
    convert('boxed', SE + r'boxed$', msg='box', err='box'),
    unwrap('unwrap_msg', SE + r'unwrap_msg$', ('ActorNotRunning', 'MailboxFull', 'Timeout')),
    unwrap('unwrap_err', SE + r'unwrap_err$', ('HandlerError',)),
    Job('reset_err_infallible', SE + r'reset_err_infallible$', setup=setup_arg, finish=f_reset, expect=('the result is of the same kind',)),
    from_channel('from_send', r'^error::SendError::<S, E>::from_send$', {None: 'ActorNotRunning'}),
    from_channel('from_try_send', r'^error::SendError::<S, E>::from_try_send$', {'Full': 'MailboxFull', 'Closed': 'ActorNotRunning'}),
    from_channel('from_send_timeout', r'^error::SendError::<S, E>::from_send_timeout$', {'Timeout': 'Timeout', 'Closed': 'ActorNotRunning'}),
    from_channel('From<SendError>', FROM + r'mpsc::error::SendError<.*>::from$', {None: 'ActorNotRunning'}, True),
    from_channel('From<TrySendError>', FROM + r'mpsc::error::TrySendError<.*>::from$', {'Full': 'MailboxFull', 'Closed': 'ActorNotRunning'}, True),
    from_channel('From<SendTimeoutError>', FROM + r'mpsc::error::SendTimeoutError<.*>::from$', {'Timeout': 'Timeout', 'Closed': 'ActorNotRunning'}, True),
    Job('From<RecvError>', FROM + r'oneshot::error::RecvError>>::from$', finish=f_stopped),
    Job('From<Elapsed>', r'^<error::SendError<M, E> as core::convert::From<tokio::time::error::Elapsed>>::from$', finish=f_elapsed),
    Job('flatten', r'^error::SendError::<M, error::SendError<M, E>>::flatten$', setup=setup_arg, finish=f_flatten, expect=('the innermost error is kept',)),
    Job('try_downcast', BSE + r'try_downcast$', setup=setup_arg, finish=f_try_downcast,
        expect=('the payload is what is in the box', 'the box comes back')),
    Job('downcast', BSE + r'downcast$', setup=setup_arg, finish=f_downcast, expect=('the payload is what is in the box', 'panics only if the box holds another type')),
    Job('PanicError::new', PE + r'new$', setup=setup_arg, finish=f_pe_new),
    Job('PanicError::new_from_panic_any', PE + r'new_from_panic_any$', setup=setup_arg, finish=f_pe_any,
        expect=('a string literal stays the string it was', 'a formatted message stays the string it was', 'any other payload is kept as it is')),
    Job('PanicError::with', PE + r'with$', setup=setup_pe, monitor=m_pe, finish=f_with, extra=MUTEX, config=user_calls),
    Job('PanicError::with_downcast_ref', PE + r'with_downcast_ref$', setup=setup_pe, monitor=m_pe, finish=f_typed(['T']), extra=MUTEX, config=user_calls,
        expect=('and its result returned', 'the closure is not called otherwise')),
    Job('set_actor_error_hook', r'^error::set_actor_error_hook$', setup=s_hook, monitor=m_hook, finish=f_set_hook, ghost=HOOKG, expect=('the hook given is the hook from now on',)),
    Job('invoke_actor_error_hook', r'^error::invoke_actor_error_hook$', setup=s_hook, monitor=m_hook, finish=f_run_hook, ghost=HOOKG, config=user_calls, expect=('the hook which is set is called, once, with the error',)),
    Job('PanicError::downcast', PE + r'downcast$', setup=setup_pe, monitor=m_pe, finish=f_pe_downcast, extra=MUTEX, config=user_calls,
        expect=('it is (a clone of) the very error inside',)),
    Job('PanicError::with_str', PE + r'with_str$', setup=setup_pe, monitor=m_pe, finish=f_typed([LIT, OWN]), extra=MUTEX, config=user_calls,
        expect=('and its result returned', 'the closure is not called otherwise')),
    Job('PanicError::serialize', r'^<error::PanicError as serde_core::ser::Serialize>::serialize$', monitor=m_text, finish=f_pe_ser, extra=TEXT, ghost={'serde': ()},
        expect=('what is written is the text of the error, once, and the outcome is the outcome of that',)),
    Job('PanicError::deserialize', r"^<error::PanicError as serde_core::de::Deserialize<'de>>::deserialize$", monitor=m_text, finish=f_pe_de, extra=TEXT, ghost={'serde': ()},
        expect=('the error holds the text which was read, as a string', 'the reason it cannot be read is handed on')),
    convert('RemoteSendError::map_err', r'^error::RemoteSendError::<E>::map_err$', err='map', crate='remote'),
    Job('RemoteSendError::flatten', r'^error::RemoteSendError::<error::RemoteSendError<E>>::flatten$', setup=setup_arg, finish=f_flatten, crate='remote',
        expect=('the innermost error is kept',)),
    Job('RemoteSendError::from', r'^<error::RemoteSendError<E> as core::convert::From<error::SendError<M, E>>>::from$', setup=setup_arg, finish=f_remote_from, crate='remote',
        expect=('a handler error is kept',)),
]
