"""Contracts on the libraries kameo is built on (std, tokio, futures, once_cell, ...).

These are ASSUMED, never checked (they are reported as trusted contracts in the evidence).  Each one says what
the call returns for the abstract state of its receiver and which event it adds to the path's history.
"""
import re
import z3
from .engine import *

TABLE = []          # (compiled regex, handler, doc)


def contract(*pats, doc=''):
    def deco(f):
        for p in pats:
            TABLE.append((re.compile(p), f, doc or (f.__doc__ or '').strip()))
        return f
    return deco


# ------------------------------------------------------------------------------ helpers
def ty(eng, tid):
    return eng.P.t(tid)


def content(eng, st, v):
    """the value behind (possibly nested) references"""
    n = 0
    while n < 8:
        n += 1
        if isinstance(v, Ref):
            v = eng.load(st, v.cell, v.path)
        elif isinstance(v, Sym) and v.tid is not None and ty(eng, v.tid)['k'] in ('ref', 'ptr'):
            c, p = eng.deref(st, v)
            v = eng.load(st, c, p)
        elif isinstance(v, Agg) and v.path.endswith('pin::Pin'):
            v = v.fields[0]
        else:
            return v
    return v


def cterm(eng, st, v):
    return eng.term(st, content(eng, st, v))


def variant(eng, tid, name, *fields):
    t = ty(eng, tid)
    for i, v in enumerate(t['variants']):
        if v['name'] == name:
            return Agg(t['path'], i, list(fields), tid)
    raise Unsupported(f'{t["s"]} has no variant {name}')


def field_tid(eng, tid, name, i=0):
    for v in ty(eng, tid)['variants']:
        if v['name'] == name:
            return v['fields'][i][1]
    raise Unsupported('no variant ' + name)


def newtype(eng, tid, *fields):
    return Agg(ty(eng, tid)['path'], 0, list(fields), tid)


def some(eng, tid, v):
    return variant(eng, tid, 'Some', v)


def none(eng, tid):
    return variant(eng, tid, 'None')


def ret(eng, st, v):
    return eng.deliver(st, 'ret', v)


def choose(st, n):
    return [st] + [st.fork() for _ in range(n - 1)]


def location(eng, st, v):
    """(cell, path) a pointer points at, looking through references to boxes/pins"""
    return eng.deref(st, v)


def arg_list(st, info):
    return list(info.args)


# ------------------------------------------------------------------------------ seq / map views
def as_seq(eng, st, v, etid=None):
    if isinstance(v, Obj) and v.kind == 'Seq':
        return v
    if isinstance(v, Agg) and v.path == 'array':
        s = z3.Empty(SeqV)
        ts = [z3.Unit(eng.term(st, f)) for f in v.fields]
        s = z3.Concat(*ts) if len(ts) > 1 else (ts[0] if ts else s)
        return Obj('Seq', seq=s, etid=etid, tid=None)
    if isinstance(v, Sym):
        e = etid
        if v.tid is not None:
            t = ty(eng, v.tid)
            if t['k'] in ('slice', 'array'):
                e = t['elem']
            elif t['k'] == 'adt' and t['args']:
                e = t['args'][0]
        q = eng.F('seqOf', [V], SeqV)(v.t)
        eng.axiom(z3.Length(q) < 2 ** 63)
        return Obj('Seq', seq=q, etid=e, tid=v.tid)
    raise Unsupported(f'not a sequence: {v!r}'[:100])


def as_map(eng, st, v):
    if isinstance(v, Obj) and v.kind == 'Map':
        return v
    if isinstance(v, Sym) and v.tid is not None:
        t = ty(eng, v.tid)
        a = [x for x in t['args'] if isinstance(x, int)]
        isset = t['path'].endswith('Set')
        return Obj('Map', dom=eng.F('domOf', [V], DomV)(v.t), val=eng.F('valOf', [V], MapV)(v.t), ktid=a[0], vtid=None if isset else a[1], tid=v.tid)
    raise Unsupported(f'not a map: {v!r}'[:100])


Engine.as_seq = as_seq
Engine.as_map = as_map


def coll(eng, st, arg, conv):
    """(cell, path, view) of a collection argument (a reference to it)"""
    c, p = eng.deref(st, arg)
    v = eng.load(st, c, p)
    n = 0
    while not (isinstance(v, Obj)) and (isinstance(v, (Ref, BoxV)) or (isinstance(v, Sym) and v.tid is not None and ty(eng, v.tid)['k'] in ('ref', 'ptr'))):
        c, p = eng.deref(st, v)
        v = eng.load(st, c, p)
        n += 1
        if n > 5:
            break
    o = conv(eng, st, v)
    if o is not v:
        eng.store(st, c, p, o)
    return c, p, o


# ------------------------------------------------------------------------------ panics
@contract(r'^core::panicking::', r'^core::(option|result)::(unwrap_failed|expect_failed)$', r'^std::rt::(begin_panic|panic_fmt)',
          r'^core::cell::panic', r'^core::slice::index::slice_.*fail', r'^alloc::.*capacity_overflow')
def c_panic(eng, st, info):
    """diverges by panicking"""
    eng.emit(st, 'panic', info.path)
    return eng.deliver(st, 'panic', Sym(eng.fresh('panic'), None))


@contract(r'^core::panicking::(unreachable|todo|panic)_?.*default_msg', r'^core::fmt::', r' as core::fmt::(Debug|Display)>::fmt$',
          r'^core::fmt::(Debug|Display)::fmt$', r'as alloc::string::ToString>::to_string$', r'^alloc::fmt::format', r'^core::any::type_name',
          r'^core::panic::location', r'^tracing', r'^core::fmt::builders')
def c_fmt(eng, st, info):
    """formatting: an arbitrary value, no effect; the string form of a text is that text"""
    if info.callee['name'] == 'to_string' and info.args:
        a = [x for x in info.callee['args'] if isinstance(x, int)]
        if a and (ty(eng, a[0])['k'] == 'str' or ty(eng, a[0]).get('path', '').endswith(('string::String', 'borrow::Cow'))):
            v = text_of(eng, st, info.args[0])
            return ret(eng, st, Sym(v.t, info.dest) if isinstance(v, Sym) else v)
    return ret(eng, st, eng.fresh_val(st, info.dest, 'fmt') if info.dest is not None else Sym(eng.fresh('fmt'), None))


# ------------------------------------------------------------------------------ mem, box, pin, arc
@contract(r'^alloc::boxed::Box::<T>::(new|pin)$', r'^alloc::boxed::Box::<T, A>::(new|pin)$')
def c_box_new(eng, st, info):
    """a fresh allocation holding the argument"""
    t = info.callee['args'][0] if info.callee['args'] else None
    b = BoxV(eng.alloc(st, info.args[0]), ty(eng, t)['s'] if t is not None else None)
    if info.callee['name'] == 'pin':
        return ret(eng, st, Agg('core::pin::Pin', 0, [b], info.dest))
    return ret(eng, st, b)


@contract(r'^alloc::boxed::Box::<T>::new_uninit$')
def c_new_uninit(eng, st, info):
    """a box to be filled (vec![..])"""
    inner = Agg('core::mem::ManuallyDrop', 0, [MOVED], None)
    return ret(eng, st, BoxV(eng.alloc(st, Agg('core::mem::MaybeUninit', 0, [UNIT, inner], None))))


@contract(r'^alloc::boxed::box_assume_init_into_vec_unsafe$', r'^<alloc::vec::Vec<T> as core::convert::From<\[T; N\]>>::from$')
def c_vec_of(eng, st, info):
    """the elements of the array"""
    v = info.args[0]
    if isinstance(v, BoxV):
        v = st.heap[v.cell].fields[1].fields[0]
    a = [x for x in ty(eng, info.dest)['args'] if isinstance(x, int)]
    s = as_seq(eng, st, v, a[0])
    return ret(eng, st, Obj('Seq', seq=s.seq, etid=a[0], tid=info.dest))


@contract(r'^core::mem::(take)$')
def c_take(eng, st, info):
    """returns the old value, leaves the default"""
    c, p = eng.deref(st, info.args[0])
    old = eng.load(st, c, p)
    t = info.dest
    tt = ty(eng, t)
    if tt['k'] == 'adt' and tt['path'].endswith(('VecDeque', 'Vec')):
        new = Obj('Seq', seq=z3.Empty(SeqV), etid=tt['args'][0], tid=t)
    elif tt['k'] == 'adt' and 'Hash' in tt['path']:
        new = empty_map(eng, t)
    elif tt['k'] == 'adt' and tt['path'].endswith('option::Option'):
        new = none(eng, t)
    elif tt['k'] == 'bool':
        new = B(False)
    elif tt['k'] == 'int':
        new = I(0, tt['bits'], tt['signed'])
    else:
        new = Sym(z3.Const('default:' + tt['s'], V), t)
    eng.store(st, c, p, new)
    return ret(eng, st, old)


@contract(r'^core::mem::replace$')
def c_replace(eng, st, info):
    """returns the old value, stores the new one"""
    c, p = eng.deref(st, info.args[0])
    old = eng.load(st, c, p)
    eng.store(st, c, p, info.args[1])
    return ret(eng, st, old)


@contract(r'^core::mem::swap$')
def c_swap(eng, st, info):
    """exchanges the two values"""
    c, p = eng.deref(st, info.args[0])
    c2, p2 = eng.deref(st, info.args[1])
    a, b = eng.load(st, c, p), eng.load(st, c2, p2)
    eng.store(st, c, p, b)
    eng.store(st, c2, p2, a)
    return ret(eng, st, UNIT)


@contract(r'^core::mem::drop$')
def c_drop(eng, st, info):
    """drops the argument"""
    eng.drop_val(st, info.args[0])
    return ret(eng, st, UNIT)


@contract(r'^core::mem::forget$')
def c_forget(eng, st, info):
    """no effect"""
    return ret(eng, st, UNIT)


@contract(r'^core::pin::Pin::<Ptr>::(new_unchecked|new|into_inner|into_inner_unchecked|get_mut|get_unchecked_mut|get_ref)$',
          r'^core::pin::Pin::<&.*>::(get_mut|get_unchecked_mut|get_ref|into_ref)$')
def c_pin(eng, st, info):
    """pinning is the identity"""
    v = info.args[0]
    if info.callee['name'].startswith('new'):
        return ret(eng, st, Agg('core::pin::Pin', 0, [v], info.dest))
    return ret(eng, st, v.fields[0] if isinstance(v, Agg) else v)


@contract(r'^core::pin::Pin::<Ptr>::(as_mut|as_ref)$')
def c_pin_as_mut(eng, st, info):
    """reborrow of the pinned pointee"""
    v = content(eng, st, info.args[0])
    if isinstance(v, Obj) and v.kind == 'MaybeDone':
        _, c, p = maybe_done_at(eng, st, info.args[0])
        return ret(eng, st, Agg('core::pin::Pin', 0, [Ref(c, p)], info.dest))
    while isinstance(v, Agg) and v.path.endswith('pin::Pin'):
        v = v.fields[0]
    c, p = eng.deref(st, v)
    return ret(eng, st, Agg('core::pin::Pin', 0, [Ref(c, p)], info.dest))


@contract(r'^alloc::(rcs|sync|rc)::(arc|rc)::(Arc|Rc)::<T>::new$', r'^alloc::rcs::arc::Arc::<T, A>::new$')
def c_arc_new(eng, st, info):
    """a fresh shared allocation"""
    c = eng.alloc(st, info.args[0])
    return ret(eng, st, Obj('Arc', t=z3.Const(f'arc:{c}', V), cell=c))


@contract(r'^<alloc::rcs::arc::Arc<T> as core::default::Default>::default$')
def c_arc_default(eng, st, info):
    """a fresh shared allocation of the default value"""
    a = [x for x in ty(eng, info.dest)['args'] if isinstance(x, int)]
    c = eng.alloc(st, Sym(eng.fresh('default'), a[0]))
    return ret(eng, st, Obj('Arc', t=z3.Const(f'arc:{c}', V), cell=c))


@contract(r'Arc<T, A> as core::ops::deref::Deref>::deref$', r'Rc<T, A> as core::ops::deref::Deref>::deref$',
          r'Arc<.*as core::convert::AsRef', r'^<alloc::boxed::Box<T, A> as core::ops::deref::Deref')
def c_arc_deref(eng, st, info):
    """the shared contents"""
    v = content(eng, st, info.args[0])
    return ret(eng, st, Ref(*arc_cell(eng, st, v)))


def arc_cell(eng, st, v):
    if isinstance(v, Obj) and v.kind == 'Arc':
        return v.cell, ()
    if isinstance(v, BoxV):
        return v.cell, ()
    if isinstance(v, Sym):
        to = None
        if v.tid is not None:
            a = [x for x in ty(eng, v.tid).get('args', []) if isinstance(x, int)]
            to = a[0] if a else None
        return eng.deref(st, v, to)
    raise Unsupported(f'arc deref of {v!r}'[:100])


@contract(r'(Arc|Rc)<T, A> as core::clone::Clone>::clone$', r'mpsc::.*Sender<T> as core::clone::Clone>::clone$', r'AbortHandle as core::clone::Clone>::clone$',
          r'^core::clone::Clone::clone$', r'^dyn_clone::clone_box$', r'Cow<.*as core::clone::Clone>::clone$', r'^<alloc::boxed::Box<T, A> as core::clone::Clone>::clone$',
          r'^<alloc::string::String as core::clone::Clone>', r'^<alloc::vec::Vec<T, A> as core::clone::Clone>')
def c_clone(eng, st, info):
    """the clone equals the original"""
    v = content(eng, st, info.args[0])
    return ret(eng, st, eng.clone_val(st, v))


@contract(r'^(alloc|std)::.*::ptr_eq$')
def c_ptr_eq(eng, st, info):
    """identity of the allocation"""
    return ret(eng, st, B(cterm(eng, st, info.args[0]) == cterm(eng, st, info.args[1])))


@contract(r'^core::any::Any::type_id$', r'^core::any::TypeId::of$')
def c_typeid(eng, st, info):
    """an abstract type identifier, the same for the same type"""
    a = [x for x in info.callee.get('args') or [] if isinstance(x, int)]
    if info.callee['name'] == 'of' and a:
        return ret(eng, st, Sym(type_id(eng, a[0]), info.dest))
    return ret(eng, st, eng.fresh_val(st, info.dest, 'typeid'))


def type_id(eng, tid):
    return z3.Const('typeid:' + ty(eng, tid)['s'], V)


# ------------------------------------------------------------------------------ Any
def has_param(eng, s):
    return re.search(r'(?<![A-Za-z0-9_:])(Self|[A-Z][A-Z0-9]?)(?![A-Za-z0-9_:])', s) is not None


def type_test(eng, st, v, tid):
    """condition under which the dynamic type of v (a box / reference content) is the type tid"""
    want = ty(eng, tid)['s']
    dyn = getattr(v, 'dyn', None)
    if dyn is None and isinstance(v, Agg) and v.tid is not None:
        dyn = ty(eng, v.tid)['s']
    if dyn is not None and not dyn.startswith('dyn '):
        if dyn == want:
            return True
        if not has_param(eng, dyn) and not has_param(eng, want):
            return False
        return z3.Bool(f'same_type({dyn},{want})')
    t = eng.term(st, v)
    has = eng.F('hasType:' + want, [V], z3.BoolSort())
    # the type asked for is that of what the box holds, however one gets at it
    un = eng.F('unbox', [V], V)
    if z3.is_app(t) and t.decl().eq(un):
        eng.axiom(has(t) == has(t.arg(0)))
    elif isinstance(v, Sym) and v.tid is not None and ty(eng, v.tid)['path'].endswith('boxed::Box'):
        eng.axiom(has(un(t)) == has(t))
    return has(t)


@contract(r'boxed::convert::<impl alloc::boxed::Box<\(?dyn core::any::Any.*>::downcast$', r'Rc::<\(dyn core::any::Any.*>::downcast$')
def c_box_downcast(eng, st, info):
    """Ok(the same allocation) iff the dynamic type is T, else Err(the argument)"""
    b = info.args[0]
    tid = [x for x in info.callee['args'] if isinstance(x, int)][-1]
    cond = type_test(eng, st, b, tid)
    out = []
    for s, v in eng.branch(st, cond):
        if v:
            bb = b
            if isinstance(b, Sym):
                inner = eng.F('unbox', [V], V)(b.t)
                bb = BoxV(eng.alloc(s, eng.from_term(s, inner, tid)), ty(eng, tid)['s'])
            elif isinstance(b, BoxV) and b.dyn is None:
                bb = BoxV(b.cell, ty(eng, tid)['s'])
            out += ret(eng, s, variant(eng, info.dest, 'Ok', bb))
        else:
            out += ret(eng, s, variant(eng, info.dest, 'Err', b))
    return out


@contract(r'^<\(dyn core::any::Any.*>::(downcast_ref|downcast_mut|is)$')
def c_any_ref(eng, st, info):
    """Some iff the dynamic type is T"""
    a = info.args[0]
    v = content(eng, st, a)
    tid = info.callee['args'][0]
    if isinstance(v, BoxV):
        pass
    cond = type_test(eng, st, v, tid)
    if info.callee['name'] == 'is':
        return ret(eng, st, B(cond))
    out = []
    for s, ok in eng.branch(st, cond):
        if ok:
            c, p = eng.deref(s, a)
            x = eng.load(s, c, p)
            if isinstance(x, Sym):
                nc = eng.alloc(s, eng.from_term(s, x.t, tid))
                c, p = nc, ()
            out += ret(eng, s, some(eng, info.dest, Ref(c, p)))
        else:
            out += ret(eng, s, none(eng, info.dest))
    return out


@contract(r'(^|::)DynMessage::as_any$', r'downcast_rs::Downcast(Send|Sync)?::(into_any|into_any_rc|into_any_send)$', r'downcast_rs::Downcast.*::(as_any|as_any_mut)$',
          r'downcast_rs::Downcast.*>::(into_any|into_any_rc|as_any|as_any_mut)$')
def c_as_any(eng, st, info):
    """the same object, viewed as dyn Any"""
    return ret(eng, st, info.args[0])


# ------------------------------------------------------------------------------ futures
FUT = {}


def fut(op):
    def deco(f):
        FUT[op] = f
        return f
    return deco


def mkfut(op, *args, **kw):
    return Obj('Fut', op=op, args=tuple(args), **kw)


def cancel_points(eng, st):
    """fork one state per enclosing cancellation scope in which the scope's future is dropped here"""
    out = []
    for i, f in enumerate(st.stack):
        if isinstance(f, Cont) and f.tag.startswith('cancel'):
            s = st.fork()
            eng.emit(s, 'cancelled', f.tag)
            out += eng.deliver(s, 'cancel', f.tag)
    return out


@contract(r'^core::future::get_context$')
def c_ctx(eng, st, info):
    """the task context"""
    return ret(eng, st, Sym(z3.Const('context', V), info.dest))


@contract(r'IntoFuture>::into_future$')
def c_into_future(eng, st, info):
    """identity for futures; otherwise the type's own into_future"""
    r = info.callee.get('res') or {}
    if r.get('path', '').startswith('<F as core::future::into_future::IntoFuture>') or not r.get('key'):
        return ret(eng, st, info.args[0])
    eng.push_fn(st, r['key'], info.args)
    return [st]


@contract(r'FutureExt::(boxed|boxed_local)$')
def c_boxed(eng, st, info):
    """boxes the future"""
    return ret(eng, st, Agg('core::pin::Pin', 0, [BoxV(eng.alloc(st, info.args[0]))], info.dest))


@contract(r'FutureExt::catch_unwind$')
def c_catch(eng, st, info):
    """a future that turns a panic of the inner one into Err(payload)"""
    return ret(eng, st, Obj('Wrap', how='catch', inner=eng.alloc(st, info.args[0])))


@contract(r'^std::panic::catch_unwind$', r'^std::panicking::catch_unwind$')
def c_catch_sync(eng, st, info):
    """Ok(result) or Err(payload)"""
    dest = info.dest
    clo = info.args[0]
    if isinstance(clo, Agg) and clo.path.endswith('AssertUnwindSafe'):
        clo = clo.fields[0]

    def k(s, kind, v):
        if kind == 'ret':
            return ret(eng, s, variant(eng, dest, 'Ok', v))
        if kind == 'panic':
            eng.emit(s, 'caught', v)
            return ret(eng, s, variant(eng, dest, 'Err', v if isinstance(v, BoxV) else payload_box(eng, s, v, field_tid(eng, dest, 'Err'))))
        return eng.deliver(s, kind, v)
    eng.push_cont(st, k, 'catch')
    return eng.call_value(st, clo, [])


@contract(r'Abortable::<T>::new$')
def c_abortable(eng, st, info):
    """a future that resolves to Err(Aborted) once its handle is aborted"""
    return ret(eng, st, Obj('Wrap', how='abortable', inner=eng.alloc(st, info.args[0]), reg=eng.term(st, info.args[1])))


@contract(r'^tokio::time::timeout::timeout$')
def c_timeout(eng, st, info):
    """a future that resolves to Err(Elapsed) once the duration has passed"""
    return ret(eng, st, Obj('Wrap', how='timeout', inner=eng.alloc(st, info.args[1]), dur=eng.term(st, info.args[0])))


@contract(r'LocalKey::<T>::scope$')
def c_scope(eng, st, info):
    """runs the future with the task-local set to the value"""
    return ret(eng, st, Obj('Wrap', how='scope', inner=eng.alloc(st, info.args[2]), val=info.args[1], key=cterm(eng, st, info.args[0])))


@contract(r'LocalKey::<T>::sync_scope$')
def c_sync_scope(eng, st, info):
    """runs the closure with the task-local set to the value"""
    key = str(cterm(eng, st, info.args[0]))
    old = st.ghost.get('tls:' + key)
    st.ghost['tls:' + key] = info.args[1]

    def k(s, kind, v):
        s.ghost['tls:' + key] = old
        return eng.deliver(s, kind, v)
    eng.push_cont(st, k, 'scope')
    return eng.call_value(st, info.args[2], [])


@contract(r'LocalKey::<T>::(try_with|with|get|try_get)$')
def c_try_with(eng, st, info):
    """Ok(f(&value)) if the task-local is set in this task, else Err(AccessError)"""
    key = str(cterm(eng, st, info.args[0]))
    name = info.callee['name']
    dest = info.dest
    cur = st.ghost.get('tls:' + key)
    tid = [x for x in info.callee['args'] if isinstance(x, int)][0]
    out = []
    opts = []
    if cur is not None:
        opts = [(st, cur)]
    elif st.ghost.get('tls_unset'):
        opts = [(st, None)]
    else:
        s2 = st.fork()
        v = eng.fresh_val(st, tid, 'tls')
        st.ghost['tls:' + key] = v
        opts = [(st, v), (s2, None)]
        s2.ghost['tls_unset'] = True
    for s, v in opts:
        if v is None:
            if name.startswith('try'):
                out += ret(eng, s, variant(eng, dest, 'Err', Sym(z3.Const('AccessError', V), None)))
            else:
                out += eng.deliver(s, 'panic', Sym(eng.fresh('panic'), None))
            continue
        if name in ('get',):
            out += ret(eng, s, v)
            continue

        def k(s2, kind, r):
            if kind == 'ret' and name.startswith('try'):
                return ret(eng, s2, variant(eng, dest, 'Ok', r))
            return eng.deliver(s2, kind, r)
        eng.push_cont(s, k, 'try_with')
        out += eng.call_value(s, info.args[1], [Ref(eng.alloc(s, v))])
    return out


def payload_box(eng, st, v, tid):
    if isinstance(v, Sym) and v.tid is None:
        return Sym(v.t, tid)
    if isinstance(v, Str):
        return Sym(eng.fresh('payload'), tid)
    return v


def ready(eng, poll_tid, v):
    if poll_tid is None:
        return Agg('core::task::poll::Poll', 0, [v], None)
    return variant(eng, poll_tid, 'Ready', v)


def poll_at(eng, st, cell, path, poll_tid, info):
    """poll the future stored at (cell, path) until it is ready; delivers Poll::Ready(output)"""
    v = eng.load(st, cell, path)
    out_tid = field_tid(eng, poll_tid, 'Ready') if poll_tid is not None else None

    def wrap(s, kind, r):
        if kind == 'ret':
            return ret(eng, s, ready(eng, poll_tid, r))
        return eng.deliver(s, kind, r)
    n = 0
    while True:
        n += 1
        if n > 12:
            raise Unsupported('future nesting')
        if isinstance(v, Agg) and v.path.endswith('pin::Pin'):
            v = v.fields[0]
            continue
        if isinstance(v, (Ref, BoxV)):
            cell, path = eng.deref(st, v)
            v = eng.load(st, cell, path)
            continue
        if isinstance(v, Agg) and v.path.endswith('AssertUnwindSafe'):
            path = tuple(path) + (('f', None, 0, None),)
            v = v.fields[0]
            continue
        break
    if in_pollfn(st) and info is not None:
        # inside select!/join!: the future may be left pending at any of its await points
        tag = f'cancel:pending:{next(eng.cnt)}'

        def k_pend(s, kind, r):
            if kind == 'cancel' and r == tag:
                eng.emit(s, 'left_pending', tag)
                return ret(eng, s, variant(eng, poll_tid, 'Pending'))
            return eng.deliver(s, kind, r)
        eng.push_cont(st, k_pend, tag)
    if isinstance(v, Agg) and v.path.startswith('coroutine:'):
        key = v.path[len('coroutine:'):]
        eng.store(st, cell, path, MOVED)
        eng.push_cont(st, wrap, 'await')
        eng.push_fn(st, key, [v, Sym(z3.Const('context', V), None)])
        return [st]
    if isinstance(v, Obj) and v.kind == 'PollFn':
        return poll_pollfn(eng, st, v, cell, path, poll_tid)
    if isinstance(v, Obj) and v.kind == 'MaybeDone':
        return poll_maybe_done(eng, st, v, cell, path, poll_tid)
    if isinstance(v, Obj) and v.kind == 'Wrap':
        return poll_wrap(eng, st, v, poll_tid, out_tid, info)
    if isinstance(v, Obj) and v.kind == 'Fut':
        eng.push_cont(st, wrap, 'await')
        h = FUT.get(v.op)
        if h is None:
            raise Unsupported('no future op ' + v.op)
        eng.store(st, cell, path, Obj('FutDone', op=v.op))
        return h(eng, st, v, out_tid)
    if isinstance(v, Obj) and v.kind == 'MapFut':
        def k(s, kind, r):
            if kind != 'ret':
                return eng.deliver(s, kind, r)
            eng.push_cont(s, wrap, 'await')
            return v.fn(eng, s, r.fields[0])
        eng.push_cont(st, k, 'await')
        return poll_at(eng, st, v.inner, (), v.poll_tid or poll_tid, info)
    if isinstance(v, Agg) and info is not None:
        r = info.callee.get('res') or {}
        if r.get('key'):
            eng.push_fn(st, r['key'], info.args)
            return [st]
    if isinstance(v, Sym):
        eng.push_cont(st, wrap, 'await')
        if v.tid is not None and 'oneshot::Receiver<' in ty(eng, v.tid)['s'] and not ty(eng, v.tid)['s'].startswith(('&', 'core::pin')):
            return wait_slot(eng, st, v, out_tid)
        return env_await(eng, st, 'await', [v], out_tid)
    raise Unsupported(f'poll of {v!r}'[:200])


# ---- join!, try_join!
@contract(r'^<tokio::macros::join::(Biased)?Rotator.* as core::default::Default>::default$')
def c_rotator(eng, st, info):
    """a rotator of the branches of join!"""
    return ret(eng, st, Sym(eng.fresh('rotator'), info.dest))


@contract(r'^tokio::macros::join::(Biased)?Rotator(::<COUNT>)?::num_skip$')
def c_num_skip(eng, st, info):
    """which branch is polled first: any of them"""
    n = int(info.callee['args'][0]) if info.callee['args'] else 1
    out = []
    for i, s in enumerate(choose(st, n)):
        out += ret(eng, s, I(i, 32))
    return out


@contract(r'^tokio::future::maybe_done::maybe_done$')
def c_maybe_done(eng, st, info):
    """a future that keeps its output"""
    return ret(eng, st, Obj('MaybeDone', fut=info.args[0], out=None, otid=field_tid(eng, info.dest, 'Done'), tid=info.dest))


def maybe_done_at(eng, st, v):
    cell, path = eng.deref(st, v.fields[0] if isinstance(v, Agg) else v)
    m = eng.load(st, cell, path)
    while isinstance(m, (Ref, BoxV)) or isinstance(m, Agg) and m.path.endswith('pin::Pin'):
        cell, path = eng.deref(st, m.fields[0] if isinstance(m, Agg) else m)
        m = eng.load(st, cell, path)
    if not (isinstance(m, Obj) and m.kind == 'MaybeDone'):
        raise Unsupported(f'MaybeDone {m!r}'[:100])
    return m, cell, path


@contract(r'^tokio::future::maybe_done::MaybeDone::<Fut>::output_mut$')
def c_output_mut(eng, st, info):
    """the output, once there is one"""
    m, _, _ = maybe_done_at(eng, st, info.args[0])
    return ret(eng, st, none(eng, info.dest) if m.out is None else some(eng, info.dest, Ref(m.out)))


@contract(r'^tokio::future::maybe_done::MaybeDone::<Fut>::take_output$')
def c_take_output(eng, st, info):
    """the output, once there is one, once"""
    m, cell, path = maybe_done_at(eng, st, info.args[0])
    if m.out is None:
        return ret(eng, st, none(eng, info.dest))
    v = eng.load(st, m.out, ())
    eng.store(st, cell, path, m.with_(out=None, fut=None))
    return ret(eng, st, some(eng, info.dest, v))


def poll_maybe_done(eng, st, m, cell, path, poll_tid):
    if m.out is not None:
        return ret(eng, st, ready(eng, poll_tid, UNIT))
    if m.fut is None:
        return eng.deliver(st, 'panic', Sym(eng.fresh('panic'), None))
    c = eng.alloc(st, m.fut)

    def k(s, kind, r):
        if kind != 'ret':
            return eng.deliver(s, kind, r)
        eng.store(s, cell, path, m.with_(out=eng.alloc(s, r.fields[0])))
        return ret(eng, s, ready(eng, poll_tid, UNIT))
    eng.push_cont(st, k, 'await')
    return poll_at(eng, st, c, (), eng.poll_type(m.otid), None)


def in_pollfn(st):
    """is the innermost thing being polled a poll_fn closure (select!, join!)?"""
    for f in reversed(st.stack):
        if isinstance(f, Cont):
            return f.tag == 'pollfn'
    return False


@contract(r'^core::future::poll_fn::poll_fn$')
def c_poll_fn(eng, st, info):
    """a future polled by calling the closure (select!, join!)"""
    return ret(eng, st, Obj('PollFn', clo=info.args[0]))


@contract(r'^tokio::macros::support::poll_budget_available$')
def c_budget(eng, st, info):
    """the task has budget left"""
    return ret(eng, st, variant(eng, info.dest, 'Ready', UNIT))


@contract(r'^tokio::macros::support::thread_rng_n$')
def c_rng(eng, st, info):
    """any number below n"""
    n = info.args[0].e
    n = n if isinstance(n, int) else z3.simplify(n).as_long()
    out = []
    for i, s in enumerate(choose(st, n)):
        out += ret(eng, s, I(i, 32))
    return out


def poll_pollfn(eng, st, v, cell, path, poll_tid):
    """the closure is called until it returns Ready.  One call is executed: each inner future runs to completion or is left
    pending at one of its awaits (with what it did so far); a call that returns Pending is continued by a later one"""
    clo = v.clo

    def k(s, kind, r):
        if kind != 'ret':
            return eng.deliver(s, kind, r)
        out = []
        if isinstance(r, Sym):
            raise Unsupported('symbolic poll result of select!')
        if eng.P.t(r.tid)['variants'][r.variant]['name'] == 'Pending' if r.tid is not None else r.variant == 1:
            return []
        return ret(eng, s, ready(eng, poll_tid, r.fields[0]))
    eng.push_cont(st, k, 'pollfn')
    return eng.call_value(st, clo, [Sym(z3.Const('context', V), None)])


def env_await(eng, st, op, args, out_tid, may_panic=False):
    out = cancel_points(eng, st)
    eng.emit(st, op, *args)
    r = eng.fresh_val(st, out_tid, op) if out_tid is not None else UNIT
    if may_panic:
        s2 = st.fork()
        p = Sym(eng.fresh('payload'), None)
        eng.emit(s2, op + '_panicked', p)
        out += eng.deliver(s2, 'panic', p)
    eng.emit(st, op + '_done', r)
    out += ret(eng, st, r)
    return out


def poll_wrap(eng, st, w, poll_tid, out_tid, info):
    how = w.how
    out = []
    if how == 'catch':
        def k(s, kind, r):
            if kind == 'ret':
                return ret(eng, s, ready(eng, poll_tid, variant(eng, out_tid, 'Ok', r.fields[0])))
            if kind == 'panic':
                eng.emit(s, 'caught', r)
                return ret(eng, s, ready(eng, poll_tid, variant(eng, out_tid, 'Err', payload_box(eng, s, r, field_tid(eng, out_tid, 'Err')))))
            return eng.deliver(s, kind, r)
        inner_out = field_tid(eng, out_tid, 'Ok')
    elif how in ('abortable', 'timeout'):
        tag = f'cancel:{how}:{next(eng.cnt)}'
        errn = 'Aborted' if how == 'abortable' else 'Elapsed'

        def k(s, kind, r):
            if kind == 'ret':
                return ret(eng, s, ready(eng, poll_tid, variant(eng, out_tid, 'Ok', r.fields[0])))
            if kind == 'cancel' and r == tag:
                eng.emit(s, 'scope_cancelled', how)
                et = field_tid(eng, out_tid, 'Err')
                return ret(eng, s, ready(eng, poll_tid, variant(eng, out_tid, 'Err', Sym(z3.Const(errn, V), et))))
            return eng.deliver(s, kind, r)
        inner_out = field_tid(eng, out_tid, 'Ok')
        eng.emit(st, how + '_start', *( [Sym(w.dur, None)] if how == 'timeout' else []))
        if how == 'abortable':
            s2 = st.fork()
            eng.push_cont(s2, k, tag)
            s2.stack.pop()
            eng.emit(s2, 'cancelled', tag)
            out += k(s2, 'cancel', tag)
        eng.push_cont(st, k, tag)
        return out + poll_at(eng, st, w.inner, (), eng.poll_type(inner_out), None)
    elif how == 'scope':
        key = str(w.key)
        old = st.ghost.get('tls:' + key)
        st.ghost['tls:' + key] = w.val
        eng.emit(st, 'scope_enter', w.val)

        def k(s, kind, r):
            s.ghost['tls:' + key] = old
            return eng.deliver(s, kind, r)
        eng.push_cont(st, k, 'scope')
        return poll_at(eng, st, w.inner, (), poll_tid, None)
    eng.push_cont(st, k, how)
    return poll_at(eng, st, w.inner, (), eng.poll_type(inner_out), None)


class FakePoll:
    """Poll<T> type that the crate itself does not mention"""


def poll_type(eng, out_tid):
    d = getattr(eng, '_poll_types', None)
    if d is None:
        d = eng._poll_types = {}
        for i, t in enumerate(eng.P.types):
            if t['k'] == 'adt' and t['path'] == 'core::task::poll::Poll':
                d.setdefault(t['args'][0], i)
    if out_tid not in d:
        # synthesise the type
        base = next((t for t in eng.P.types if t['k'] == 'adt' and t['path'] == 'core::task::poll::Poll'), None)
        if base is None:
            raise Unsupported('no Poll type')
        eng.P.types.append(dict(base, args=[out_tid], s=f'Poll#{out_tid}', variants=[
            dict(base['variants'][0], fields=[['0', out_tid]]), base['variants'][1]]))
        d[out_tid] = len(eng.P.types) - 1
    return d[out_tid]


Engine.poll_type = poll_type


@contract(r'Future>::poll$', r'^core::future::future::Future::poll$', r'FutureExt::poll_unpin$')
def c_poll(eng, st, info):
    """polling: the task is polled until Ready (every pending future of this crate is eventually woken or dropped by its scope)"""
    a = info.args[0]
    while isinstance(a, Agg) and a.path.endswith('pin::Pin'):
        a = a.fields[0]
    c, p = eng.deref(st, a)
    return poll_at(eng, st, c, p, info.dest, info)


def hook(op, may_panic=True):
    """an async user hook: arbitrary result, may panic, may mutate what it borrows mutably"""
    @fut(op)
    def f(eng, st, fv, out_tid):
        eng.emit(st, op, *fv.args)
        for c, p in fv.a.get('muts', ()):
            eng.store(st, c, p, eng.havoc_val(st, eng.load(st, c, p)))
        out = cancel_points(eng, st)
        if may_panic and op not in getattr(eng, 'no_panic', ()):
            s2 = st.fork()
            p = Sym(eng.fresh('payload'), None)
            eng.emit(s2, op + '_panicked', p)
            out += eng.deliver(s2, 'panic', p)
        r = eng.fresh_val(st, out_tid, op)
        eng.emit(st, op + '_done', r)
        out += ret(eng, st, r)
        return out

    def c(eng, st, info):
        muts = []
        for a, t in zip(info.args, info.arg_tids or [None] * len(info.args)):
            if t is not None and ty(eng, t)['k'] == 'ref' and ty(eng, t)['mut'] and isinstance(a, (Ref, Sym)):
                muts.append(eng.deref(st, a))
        return ret(eng, st, mkfut(op, *info.args, muts=tuple(muts)))
    c.__doc__ = f.__doc__ = f'{op}: arbitrary result, may panic, may change what it borrows mutably'
    return c


for _n in ('on_start', 'on_panic', 'on_link_died', 'on_stop', 'next'):
    contract(r'^actor::Actor::%s$' % _n, r'^kameo::actor::Actor::%s$' % _n)(hook(_n))
for _n in ('handle_dyn',):
    contract(r'^message::DynMessage::%s$' % _n)(hook(_n))
contract(r'^(kameo::)?message::Message::handle$')(hook('handle'))


@contract(r'^(kameo::)?actor::Actor::name$')
def c_name(eng, st, info):
    """a constant string per actor type"""
    return ret(eng, st, Sym(z3.Const('actor_name', V), info.dest))


# ------------------------------------------------------------------------------ mpsc
def send_ok(eng, st, ch, v, how, dest):
    eng.emit(st, 'send', ch, v, how)
    return variant(eng, dest, 'Ok', UNIT)


def send_err(eng, st, ch, v, how, dest, name=None):
    eng.emit(st, 'send_refused', ch, v, how)
    et = field_tid(eng, dest, 'Err')
    if name:
        e = variant(eng, et, name, v)
    else:
        e = newtype(eng, et, v)
    return variant(eng, dest, 'Err', e)


@contract(r'mpsc::(bounded::Sender|unbounded::UnboundedSender)::<T>::(send|blocking_send|try_send|send_timeout|closed)$')
def c_send(eng, st, info):
    """enqueues the value exactly once (Ok) or gives it back inside the error"""
    name = info.callee['name']
    ch = content(eng, st, info.args[0])
    bounded = 'bounded::Sender' in info.path
    if name == 'closed':
        return ret(eng, st, mkfut('closed', ch))
    v = info.args[1]
    if name == 'send' and bounded:
        return ret(eng, st, mkfut('send', ch, v))
    if name == 'send_timeout':
        return ret(eng, st, mkfut('send_timeout', ch, v, info.args[2]))
    how = {'send': 'unbounded', 'blocking_send': 'blocking', 'try_send': 'try'}[name]
    eng.emit(st, 'send_attempt', ch, v, how)
    if name == 'try_send':
        s1, s2, s3 = choose(st, 3)
        return (ret(eng, s1, send_ok(eng, s1, ch, v, how, info.dest))
                + ret(eng, s2, send_err(eng, s2, ch, v, 'full', info.dest, 'Full'))
                + ret(eng, s3, send_err(eng, s3, ch, v, 'closed', info.dest, 'Closed')))
    s1, s2 = choose(st, 2)
    return (ret(eng, s1, send_ok(eng, s1, ch, v, how, info.dest))
            + ret(eng, s2, send_err(eng, s2, ch, v, 'closed', info.dest)))


@fut('send')
def f_send(eng, st, fv, out):
    ch, v = fv.args
    res = cancel_points(eng, st)
    eng.emit(st, 'send_attempt', ch, v, 'wait')
    s1, s2 = choose(st, 2)
    return res + ret(eng, s1, send_ok(eng, s1, ch, v, 'wait', out)) + ret(eng, s2, send_err(eng, s2, ch, v, 'closed', out))


@fut('send_timeout')
def f_send_timeout(eng, st, fv, out):
    ch, v, d = fv.args
    res = cancel_points(eng, st)
    eng.emit(st, 'send_attempt', ch, v, 'timeout', d)
    s1, s2, s3 = choose(st, 3)
    return (res + ret(eng, s1, send_ok(eng, s1, ch, v, 'timeout', out)) + ret(eng, s2, send_err(eng, s2, ch, v, 'timeout', out, 'Timeout'))
            + ret(eng, s3, send_err(eng, s3, ch, v, 'closed', out, 'Closed')))


@fut('closed')
def f_closed(eng, st, fv, out):
    return env_await(eng, st, 'closed', fv.args, out)


@contract(r'mpsc::.*Sender(::<T>)?::(is_closed|strong_count|weak_count|capacity|max_capacity)$', r'mpsc::.*Receiver::<T>::(is_closed|is_empty|len|sender_strong_count|sender_weak_count|capacity|max_capacity)$',
          r'mpsc::.*WeakSender::<T>::(strong_count|weak_count)$', r'mpsc::.*WeakUnboundedSender::<T>::(strong_count|weak_count)$')
def c_chan_query(eng, st, info):
    """an observation of the channel"""
    ch = content(eng, st, info.args[0])
    eng.emit(st, 'chan_query', ch, info.callee['name'])
    f = eng.F('q:' + info.callee['name'] + ':' + str(len(st.trace) if getattr(eng, 'time_varying', False) else ''), [V], V)
    r = eng.sym(st, f(eng.term(st, ch)), info.dest)
    if info.callee['name'] == 'max_capacity':
        eng.axiom(zi(r.e) >= 1)
    return ret(eng, st, r)


@contract(r'mpsc::.*Sender::<T>::same_channel$')
def c_same_channel(eng, st, info):
    """identity of the channel"""
    return ret(eng, st, B(cterm(eng, st, info.args[0]) == cterm(eng, st, info.args[1])))


@contract(r'mpsc::(bounded::Sender|unbounded::UnboundedSender)::<T>::downgrade$')
def c_downgrade(eng, st, info):
    """a weak handle of the same channel"""
    t = cterm(eng, st, info.args[0])
    w = eng.F('weakOf', [V], V)(t)
    eng.axiom(eng.F('strongOf', [V], V)(w) == t)
    return ret(eng, st, Sym(w, info.dest))


@contract(r'mpsc::(bounded::WeakSender|unbounded::WeakUnboundedSender)::<T>::upgrade$')
def c_upgrade(eng, st, info):
    """Some(strong handle of the same channel) or None once every strong handle is gone"""
    t = cterm(eng, st, info.args[0])
    s1, s2 = choose(st, 2)
    eng.emit(s1, 'upgrade', Sym(t, None), True)
    eng.emit(s2, 'upgrade', Sym(t, None), False)
    strong = eng.F('strongOf', [V], V)(t)
    eng.axiom(eng.F('weakOf', [V], V)(strong) == t)
    return (ret(eng, s1, some(eng, info.dest, Sym(strong, field_tid(eng, info.dest, 'Some'))))
            + ret(eng, s2, none(eng, info.dest)))


@contract(r'mpsc::(bounded::Receiver|unbounded::UnboundedReceiver)::<T>::(recv|recv_many|try_recv|blocking_recv|blocking_recv_many|poll_recv|poll_recv_many)$')
def c_recv(eng, st, info):
    """takes the oldest value out of the channel"""
    name = info.callee['name']
    ch = content(eng, st, info.args[0])
    rest = list(info.args[1:])
    if name in ('recv', 'recv_many'):
        return ret(eng, st, mkfut('recv', ch, Str(name), *rest))
    eng.emit(st, 'recv', ch, Str(name), *rest)
    r = eng.fresh_val(st, info.dest, 'recv')
    eng.emit(st, 'recv_done', r)
    return ret(eng, st, r)


@fut('recv')
def f_recv(eng, st, fv, out):
    return env_await(eng, st, 'recv', fv.args, out)


@contract(r'mpsc::(bounded::Receiver|unbounded::UnboundedReceiver)::<T>::close$')
def c_chan_close(eng, st, info):
    """closes the channel"""
    eng.emit(st, 'chan_close', content(eng, st, info.args[0]))
    return ret(eng, st, UNIT)


@contract(r'^tokio::sync::mpsc::(bounded::channel|unbounded::unbounded_channel)$')
def c_channel(eng, st, info):
    """a fresh channel: both halves name it"""
    t = eng.fresh('chan')
    fs = ty(eng, info.dest)['fields']
    eng.emit(st, 'channel', Sym(t, None), 'bounded' if 'bounded::channel' in info.path and 'unbounded' not in info.path else 'unbounded', *info.args)
    return ret(eng, st, Agg('tuple', 0, [Sym(eng.F('txOf', [V], V)(t), fs[0]), Sym(eng.F('rxOf', [V], V)(t), fs[1])]))


# ------------------------------------------------------------------------------ oneshot
@contract(r'^tokio::sync::oneshot::channel$')
def c_oneshot(eng, st, info):
    """a fresh reply slot"""
    t = eng.fresh('slot')
    fs = ty(eng, info.dest)['fields']
    return ret(eng, st, Agg('tuple', 0, [Sym(eng.F('otx', [V], V)(t), fs[0]), Sym(eng.F('orx', [V], V)(t), fs[1])]))


@contract(r'oneshot::Sender::<T>::send$')
def c_oneshot_send(eng, st, info):
    """fills the slot, or gives the value back when the receiver is gone"""
    s1, s2 = choose(st, 2)
    eng.emit(s1, 'reply', info.args[0], info.args[1], True)
    eng.emit(s2, 'reply', info.args[0], info.args[1], False)
    return ret(eng, s1, variant(eng, info.dest, 'Ok', UNIT)) + ret(eng, s2, variant(eng, info.dest, 'Err', info.args[1]))


@contract(r'oneshot::Sender::<T>::is_closed$')
def c_oneshot_closed(eng, st, info):
    """whether the receiver is gone (which it then stays)"""
    b = eng.fresh_val(st, info.dest, 'closed')
    eng.assume(st, z3.Implies(zb(b.e), eng.F('noOneWaits', [V], z3.BoolSort())(eng.term(st, content(eng, st, info.args[0])))))
    return ret(eng, st, b)


def slot_result(eng, st, rx, out):
    s1, s2 = choose(st, 2)
    ok = eng.fresh_val(s1, field_tid(eng, out, 'Ok'), 'reply')
    eng.emit(s1, 'reply_received', rx, ok)
    eng.emit(s2, 'reply_lost', rx)
    return ret(eng, s1, variant(eng, out, 'Ok', ok)) + ret(eng, s2, variant(eng, out, 'Err', Sym(z3.Const('RecvError', V), field_tid(eng, out, 'Err'))))


def wait_slot(eng, st, rx, out_tid):
    eng.emit(st, 'reply_wait', rx, 'async')
    res = cancel_points(eng, st)
    return res + slot_result(eng, st, rx, out_tid)


@contract(r'oneshot::Receiver::<T>::(blocking_recv)$')
def c_oneshot_blocking(eng, st, info):
    """the value, or RecvError when the sender was dropped"""
    eng.emit(st, 'reply_wait', info.args[0], 'blocking')
    return slot_result(eng, st, info.args[0], info.dest)


@contract(r'oneshot::Receiver<T> as core::future::future::Future>::poll$')
def c_oneshot_poll(eng, st, info):
    """the value, or RecvError when the sender was dropped"""
    rx = content(eng, st, info.args[0])
    out_tid = field_tid(eng, info.dest, 'Ready')

    def k(s, kind, r):
        return ret(eng, s, ready(eng, info.dest, r)) if kind == 'ret' else eng.deliver(s, kind, r)
    eng.push_cont(st, k, 'await')
    return wait_slot(eng, st, rx, out_tid)


TABLE.insert(0, TABLE.pop())     # before the generic poll contract


# ------------------------------------------------------------------------------ locks, semaphore, once
@contract(r'sync::mutex::Mutex::<T>::(lock|blocking_lock|try_lock)$', r'^std::sync::poison::mutex::Mutex::<T>::lock$', r'^std::sync::poison::rwlock::RwLock::<T>::(read|write)$', r'^tokio::sync::rwlock::.*RwLock::<T>::(read|write|blocking_read|blocking_write)$')
def c_lock(eng, st, info):
    """exclusive access to the protected value, whatever it is by then"""
    name = info.callee['name']
    m = content(eng, st, info.args[0])
    if name == 'lock' and 'tokio' in info.path:
        return ret(eng, st, mkfut('lock', m))
    if name == 'blocking_lock':
        return ret(eng, st, lock_guard(eng, st, m))
    if name == 'try_lock':
        s1, s2 = choose(st, 2)
        return ret(eng, s1, variant(eng, info.dest, 'Ok', lock_guard(eng, s1, m))) + ret(eng, s2, variant(eng, info.dest, 'Err', Sym(eng.fresh('trylock'), None)))
    if 'std::' in info.path:
        # not poisoned: no kameo code panics while holding a std mutex (recorded assumption)
        return ret(eng, st, variant(eng, info.dest, 'Ok', lock_guard(eng, st, m)))
    raise Unsupported('lock ' + name)


@contract(r'sync::(poison::)?(mutex::Mutex|rwlock::RwLock)::<T>::new$')
def c_mutex_new(eng, st, info):
    """a mutex around the value"""
    return ret(eng, st, Agg(ty(eng, info.dest)['path'], 0, [info.args[0]], info.dest))


def lock_guard(eng, st, m):
    t = None
    if isinstance(m, (Sym, Agg)) and m.tid is not None:
        a = [x for x in ty(eng, m.tid)['args'] if isinstance(x, int)]
        t = a[0]
    mt = eng.term(st, m)
    shared = st.ghost.get('shared_locks') or {}
    key = eng.kid(mt)
    tid = t
    if tid is None:
        raise Unsupported('lock of a mutex of unknown type')
    v = st.ghost.get(('locked', key))
    inner = eng.fresh_val(st, tid, 'locked')
    tt = ty(eng, tid)
    if tt['k'] == 'adt' and ('HashMap' in tt['path'] or 'HashSet' in tt['path'] or 'BTreeMap' in tt['path']):
        inner = as_map(eng, st, inner)
    c = eng.alloc(st, inner)
    eng.emit(st, 'lock', m, inner)
    return Obj('Guard', mutex=m, cell=c, t=eng.fresh('guard'))


@fut('lock')
def f_lock(eng, st, fv, out):
    res = cancel_points(eng, st)
    return res + ret(eng, st, lock_guard(eng, st, fv.args[0]))


@contract(r'(MutexGuard|RwLockReadGuard|RwLockWriteGuard)<.*as core::ops::deref::Deref(Mut)?>::deref(_mut)?$')
def c_guard_deref(eng, st, info):
    """the protected value"""
    g = content(eng, st, info.args[0])
    if isinstance(g, Obj) and g.kind == 'Guard':
        return ret(eng, st, Ref(g.cell))
    raise Unsupported('guard deref')


def drop_guard(eng, st, g):
    eng.emit(st, 'unlock', g.mutex, st.heap.get(g.cell))


DROPS['Guard'] = drop_guard


@contract(r'semaphore::Semaphore::add_permits$')
def c_add_permits(eng, st, info):
    """adds permits"""
    eng.emit(st, 'add_permits', content(eng, st, info.args[0]), info.args[1])
    return ret(eng, st, UNIT)


@contract(r'semaphore::Semaphore::(acquire|acquire_owned|acquire_many)$')
def c_acquire(eng, st, info):
    """waits for a permit"""
    return ret(eng, st, mkfut('acquire', content(eng, st, info.args[0])))


@fut('acquire')
def f_acquire(eng, st, fv, out):
    return env_await(eng, st, 'acquire', fv.args, out)


@contract(r'semaphore::(Owned)?SemaphorePermit.*::forget$')
def c_permit_forget(eng, st, info):
    """the permit is never given back"""
    eng.emit(st, 'permit_forgotten')
    return ret(eng, st, UNIT)


@contract(r'semaphore::Semaphore::(new|const_new)$')
def c_sem_new(eng, st, info):
    """a semaphore with n permits"""
    t = eng.fresh('sem')
    eng.emit(st, 'sem_new', info.args[0])
    return ret(eng, st, Sym(t, info.dest))


@contract(r'once_lock::OnceLock::<T>::(set|get|new|wait|get_or_init)$')
def c_once(eng, st, info):
    """write-once cell: the first set wins, later ones give the value back"""
    name = info.callee['name']
    if name == 'new':
        return ret(eng, st, Sym(eng.fresh('once'), info.dest))
    cell = content(eng, st, info.args[0])
    key = ('once', eng.kid(eng.term(st, cell)))
    if name == 'set':
        if st.ghost.get(key):
            eng.emit(st, 'once_set_again', cell, info.args[1])
            return ret(eng, st, variant(eng, info.dest, 'Err', info.args[1]))
        st.ghost[key] = True
        st.ghost[('oncev',) + key] = info.args[1]
        eng.emit(st, 'once_set', cell, info.args[1])
        return ret(eng, st, variant(eng, info.dest, 'Ok', UNIT))
    if name == 'get':
        if st.ghost.get(key):
            return ret(eng, st, some(eng, info.dest, Ref(eng.alloc(st, st.ghost[('oncev',) + key]))))
        s1, s2 = choose(st, 2)
        it = field_tid(eng, info.dest, 'Some')
        inner = ty(eng, it)['to']
        v = eng.sym(s1, eng.F('onceVal', [V], V)(eng.term(s1, cell)), inner)
        eng.emit(s1, 'once_get', cell, v)
        eng.emit(s2, 'once_get_none', cell)
        return ret(eng, s1, some(eng, info.dest, Ref(eng.alloc(s1, v)))) + ret(eng, s2, none(eng, info.dest))
    if name in ('get_or_init', 'wait'):
        if st.ghost.get(key):
            return ret(eng, st, Ref(eng.alloc(st, st.ghost[('oncev',) + key])))
        s1, s2 = choose(st, 2) if name == 'get_or_init' else (st, None)
        v = eng.sym(s1, eng.F('onceVal', [V], V)(eng.term(s1, cell)), ty(eng, info.dest)['to'])
        eng.emit(s1, 'once_get', cell, v)
        out = ret(eng, s1, Ref(eng.alloc(s1, v)))
        if s2 is not None:
            def k(s, kind, v):
                if kind != 'ret':
                    return eng.deliver(s, kind, v)
                s.ghost[key] = True
                s.ghost[('oncev',) + key] = v
                eng.emit(s, 'once_set', cell, v)
                return ret(eng, s, Ref(eng.alloc(s, v)))
            eng.push_cont(s2, k, 'get_or_init')
            out += eng.call_value(s2, info.args[1], [])
        return out
    raise Unsupported('OnceLock::' + name)


@contract(r'once_cell::sync::(Lazy|OnceCell).*::(deref|force|get|set|get_or_init)$', r'Lazy<T, F> as core::ops::deref::Deref>::deref$', r'once_cell::sync::OnceCell::<T>::')
def c_lazy(eng, st, info):
    """the lazily built global"""
    name = info.callee['name']
    v = content(eng, st, info.args[0])
    t = eng.term(st, v)
    if name in ('deref', 'force'):
        to = ty(eng, info.dest)['to']
        k = ('lazy', eng.kid(t))
        if k not in st.symref:
            st.symref[k] = eng.alloc(st, eng.sym(st, eng.F('lazyVal', [V], V)(t), to))
        return ret(eng, st, Ref(st.symref[k]))
    if name == 'get':
        to = ty(eng, field_tid(eng, info.dest, 'Some'))['to']
        gk = ('global_set', eng.kid(t))
        s1, s2 = (st, None) if st.ghost.get(gk) else choose(st, 2)      # once set it stays set
        s1.ghost[gk] = True
        c = s1.symref.get(('lazy', eng.kid(t)))
        c = eng.alloc(s1, eng.sym(s1, eng.F('lazyVal', [V], V)(t), to)) if c is None else c
        eng.emit(s1, 'global_get', Sym(t, None), True, Ref(c))
        out = ret(eng, s1, some(eng, info.dest, Ref(c)))
        if s2 is not None:
            eng.emit(s2, 'global_get', Sym(t, None), False)
            out += ret(eng, s2, none(eng, info.dest))
        return out
    if name in ('get_or_init', 'set', 'try_insert'):
        gk = ('global_set', eng.kid(t))
        over = eng.F('lazyVal', [V], V)(t)
        s1, s2 = (st, None) if st.ghost.get(gk) else choose(st, 2)
        s1.ghost[gk] = True
        to = ty(eng, info.dest)['to'] if name == 'get_or_init' else None
        if name == 'try_insert':
            et = field_tid(eng, info.dest, 'Err')
            to = ty(eng, ty(eng, et)['fields'][0])['to']
        c = Ref(eng.alloc(s1, eng.sym(s1, over, to)))
        eng.emit(s1, 'global_kept', Sym(t, None), c)
        out = ret(eng, s1, c if name == 'get_or_init' else variant(eng, info.dest, 'Err', info.args[1] if name == 'set' else Agg('tuple', 0, [c, info.args[1]], et)))
        if s2 is None:
            return out

        def k(s, kind, v):
            if kind != 'ret':
                return eng.deliver(s, kind, v)
            s.ghost[gk] = True
            eng.emit(s, 'global_set', Sym(t, None), v)
            c = Ref(eng.alloc(s, v))
            s.symref[('lazy', eng.kid(t))] = c.cell
            return ret(eng, s, c if name == 'get_or_init' else variant(eng, info.dest, 'Ok', UNIT if name == 'set' else c))
        if name != 'get_or_init':
            return out + k(s2, 'ret', info.args[1])
        eng.push_cont(s2, k, 'get_or_init')
        return out + eng.call_value(s2, info.args[1], [])
    raise Unsupported('once_cell ' + name)


@contract(r'abortable::AbortHandle::(abort|new_pair|is_aborted)$')
def c_abort(eng, st, info):
    """abort: the paired Abortable resolves to Aborted"""
    name = info.callee['name']
    if name == 'new_pair':
        t = eng.fresh('abort')
        fs = ty(eng, info.dest)['fields']
        return ret(eng, st, Agg('tuple', 0, [Sym(eng.F('abortHandle', [V], V)(t), fs[0]), Sym(eng.F('abortReg', [V], V)(t), fs[1])]))
    eng.emit(st, name, content(eng, st, info.args[0]))
    return ret(eng, st, UNIT if name == 'abort' else eng.fresh_val(st, info.dest, 'aborted'))


# ------------------------------------------------------------------------------ sequences
def empty_seq(eng, tid):
    a = [x for x in ty(eng, tid)['args'] if isinstance(x, int)]
    return Obj('Seq', seq=z3.Empty(SeqV), etid=a[0], tid=tid)


def empty_map(eng, tid):
    a = [x for x in ty(eng, tid)['args'] if isinstance(x, int)]
    isset = ty(eng, tid)['path'].endswith('Set')
    return Obj('Map', dom=z3.K(V, z3.BoolVal(False)), val=z3.K(V, z3.Const('novalue', V)), ktid=a[0], vtid=None if isset else a[1], tid=tid)


@contract(r'(VecDeque|vec::Vec)::<T(, A)?>::(new|with_capacity)$', r'Vec(Deque)?<T(, A)?> as core::default::Default>::default$')
def c_seq_new(eng, st, info):
    """the empty sequence"""
    e = [x for x in ty(eng, info.dest)['args'] if isinstance(x, int)][0]
    if is_future_type(eng, e):
        return ret(eng, st, Obj('FU', n=z3.IntVal(0), outs=z3.Empty(SeqV)))
    return ret(eng, st, empty_seq(eng, info.dest))


def is_future_type(eng, tid):
    """a coroutine or a boxed future: a collection of these is run as a set of futures, each at the moment it is put in"""
    t = eng.P.t(tid)
    if t['k'] == 'coroutine':
        return eng.P.bodies.get(t['key']) is not None
    return t.get('path', '').endswith('pin::Pin') and 'dyn futures::Future' in t['s'] or t['s'].startswith('std::pin::Pin<std::boxed::Box<dyn std::future::Future')


@contract(r'(VecDeque|vec::Vec)::<T, A>::(push_back|push|push_front)$')
def c_push(eng, st, info):
    """appends / prepends the element"""
    c, p = eng.deref(st, info.args[0])
    o = eng.load(st, c, p)
    if isinstance(o, Obj) and o.kind == 'FU':
        if info.callee['name'] == 'push_front':
            raise Unsupported('futures put in front')
        return fu_push(eng, st, c, p, info.args[1], [x for x in info.callee['args'] if isinstance(x, int)][0])
    c, p, s = coll(eng, st, info.args[0], as_seq)
    u = z3.Unit(eng.term(st, info.args[1]))
    ns = z3.Concat(u, s.seq) if info.callee['name'] == 'push_front' else z3.Concat(s.seq, u)
    eng.store(st, c, p, s.with_(seq=ns))
    eng.emit(st, 'push', Ref(c, p), info.args[1])
    return ret(eng, st, UNIT)


def seq_pop(eng, st, s, front=True):
    """[(state, None | (value, rest))] for taking one element"""
    n = z3.Length(s.seq)
    out = []
    for st2, emp in eng.branch(st, s.seq == z3.Empty(SeqV)):
        if emp:
            out.append((st2, None))
            continue
        h = eng.fresh('elem')
        r = eng.fresh('rest', SeqV)
        eng.assume(st2, s.seq == (z3.Concat(z3.Unit(h), r) if front else z3.Concat(r, z3.Unit(h))))
        out.append((st2, (eng.from_term(st2, h, s.etid), s.with_(seq=r))))
    return out


@contract(r'(VecDeque|vec::Vec)::<T, A>::(pop_front|pop_back|pop)$')
def c_pop(eng, st, info):
    """removes the first / last element, None when empty"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    out = []
    for st2, r in seq_pop(eng, st, s, info.callee['name'] == 'pop_front'):
        if r is None:
            eng.emit(st2, 'pop_empty', Ref(c, p))
            out += ret(eng, st2, none(eng, info.dest))
        else:
            eng.store(st2, c, p, r[1])
            eng.emit(st2, 'popped', Ref(c, p), r[0])
            out += ret(eng, st2, some(eng, info.dest, r[0]))
    return out


def bounds(eng, st, rng, n):
    """[(state, lo, hi)] of an index range into n elements; (state, None, None) where it is out of bounds"""
    if not isinstance(rng, Agg):
        raise Unsupported('this kind of range')
    k = rng.path.split('::')[-1]
    f = [zi(x.e) if isinstance(x, I) else None for x in rng.fields]
    if k == 'Range' and len(f) == 2:
        lo, hi = f
    elif k == 'RangeTo':
        lo, hi = z3.IntVal(0), f[0]
    elif k == 'RangeFrom':
        lo, hi = f[0], n
    else:
        raise Unsupported('range ' + k)
    if lo is None or hi is None:
        raise Unsupported('range of an unknown number')
    return [(s, lo, hi) if ok else (s, None, None) for s, ok in eng.branch(st, z3.And(lo <= hi, hi <= n))]


@contract(r'vec::Vec::<T, A>::split_off$', r'VecDeque::<T, A>::split_off$')
def c_split_off(eng, st, info):
    """the elements from there on, which are taken out"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    at, n = zi(info.args[1].e), z3.Length(s.seq)
    out = []
    for st2, ok in eng.branch(st, at <= n):
        if not ok:
            eng.emit(st2, 'panic', info.path)
            out += eng.deliver(st2, 'panic', Sym(eng.fresh('panic'), None))
            continue
        eng.store(st2, c, p, s.with_(seq=z3.Extract(s.seq, z3.IntVal(0), at)))
        out += ret(eng, st2, s.with_(seq=z3.Extract(s.seq, at, n - at), tid=info.dest))
    return out


@contract(r'^alloc::slice::<impl \[T\]>::to_vec$')
def c_to_vec(eng, st, info):
    """the same elements"""
    _, _, s = coll(eng, st, info.args[0], as_seq)
    return ret(eng, st, s.with_(tid=info.dest))


@contract(r'(VecDeque|vec::Vec)::<T, A>::drain$')
def c_drain(eng, st, info):
    """drain(..): the iterator owns all elements, the sequence is left empty"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    rng = info.args[1] if len(info.args) > 1 else None
    full = rng is None or (isinstance(rng, (Agg, Sym)) and 'RangeFull' in (getattr(rng, 'path', '') or (ty(eng, rng.tid)['s'] if rng.tid is not None else '')))
    if not full:
        out = []
        for st2, lo, hi in bounds(eng, st, rng, z3.Length(s.seq)):
            if lo is None:
                eng.emit(st2, 'panic', info.path)
                out += eng.deliver(st2, 'panic', Sym(eng.fresh('panic'), None))
                continue
            n = z3.Length(s.seq)
            eng.store(st2, c, p, s.with_(seq=z3.simplify(z3.Concat(z3.Extract(s.seq, z3.IntVal(0), lo), z3.Extract(s.seq, hi, n - hi)))))
            out += ret(eng, st2, Obj('SeqIter', rem=z3.simplify(z3.Extract(s.seq, lo, hi - lo)), etid=s.etid, byref=None))
        return out
    eng.store(st, c, p, s.with_(seq=z3.Empty(SeqV)))
    return ret(eng, st, Obj('SeqIter', rem=s.seq, etid=s.etid, byref=None))


@contract(r'(VecDeque|vec::Vec)::<T, A>::(len|is_empty|clear|truncate)$', r'^core::slice::<impl \[T\]>::(len|is_empty)$')
def c_seq_len(eng, st, info):
    """length"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    n = info.callee['name']
    if n == 'len':
        eng.axiom(z3.Length(s.seq) < 2 ** 63)
        return ret(eng, st, I(z3.Length(s.seq)))
    if n == 'is_empty':
        return ret(eng, st, B(s.seq == z3.Empty(SeqV)))
    if n == 'clear':
        eng.store(st, c, p, s.with_(seq=z3.Empty(SeqV)))
        return ret(eng, st, UNIT)
    if n == 'truncate':
        k = zi(info.args[1].e)
        eng.store(st, c, p, s.with_(seq=z3.If(k < z3.Length(s.seq), z3.Extract(s.seq, z3.IntVal(0), k), s.seq)))
        return ret(eng, st, UNIT)
    raise Unsupported('seq ' + n)


@contract(r'Vec(Deque)?<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$')
def c_into_iter(eng, st, info):
    """yields the elements in order"""
    if isinstance(info.args[0], Ref):
        return c_seq_iter(eng, st, info)
    s = as_seq(eng, st, info.args[0])
    return ret(eng, st, Obj('SeqIter', rem=s.seq, etid=s.etid, byref=None))


@contract(r'(VecDeque|vec::Vec)::<T, A>::(iter|iter_mut)$', r'^core::slice::<impl \[T\]>::(iter|iter_mut)$', r'^<&.*Vec(Deque)?<T, A> as core::iter::traits::collect::IntoIterator>::into_iter$')
def c_seq_iter(eng, st, info):
    """yields references to the elements in order"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    return ret(eng, st, Obj('SeqRefIter', cell=c, path=tuple(p), pos=z3.IntVal(0), etid=s.etid))


@contract(r'Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$')
def c_vec_deref(eng, st, info):
    """the vector as a slice"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    return ret(eng, st, Ref(c, p))


def range_of(eng, st, v, n):
    """(low, high) of a range value over a sequence of length n, None when it is a plain index"""
    v = content(eng, st, v)
    if isinstance(v, I):
        return None
    t = ty(eng, v.tid) if getattr(v, 'tid', None) is not None else None
    path = t['path'] if t else getattr(v, 'path', '')
    k = path.rsplit('::', 1)[-1]

    def f(i):
        x = v.fields[i] if isinstance(v, Agg) else eng.field_of(st, v, None, i, t['variants'][0]['fields'][i][1])
        return zi(x.e)
    if k == 'Range':
        return f(0), f(1)
    if k == 'RangeFrom':
        return f(0), n
    if k == 'RangeTo':
        return z3.IntVal(0), f(0)
    if k == 'RangeFull':
        return z3.IntVal(0), n
    if k == 'RangeToInclusive':
        return z3.IntVal(0), f(0) + 1
    raise Unsupported('range ' + path)


def in_range(r, s):
    return z3.And(r[0] >= 0, r[0] <= r[1], r[1] <= z3.Length(s.seq))


def subseq(eng, st, s, r):
    """a (read only) reference to the part of the sequence"""
    x = s.seq if r[0].eq(z3.IntVal(0)) and z3.simplify(r[1] == z3.Length(s.seq)).eq(z3.BoolVal(True)) else z3.SubSeq(s.seq, r[0], r[1] - r[0])
    return Ref(eng.alloc(st, Obj('Seq', seq=x, etid=s.etid, tid=None)))


@contract(r'Vec(Deque)?<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$', r'^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$')
def c_vec_index(eng, st, info):
    """the element; panics when out of range"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    i = info.args[1]
    r = range_of(eng, st, i, z3.Length(s.seq))
    if r is not None and info.callee['name'] == 'index_mut':
        raise Unsupported('mutable range index')
    out = []
    for st2, ok in eng.branch(st, z3.And(zi(i.e) >= 0, zi(i.e) < z3.Length(s.seq)) if r is None else in_range(r, s)):
        if ok:
            out += ret(eng, st2, Ref(c, tuple(p) + (('idx', zi(i.e), s.etid),)) if r is None else subseq(eng, st2, s, r))
        else:
            eng.emit(st2, 'panic', 'index out of bounds')
            out += eng.deliver(st2, 'panic', Sym(eng.fresh('panic'), None))
    return out


@contract(r'^core::slice::<impl \[T\]>::(get|get_mut|first|last)$', r'(VecDeque|vec::Vec)::<T, A>::(get|get_mut|front|back)$')
def c_vec_get(eng, st, info):
    """Some(element) when in range"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    n = info.callee['name']
    if n.startswith('get'):
        r = range_of(eng, st, info.args[1], z3.Length(s.seq))
        if r is not None:
            if n != 'get':
                raise Unsupported('mutable range')
            out = []
            for st2, ok in eng.branch(st, in_range(r, s)):
                out += ret(eng, st2, some(eng, info.dest, subseq(eng, st2, s, r)) if ok else none(eng, info.dest))
            return out
        i = zi(info.args[1].e)
    elif n in ('first', 'front'):
        i = z3.IntVal(0)
    else:
        i = z3.Length(s.seq) - 1
    out = []
    for st2, ok in eng.branch(st, z3.And(i >= 0, i < z3.Length(s.seq))):
        if ok:
            out += ret(eng, st2, some(eng, info.dest, Ref(c, tuple(p) + (('idx', i, s.etid),))))
        else:
            out += ret(eng, st2, none(eng, info.dest))
    return out


@contract(r'Vec(Deque)?<T, A> as core::iter::traits::collect::Extend<.*>>::extend$', r'(VecDeque|vec::Vec)::<T, A>::(extend_from_slice|append)$')
def c_extend(eng, st, info):
    """appends the elements in order (of a sequence or a reference to one; append leaves the other one empty)"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    a = info.args[1]
    v = content(eng, st, a)
    if isinstance(v, Obj) and v.kind == 'SeqIter':
        o = Obj('Seq', seq=v.rem, etid=v.etid, tid=None)
    else:
        o = as_seq(eng, st, v, s.etid)
    if info.callee['name'] == 'append':
        c2, p2, _ = coll(eng, st, a, as_seq)
        eng.store(st, c2, p2, o.with_(seq=z3.Empty(SeqV)))
    eng.store(st, c, p, s.with_(seq=z3.Concat(s.seq, o.seq)))
    return ret(eng, st, UNIT)


@contract(r'^core::slice::<impl \[T\]>::(split_first|split_last|to_vec|to_owned|starts_with|split_at|split_at_checked)$')
def c_slice(eng, st, info):
    """parts and copies of a sequence"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    n = z3.Length(s.seq)
    name = info.callee['name']
    if name in ('to_vec', 'to_owned'):
        return ret(eng, st, s.with_(tid=info.dest))
    if name in ('split_first', 'split_last'):
        out = []
        tt = field_tid(eng, info.dest, 'Some')
        for st2, ok in eng.branch(st, n > 0):
            if not ok:
                out += ret(eng, st2, none(eng, info.dest))
                continue
            i = z3.IntVal(0) if name == 'split_first' else n - 1
            r = (z3.IntVal(1), n) if name == 'split_first' else (z3.IntVal(0), n - 1)
            out += ret(eng, st2, some(eng, info.dest, Agg('tuple', 0, [Ref(c, tuple(p) + (('idx', i, s.etid),)), subseq(eng, st2, s, r)], tt)))
        return out
    if name in ('split_at', 'split_at_checked'):
        m = zi(info.args[1].e)
        out = []
        for st2, ok in eng.branch(st, z3.And(m >= 0, m <= n)):
            if not ok:
                if name == 'split_at':
                    eng.emit(st2, 'panic', 'split_at')
                    out += eng.deliver(st2, 'panic', Sym(eng.fresh('panic'), None))
                else:
                    out += ret(eng, st2, none(eng, info.dest))
                continue
            tt = info.dest if name == 'split_at' else field_tid(eng, info.dest, 'Some')
            pr = Agg('tuple', 0, [subseq(eng, st2, s, (z3.IntVal(0), m)), subseq(eng, st2, s, (m, n))], tt)
            out += ret(eng, st2, pr if name == 'split_at' else some(eng, info.dest, pr))
        return out
    raise Unsupported('slice ' + name)


# ------------------------------------------------------------------------------ bytes
@contract(r'^core::num::<impl u(8|16|32|64|128|size)>::(to|from)_(le|be|ne)_bytes$')
def c_int_bytes(eng, st, info):
    """to_xx_bytes and from_xx_bytes are inverse to each other; the array has the width of the integer"""
    m = re.search(r'impl u(\w+)>::(to|from)_(\w\w)_bytes', info.path)
    bits = 64 if m.group(1) == 'size' else int(m.group(1))
    end = 'le' if m.group(3) == 'ne' else m.group(3)
    n = bits // 8
    enc, dec = eng.F(f'{end}{bits}', [z3.IntSort()], SeqV), eng.F(f'un{end}{bits}', [SeqV], z3.IntSort())
    if m.group(2) == 'to':
        x = zi(info.args[0].e)
        s = enc(x)
        eng.axiom(z3.Implies(z3.And(x >= 0, x < 2 ** bits), z3.And(z3.Length(s) == n, dec(s) == x)))
        if n == 1:
            eng.axiom(s == z3.Unit(eng.term(st, I(x, 8, False))))
        return ret(eng, st, Obj('Seq', seq=s, etid=ty(eng, info.dest)['elem'], tid=info.dest))
    s = as_seq(eng, st, content(eng, st, info.args[0])).seq
    x = dec(s)
    eng.axiom(z3.And(x >= 0, x < 2 ** bits))
    eng.axiom(z3.Implies(z3.Length(s) == n, enc(x) == s))
    if n == 1:
        eng.axiom(z3.Implies(z3.Length(s) == 1, x == eng.F('intOf', [V], z3.IntSort())(s[0])))
    return ret(eng, st, I(x, bits, False))


@contract(r'^core::array::<impl core::convert::TryFrom<&\[T\]> for \[T; N\]>::try_from$', r'^core::array::<impl core::convert::TryFrom<&.*\[T\]> for &.*\[T; N\]>::try_from$',
          r'^core::slice::<impl \[T\]>::(first_chunk|as_array)$')
def c_array_from_slice(eng, st, info):
    """the same elements as an array of length N; Err / None exactly when the length is not N (first_chunk: is shorter)"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    ok = 'Ok' if ty(eng, info.dest)['path'].endswith('Result') else 'Some'
    at = field_tid(eng, info.dest, ok)
    isref = ty(eng, at)['k'] == 'ref'
    t = ty(eng, ty(eng, at)['to'] if isref else at)
    n = array_len(t)
    chunk = info.callee['name'] == 'first_chunk'
    out = []
    for st2, y in eng.branch(st, z3.Length(s.seq) >= n if chunk else z3.Length(s.seq) == n):
        if not y:
            out += ret(eng, st2, none(eng, info.dest) if ok == 'Some' else variant(eng, info.dest, 'Err', Sym(eng.fresh('TryFromSliceError'), field_tid(eng, info.dest, 'Err'))))
            continue
        v = Obj('Seq', seq=z3.SubSeq(s.seq, 0, n) if chunk else s.seq, etid=s.etid, tid=None if isref else at)
        out += ret(eng, st2, variant(eng, info.dest, ok, Ref(eng.alloc(st2, v)) if isref else v))
    return out


@contract(r'^core::slice::<impl \[T\]>::(split_first_chunk|split_last_chunk|last_chunk)$')
def c_chunk(eng, st, info):
    """the first (last) N elements as an array, and what is left; None exactly when there are fewer"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    name = info.callee['name']
    tt = field_tid(eng, info.dest, 'Some')
    pair = name != 'last_chunk'
    at = tt if not pair else ty(eng, tt)['fields'][0 if name == 'split_first_chunk' else 1]
    n, m = array_len(ty(eng, ty(eng, at)['to'])), z3.Length(s.seq)
    out = []
    for st2, y in eng.branch(st, m >= n):
        if not y:
            out += ret(eng, st2, none(eng, info.dest))
            continue
        cut = z3.IntVal(n) if name == 'split_first_chunk' else m - n
        a, b = (subseq(eng, st2, s, r) for r in ((z3.IntVal(0), cut), (cut, m)))
        out += ret(eng, st2, some(eng, info.dest, b if not pair else Agg('tuple', 0, [a, b], tt)))
    return out


@contract(r'^core::slice::<impl \[T\]>::(copy_from_slice|clone_from_slice)$')
def c_copy_from_slice(eng, st, info):
    """a whole array takes the elements of the other; panics when they are not as many"""
    c, p = eng.deref(st, info.args[0])
    d = eng.load(st, c, p)
    if not (isinstance(d, Agg) and d.path == 'array' or isinstance(d, Obj) and d.kind == 'Seq' and d.tid is not None and ty(eng, d.tid)['k'] == 'array'):
        raise Unsupported('a copy into a part of a sequence')
    d = as_seq(eng, st, d)
    s = as_seq(eng, st, content(eng, st, info.args[1]))
    out = []
    for st2, ok in eng.branch(st, z3.Length(d.seq) == z3.Length(s.seq)):
        if not ok:
            eng.emit(st2, 'panic', 'copy_from_slice')
            out += eng.deliver(st2, 'panic', Sym(eng.fresh('panic'), None))
            continue
        eng.store(st2, c, p, d.with_(seq=s.seq, etid=s.etid))
        out += ret(eng, st2, UNIT)
    return out


def array_len(t):
    if not isinstance(t.get('len'), int):
        raise Unsupported('array length of ' + t['s'])
    return t['len']


@contract(r'^core::str::<impl str>::(as_bytes|len|is_empty)$', r'^alloc::string::String::(into_bytes|as_bytes|len|is_empty)$')
def c_str_bytes(eng, st, info):
    """the UTF-8 bytes of the text"""
    v = content(eng, st, info.args[0])
    s = str_bytes(eng, st, v)
    n = info.callee['name']
    if n == 'len':
        return ret(eng, st, I(z3.Length(s)))
    if n == 'is_empty':
        return ret(eng, st, B(s == z3.Empty(SeqV)))
    if n == 'into_bytes':
        a = [x for x in ty(eng, info.dest)['args'] if isinstance(x, int)]
        return ret(eng, st, Obj('Seq', seq=s, etid=a[0], tid=info.dest))
    return ret(eng, st, Ref(eng.alloc(st, Obj('Seq', seq=s, etid=ty(eng, ty(eng, info.dest)['to'])['elem'], tid=None))))


def str_bytes(eng, st, v):
    t = eng.term(st, text_of(eng, st, v))
    s = eng.F('utf8', [V], SeqV)(t)
    eng.axiom(z3.Length(s) < 2 ** 63)
    eng.axiom(eng.F('isUtf8', [SeqV], z3.BoolSort())(s))
    eng.axiom(eng.F('fromUtf8', [SeqV], V)(s) == t)
    return s


@contract(r'^core::str::converts::from_utf8$', r'^alloc::string::String::from_utf8$')
def c_from_utf8(eng, st, info):
    """Ok(the text with these bytes) exactly when they are valid UTF-8"""
    s = as_seq(eng, st, content(eng, st, info.args[0])).seq
    out = []
    for st2, ok in eng.branch(st, eng.F('isUtf8', [SeqV], z3.BoolSort())(s)):
        if not ok:
            out += ret(eng, st2, variant(eng, info.dest, 'Err', Sym(eng.fresh('Utf8Error'), field_tid(eng, info.dest, 'Err'))))
            continue
        t = eng.F('fromUtf8', [SeqV], V)(s)
        eng.axiom(z3.Implies(eng.F('isUtf8', [SeqV], z3.BoolSort())(s), eng.F('utf8', [V], SeqV)(t) == s))
        ot = field_tid(eng, info.dest, 'Ok')
        v = Sym(t, ty(eng, ot)['to'] if ty(eng, ot)['k'] == 'ref' else ot)
        out += ret(eng, st2, variant(eng, info.dest, 'Ok', Ref(eng.alloc(st2, v)) if ty(eng, ot)['k'] == 'ref' else v))
    return out


@contract(r'(VecDeque|vec::Vec)::<T, A>::(swap_remove|remove)$')
def c_vec_remove(eng, st, info):
    """removes the element at the index"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    i = zi(info.args[1].e)
    n = z3.Length(s.seq)
    out = []
    for st2, ok in eng.branch(st, z3.And(i >= 0, i < n)):
        if not ok:
            if 'VecDeque' in info.path:
                out += ret(eng, st2, none(eng, info.dest))
            else:
                out += eng.deliver(st2, 'panic', Sym(eng.fresh('panic'), None))
            continue
        e = eng.from_term(st2, s.seq[i], s.etid)
        if info.callee['name'] == 'swap_remove':
            ns = z3.If(i == n - 1, z3.SubSeq(s.seq, 0, n - 1), z3.Concat(z3.SubSeq(s.seq, 0, i), z3.Unit(s.seq[n - 1]), z3.SubSeq(s.seq, i + 1, n - i - 2)))
        else:
            ns = z3.Concat(z3.SubSeq(s.seq, 0, i), z3.SubSeq(s.seq, i + 1, n - i - 1))
        eng.store(st2, c, p, s.with_(seq=ns))
        out += ret(eng, st2, some(eng, info.dest, e) if 'VecDeque' in info.path else e)
    return out


@contract(r'Drain<.*as core::iter::traits::iterator::Iterator>::next$', r'(into_iter|vec|hash::map|slice::iter|hash::set).*as core::iter::traits::iterator::Iterator>::next$',
          r'hash::.*(IntoIter|Iter|Keys|Values|IterMut|ValuesMut|IntoKeys|IntoValues)<.*as core::iter::traits::iterator::Iterator>::next$')
def c_iter_next(eng, st, info):
    """the next element, None at the end"""
    c, p = eng.deref(st, info.args[0])
    it = eng.load(st, c, p)
    n = 0
    while isinstance(it, (Ref, BoxV)) and n < 4:
        c, p = eng.deref(st, it)
        it = eng.load(st, c, p)
        n += 1
    return iter_next(eng, st, it, c, p, info.dest)


def iter_next(eng, st, it, c, p, dest):
    out = []
    if isinstance(it, Sym) and it.tid is not None and re.search(r'^alloc::(vec::into_iter::IntoIter|vec::drain::Drain|collections::vec_deque::(into_iter::IntoIter|drain::Drain))$', ty(eng, it.tid).get('path', '')):
        s = as_seq(eng, st, it)      # what is left of it
        it = Obj('SeqIter', rem=s.seq, etid=s.etid, byref=None)
        eng.store(st, c, p, it)
    if not isinstance(it, Obj):
        raise Unsupported(f'iterator {it!r}'[:120])
    if it.kind == 'SeqIter':
        for st2, r in seq_pop(eng, st, Obj('Seq', seq=it.rem, etid=it.etid)):
            if r is None:
                eng.emit(st2, 'seq_end')
                out += ret(eng, st2, none(eng, dest))
            else:
                eng.store(st2, c, p, it.with_(rem=r[1].seq))
                eng.emit(st2, 'seq_next', r[0])
                out += ret(eng, st2, some(eng, dest, r[0]))
        return out
    if it.kind == 'SeqRefIter':
        s = as_seq(eng, st, eng.load(st, it.cell, it.path))
        for st2, more in eng.branch(st, it.pos < z3.Length(s.seq)):
            if not more:
                eng.emit(st2, 'seq_end', Ref(it.cell, it.path))
                out += ret(eng, st2, none(eng, dest))
            else:
                eng.store(st2, c, p, it.with_(pos=z3.simplify(it.pos + 1)))
                eng.emit(st2, 'seq_next', Ref(it.cell, it.path + (('idx', it.pos, it.etid),)))
                out += ret(eng, st2, some(eng, dest, Ref(it.cell, it.path + (('idx', it.pos, it.etid),))))
        return out
    if it.kind == 'MapIter':
        for st2, emp in eng.branch(st, it.dom == z3.K(V, z3.BoolVal(False))):
            if emp:
                eng.emit(st2, 'iter_end')
                out += ret(eng, st2, none(eng, dest))
                continue
            k = eng.fresh('key')
            eng.assume(st2, z3.Select(it.dom, k))
            eng.store(st2, c, p, it.with_(dom=z3.Store(it.dom, k, z3.BoolVal(False))))
            kv = eng.from_term(st2, k, it.ktid)
            eng.iter_mode = it.mode
            eng.emit(st2, 'iter_next', kv, *([] if it.vtid is None else [eng.from_term(st2, z3.Select(it.val, k), it.vtid)]))
            if it.mode == 'drain':
                if it.vtid is None:
                    item = kv
                else:
                    vv = eng.from_term(st2, z3.Select(it.val, k), it.vtid)
                    item = Agg('tuple', 0, [kv, vv])
            elif it.mode == 'keys':
                item = Ref(eng.alloc(st2, kv))
            elif it.mode == 'ownkeys':
                item = kv
            elif it.mode == 'ownvalues':
                item = eng.from_term(st2, z3.Select(it.val, k), it.vtid)
            else:
                vref = Ref(it.cell, it.path + (('mapval', k, it.vtid),))
                item = vref if it.mode in ('values', 'values_mut') else Agg('tuple', 0, [Ref(eng.alloc(st2, kv)), vref])
            out += ret(eng, st2, some(eng, dest, item))
        return out
    if it.kind == 'Repeat':
        for st2, more in eng.branch(st, it.n > 0):
            if more:
                eng.store(st2, c, p, it.with_(n=z3.simplify(it.n - 1)))
                out += ret(eng, st2, some(eng, dest, eng.clone_val(st2, it.v)))
            else:
                out += ret(eng, st2, none(eng, dest))
        return out
    raise Unsupported('iterator ' + it.kind)


# ------------------------------------------------------------------------------ maps
@contract(r'Hash(Map|Set)(::|<).*(::new$|Default>::default$)', r'hash::(map::HashMap|set::HashSet)::<.*>::(new|with_capacity)$')
def c_map_new(eng, st, info):
    """the empty map"""
    return ret(eng, st, empty_map(eng, info.dest))


@contract(r'HashMap::<K, V, S, A>::(insert|remove|get|get_mut|contains_key|remove_entry)$', r'HashSet::<T, S, A>::(insert|remove|contains)$')
def c_map_op(eng, st, info):
    """finite-map update / lookup"""
    n = info.callee['name']
    c, p, m = coll(eng, st, info.args[0], as_map)
    isset = m.vtid is None
    k = eng.term(st, info.args[1]) if n == 'insert' else cterm(eng, st, info.args[1])
    has = z3.Select(m.dom, k)
    eng.emit(st, 'map_' + n, Sym(k, m.ktid), Ref(c, p), *info.args[2:])
    if n in ('contains_key', 'contains'):
        return ret(eng, st, B(has))
    out = []
    for s, present in eng.branch(st, has):
        old = None if isset else z3.Select(m.val, k)
        if n == 'insert':
            nm = m.with_(dom=z3.Store(m.dom, k, z3.BoolVal(True)))
            if not isset:
                nm = nm.with_(val=z3.Store(m.val, k, eng.term(s, info.args[2])))
            eng.store(s, c, p, nm)
            if isset:
                out += ret(eng, s, B(not present))
                continue
        elif n in ('remove', 'remove_entry'):
            eng.store(s, c, p, m.with_(dom=z3.Store(m.dom, k, z3.BoolVal(False))))
            if isset:
                out += ret(eng, s, B(present))
                continue
        if not present:
            out += ret(eng, s, none(eng, info.dest))
        elif n in ('get', 'get_mut'):
            out += ret(eng, s, some(eng, info.dest, Ref(c, tuple(p) + (('mapval', k, m.vtid),))))
        else:
            out += ret(eng, s, some(eng, info.dest, eng.from_term(s, old, m.vtid)))
    return out


@contract(r'HashMap::<K, V, S, A>::(drain|into_keys|into_values)$', r'HashSet::<T, S, A>::drain$', r'^<std::collections::hash::(map::HashMap|set::HashSet)<.*IntoIterator>::into_iter$')
def c_map_drain(eng, st, info):
    """yields every entry once, in any order; drain leaves the map empty"""
    n = info.callee['name']
    if n == 'drain':
        c, p, m = coll(eng, st, info.args[0], as_map)
        eng.store(st, c, p, m.with_(dom=z3.K(V, z3.BoolVal(False))))
        mode = 'drain'
    else:
        m = as_map(eng, st, info.args[0])
        mode = {'into_keys': 'ownkeys', 'into_values': 'ownvalues'}.get(n, 'drain')
    eng.emit(st, 'map_' + n, m)
    return ret(eng, st, Obj('MapIter', dom=m.dom, val=m.val, ktid=m.ktid, vtid=m.vtid, mode=mode, cell=None, path=()))


@contract(r'HashMap::<K, V, S, A>::(iter|iter_mut|keys|values|values_mut)$', r'HashSet::<T, S, A>::iter$', r'^<&.*std::collections::hash::(map::HashMap|set::HashSet)<.*IntoIterator>::into_iter$')
def c_map_iter(eng, st, info):
    """yields every entry once, in any order"""
    n = info.callee['name']
    c, p, m = coll(eng, st, info.args[0], as_map)
    mode = n
    if m.vtid is None:
        mode = 'keys'
    if n == 'into_iter':
        mode = 'iter' if m.vtid is not None else 'keys'
    eng.emit(st, 'map_iter', m)
    return ret(eng, st, Obj('MapIter', dom=m.dom, val=m.val, ktid=m.ktid, vtid=m.vtid, mode=mode, cell=c, path=tuple(p)))


@contract(r'Hash(Map|Set)::<.*>::(len|is_empty|clear)$')
def c_map_len(eng, st, info):
    """number of entries"""
    c, p, m = coll(eng, st, info.args[0], as_map)
    n = info.callee['name']
    if n == 'is_empty':
        return ret(eng, st, B(m.dom == z3.K(V, z3.BoolVal(False))))
    if n == 'clear':
        eng.store(st, c, p, m.with_(dom=z3.K(V, z3.BoolVal(False))))
        return ret(eng, st, UNIT)
    e = eng.F('card', [DomV], z3.IntSort())(m.dom)
    eng.axiom(e >= 0)
    eng.axiom((e == 0) == (m.dom == z3.K(V, z3.BoolVal(False))))
    return ret(eng, st, I(e))


# ------------------------------------------------------------------------------ whole iterators
class PyFn(Val):
    """a step of the verifier itself (the loop inside a library function), opaque to the code"""

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return 'step'


@contract(r'^kmv::step$')
def c_step(eng, st, info):
    """one step of a library loop"""
    f = info.args[0]
    return f.fn(eng, st)


def drive(eng, st, label, step, after):
    """runs step (which delivers B(done)) until it is done, as a loop verified by invariant; then after(eng, st)"""
    key = 'kmv::loop:' + label
    if key not in eng.P.bodies:
        bt = next(i for i, t in enumerate(eng.P.types) if t['k'] == 'bool' or t['s'] == 'bool')
        u = eng.unit_tid()
        fn = ['c', ['fn', {'path': 'kmv::step', 'name': 'step', 'crate': 'kmv', 'args': [], 'ctor': False, 'res': {'kind': 'item', 'path': 'kmv::step', 'key': None, 'args': [], 'crate': 'kmv'}}, u]]
        eng.P.bodies[key] = {'argc': 1, 'args': [], 'coroutine': False, 'crate': 'kmv', 'kind': 'Fn', 'name': label, 'names': {}, 'path': key, 'phase': '', 'promoted': [], 'spread': None,
                             'locals': [u, u, bt], 'blocks': [
                                 {'c': False, 'l': '', 's': [], 't': ['goto', 1]},
                                 {'c': False, 'l': '', 's': [], 't': ['call', fn, [['cp', [1, []]]], [2, []], 2, 'continue', bt, [u]]},
                                 {'c': False, 'l': '', 's': [], 't': ['switch', ['mv', [2, []]], [['0', 1]], 3, bt]},
                                 {'c': False, 'l': '', 's': [['=', [0, []], ['use', ['c', ['zst', None, u]]]]], 't': ['return']}]}

    def k(s, kind, r):
        if kind != 'ret':
            return eng.deliver(s, kind, r)
        return after(eng, s)
    eng.push_cont(st, k, 'loop')
    eng.push_fn(st, key, [PyFn(step)])
    return [st]


def each_item(eng, st, info, it, on_item, after, label=None):
    """every item of iterator value `it` in turn through on_item(eng, st, item) (delivers B(stop)); then after(eng, st)"""
    d = info.callee.get('iter') if isinstance(info, CallInfo) else info
    if d is None:
        raise Unsupported('how this iterator steps is not known')
    at = it if isinstance(it, Ref) else Ref(eng.alloc(st, it))

    def step(eng, s):
        def k(s2, kind, r):
            if kind != 'ret':
                return eng.deliver(s2, kind, r)
            t = eng.P.t(d['opt'])
            if isinstance(r, Agg):
                if r.variant == 0:
                    return ret(eng, s2, B(True))
                return on_item(eng, s2, r.fields[0])
            out = []
            for s3, nothing in eng.branch(s2, eng.discriminant(s2, r) == 0):
                out += ret(eng, s3, B(True)) if nothing else on_item(eng, s3, eng.field_of(s3, r, 1, 0, d['item']))
            return out
        eng.push_cont(s, k, 'next')
        return eng.call_callee(s, d['next'], [at], d['opt'], None)
    return drive(eng, st, label or (info.path if isinstance(info, CallInfo) else 'iter'), step, after)


@contract(r'(VecDeque|vec::Vec)<T(, A)?> as core::iter::traits::collect::FromIterator<.*>>::from_iter$', r'^core::iter::traits::collect::FromIterator::from_iter$')
def c_from_iter(eng, st, info):
    """the items, in order"""
    t = ty(eng, info.dest) if info.dest is not None else {}
    if t.get('path', '').endswith('FuturesUnordered'):
        fu = eng.alloc(st, Obj('FU', n=z3.IntVal(0)))
        out = [a for a in t['args'] if isinstance(a, int)][0]

        def on_fut(eng, s, x):
            def k(s2, kind, r):
                return ret(eng, s2, B(False)) if kind == 'ret' else eng.deliver(s2, kind, r)
            eng.push_cont(s, k, 'fu')
            return fu_push(eng, s, fu, (), x, out)
        return each_item(eng, st, info, info.args[0], on_fut, lambda eng, s: ret(eng, s, eng.load(s, fu)))
    if not t.get('path', '').endswith(('vec::Vec', 'VecDeque')):
        raise Unsupported('collect into ' + t.get('s', '?')[:60])
    cell = eng.alloc(st, empty_seq(eng, info.dest))

    def on_item(eng, s, x):
        v = eng.load(s, cell)
        eng.emit(s, 'collected', x)
        eng.store(s, cell, (), v.with_(seq=z3.Concat(v.seq, z3.Unit(eng.term(s, x)))))
        return ret(eng, s, B(False))

    def end(eng, s):
        v = eng.load(s, cell)
        eng.emit(s, 'collect_end', v)
        return ret(eng, s, v)
    return each_item(eng, st, info, info.args[0], on_item, end)


@contract(r'(slice::iter|vec::into_iter|hash::map|hash::set|vec::drain).*as core::iter::traits::iterator::Iterator>::(fold|for_each)$')
def c_fold(eng, st, info):
    """as the default method of Iterator: every item in turn"""
    fold = info.callee['name'] == 'fold'
    acc = eng.alloc(st, info.args[1] if fold else UNIT)
    fc = eng.alloc(st, info.args[-1])

    def on_item(eng, s, x):
        def k(s2, kind, r):
            if kind != 'ret':
                return eng.deliver(s2, kind, r)
            eng.store(s2, acc, (), r)
            return ret(eng, s2, B(False))
        a = eng.load(s, acc)
        if fold:
            eng.store(s, acc, (), MOVED)
        eng.push_cont(s, k, 'fold')
        return eng.call_value(s, Ref(fc), ([a] if fold else []) + [x])
    return each_item(eng, st, info, info.args[0], on_item, lambda eng, s: ret(eng, s, eng.load(s, acc)))


@contract(r'(slice::iter|vec::into_iter|hash::map|hash::set|vec::drain).*as core::iter::traits::iterator::Iterator>::(position|any|all|find|find_map)$')
def c_search(eng, st, info):
    """as the default method of Iterator: asks for one item after the other until the answer is known"""
    op = info.callee['name']
    fc = eng.alloc(st, info.args[1])
    n = eng.alloc(st, I(z3.IntVal(0)))
    res = eng.alloc(st, B(op == 'all') if op in ('any', 'all') else none(eng, info.dest))

    def on_item(eng, s, x):
        def k(s2, kind, r):
            if kind != 'ret':
                return eng.deliver(s2, kind, r)
            out = []
            hit = eng.discriminant(s2, r) == 1 if op == 'find_map' else z3.Not(zb(r.e)) if op == 'all' else zb(r.e)
            for s3, yes in eng.branch(s2, hit):
                i = eng.load(s3, n)
                if not yes:
                    eng.store(s3, n, (), I(z3.simplify(zi(i.e) + 1)))
                elif op == 'position':
                    eng.store(s3, res, (), some(eng, info.dest, i))
                elif op == 'find':
                    eng.store(s3, res, (), some(eng, info.dest, x))
                elif op == 'find_map':
                    eng.store(s3, res, (), r)
                else:
                    eng.store(s3, res, (), B(op == 'any'))
                out += ret(eng, s3, B(bool(yes)))
            return out
        eng.push_cont(s, k, 'search')
        return eng.call_value(s, Ref(fc), [Ref(eng.alloc(s, x)) if op == 'find' else x])
    return each_item(eng, st, info, info.args[0], on_item, lambda eng, s: ret(eng, s, eng.load(s, res)))


@contract(r'^core::iter::traits::iterator::Iterator::(min_by|max_by)$')
def c_min_by(eng, st, info):
    """the first item none is less than / the last none is greater than, None when there is none (references to the elements of a sequence; the comparison is a total order)"""
    it = info.args[0]
    if not (isinstance(it, Obj) and it.kind == 'SeqRefIter'):
        raise Unsupported('min_by over this iterator')
    n = z3.Length(as_seq(eng, st, eng.load(st, it.cell, it.path)).seq)
    greatest = info.callee['name'] == 'max_by'
    out = []
    for st2, some_ in eng.branch(st, it.pos < n):
        if not some_:
            out += ret(eng, st2, none(eng, info.dest))
            continue
        j, o = eng.fresh('best', z3.IntSort()), eng.fresh('other', z3.IntSort())
        eng.assume(st2, z3.And(it.pos <= j, j < n, it.pos <= o, o < n))
        el = lambda i: Ref(it.cell, it.path + (('idx', i, it.etid),))

        def k(s, kind, r):
            if kind != 'ret':
                return eng.deliver(s, kind, r)
            d = eng.discriminant(s, r)
            d = z3.If(d == less(eng, r.tid), z3.IntVal(-1), d)
            eng.assume(s, z3.If(j == o, d == 0, z3.If(o < j, d > 0, d >= 0) if greatest else z3.If(o < j, d < 0, d <= 0)))
            if not eng.feasible(s, z3.BoolVal(True)):
                return []
            eng.emit(s, 'best_of', el(j), el(o))
            return ret(eng, s, some(eng, info.dest, el(j)))
        eng.push_cont(st2, k, 'cmp')
        out += eng.call_value(st2, Ref(eng.alloc(st2, info.args[1])), [Ref(eng.alloc(st2, el(j))), Ref(eng.alloc(st2, el(o)))])
    return out


def less(eng, tid):
    """the discriminant of Ordering::Less as the compiler has it"""
    d = int(ty(eng, tid)['variants'][0]['discr'])
    return d if d < 2 ** 63 else d - 2 ** 128 if d > 2 ** 64 else d


@contract(r'^core::cmp::Ord::cmp$', r' as core::cmp::Ord>::cmp$')
def c_cmp(eng, st, info):
    """integers, booleans and tuples of them: lexicographic"""
    a, b = (key_of(eng, st, content(eng, st, x)) for x in info.args)
    r = eng.fresh_val(st, info.dest, 'ord')
    d = eng.discriminant(st, r)
    eng.assume(st, d == z3.If(z3.And(*[x == y for x, y in zip(a, b)]), z3.IntVal(0), z3.If(lex_le(a, b), z3.IntVal(less(eng, info.dest)), z3.IntVal(1))))
    return ret(eng, st, r)


@contract(r'^core::iter::traits::iterator::Iterator::(min_by_key|max_by_key)$')
def c_min_by_key(eng, st, info):
    """the first item with the least key / the last with the greatest, None when there is none (references to the elements of a sequence)"""
    it = info.args[0]
    if not (isinstance(it, Obj) and it.kind == 'SeqRefIter'):
        raise Unsupported('min_by_key over this iterator')
    s0 = as_seq(eng, st, eng.load(st, it.cell, it.path))
    n = z3.Length(s0.seq)
    greatest = info.callee['name'] == 'max_by_key'
    out = []
    for st2, some_ in eng.branch(st, it.pos < n):
        if not some_:
            out += ret(eng, st2, none(eng, info.dest))
            continue
        j, o = eng.fresh('best', z3.IntSort()), eng.fresh('other', z3.IntSort())
        eng.assume(st2, z3.And(it.pos <= j, j < n, it.pos <= o, o < n))
        el = lambda i: Ref(it.cell, it.path + (('idx', i, it.etid),))
        fc = eng.alloc(st2, info.args[1])

        def k1(s, kind, kj, j=j, o=o):
            if kind != 'ret':
                return eng.deliver(s, kind, kj)

            def k2(s2, kind2, ko):
                if kind2 != 'ret':
                    return eng.deliver(s2, kind2, ko)
                a, b = key_of(eng, s2, kj), key_of(eng, s2, ko)
                le = lex_le(b, a) if greatest else lex_le(a, b)
                eng.assume(s2, le)
                # ties: the first for min, the last for max
                eng.assume(s2, z3.Implies(z3.And(*[x == y for x, y in zip(a, b)]), o <= j if greatest else j <= o))
                eng.emit(s2, 'best_of', el(j), el(o), *[I(x) for x in a], *[I(x) for x in b])
                return ret(eng, s2, some(eng, info.dest, el(j)))
            eng.push_cont(s, k2, 'key')
            return eng.call_value(s, Ref(fc), [Ref(eng.alloc(s, el(o)))])
        eng.push_cont(st2, k1, 'key')
        out += eng.call_value(st2, Ref(fc), [Ref(eng.alloc(st2, el(j)))])
    return out


def key_of(eng, st, v):
    """an ordered key (integers, booleans, tuples of them) as a list of integers"""
    if isinstance(v, I):
        return [zi(v.e)]
    if isinstance(v, B):
        return [z3.If(zb(v.e), z3.IntVal(1), z3.IntVal(0))]
    if isinstance(v, Agg) and v.path == 'tuple':
        return [x for f in v.fields for x in key_of(eng, st, f)]
    if isinstance(v, Agg) and v.path.endswith('cmp::Reverse'):
        return [-x for x in key_of(eng, st, v.fields[0])]
    t = ty(eng, v.tid) if getattr(v, 'tid', None) is not None else {}
    if t.get('path') == 'core::time::Duration':
        # seconds, then nanoseconds
        f = t['variants'][0]['fields']
        secs, nanos = eng.field_of(st, v, None, 0, f[0][1]), eng.term(st, eng.field_of(st, v, None, 1, f[1][1]))
        n = eng.F('intOf', [V], z3.IntSort())(nanos)
        eng.axiom(z3.And(n >= 0, n < 10**9))
        m = re.search(r'const:(\d+)_u32 is', str(nanos))
        if m:
            eng.axiom(n == int(m.group(1)))
        return [zi(secs.e), n]
    raise Unsupported(f'key {v!r}'[:80])


def lex_le(a, b):
    if not a:
        return z3.BoolVal(True)
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], lex_le(a[1:], b[1:])))


@contract(r'(VecDeque|vec::Vec)::<T, A>::(retain|retain_mut)$')
def c_retain(eng, st, info):
    """keeps exactly the elements the closure says true for, in order"""
    c, p, s0 = coll(eng, st, info.args[0], as_seq)
    pos = eng.alloc(st, I(z3.IntVal(0)))
    fc = eng.alloc(st, info.args[1])
    eng.emit(st, 'retain', Ref(c, p))

    def step(eng, s):
        i = zi(eng.load(s, pos).e)
        out = []
        for s2, more in eng.branch(s, z3.And(i >= 0, i < z3.Length(s0.seq))):
            if not more:
                out += ret(eng, s2, B(True))
                continue
            el = eng.alloc(s2, eng.from_term(s2, s0.seq[i], s0.etid))
            eng.store(s2, pos, (), I(z3.simplify(i + 1)))

            def k(s3, kind, r, el=el):
                if kind != 'ret':
                    return eng.deliver(s3, kind, r)
                eng.emit(s3, 'retained', Ref(el), r)
                return ret(eng, s3, B(False))
            eng.push_cont(s2, k, 'retain')
            out += eng.call_value(s2, Ref(fc), [Ref(el)])
        return out

    def after(eng, s):
        r = eng.fresh('retained', SeqV)
        eng.assume(s, z3.Length(r) <= z3.Length(s0.seq))
        eng.store(s, c, p, s0.with_(seq=r))
        eng.emit(s, 'retain_end', Ref(c, p))
        return ret(eng, s, UNIT)
    return drive(eng, st, info.path, step, after)


@contract(r'HashMap::<K, V, S, A>::retain$', r'HashSet::<T, S, A>::retain$')
def c_map_retain(eng, st, info):
    """keeps exactly the entries the closure says true for"""
    c, p, m = coll(eng, st, info.args[0], as_map)
    rest = eng.alloc(st, Obj('Dom', dom=m.dom))
    fc = eng.alloc(st, info.args[1])
    eng.emit(st, 'map_retain', Ref(c, p))

    def step(eng, s):
        d = eng.load(s, rest).dom
        out = []
        for s2, emp in eng.branch(s, d == z3.K(V, z3.BoolVal(False))):
            if emp:
                out += ret(eng, s2, B(True))
                continue
            k_ = eng.fresh('key')
            eng.assume(s2, z3.Select(d, k_))
            eng.store(s2, rest, (), Obj('Dom', dom=z3.Store(d, k_, z3.BoolVal(False))))
            kr = Ref(eng.alloc(s2, eng.from_term(s2, k_, m.ktid)))
            a = [kr] if m.vtid is None else [kr, Ref(c, tuple(p) + (('mapval', k_, m.vtid),))]
            eng.emit(s2, 'map_retain_entry', *a)

            def k(s3, kind, r, a=a):
                if kind != 'ret':
                    return eng.deliver(s3, kind, r)
                eng.emit(s3, 'map_retained', *a, r)
                return ret(eng, s3, B(False))
            eng.push_cont(s2, k, 'retain')
            out += eng.call_value(s2, Ref(fc), a)
        return out

    def after(eng, s):
        d = eng.fresh('retained', DomV)
        cur = as_map(eng, s, eng.load(s, c, p))
        eng.assume(s, set_minus(d, m.dom) == z3.K(V, z3.BoolVal(False)))
        eng.store(s, c, p, cur.with_(dom=d))
        eng.emit(s, 'map_retain_end', Ref(c, p))
        return ret(eng, s, UNIT)
    return drive(eng, st, info.path, step, after)


def default_of(eng, tid):
    t = ty(eng, tid)
    if t['k'] == 'adt':
        if t['path'].endswith(('vec::Vec', 'VecDeque')):
            return empty_seq(eng, tid)
        if t['path'].endswith(('HashMap', 'HashSet')):
            return empty_map(eng, tid)
        if t['path'].endswith('option::Option'):
            return none(eng, tid)
        if t['path'].endswith('string::String'):
            return Str('')
    if t['k'] in ('int', 'uint'):
        return I(0, t.get('bits', 64), t['k'] == 'int')
    raise Unsupported('default of ' + t['s'][:60])


@contract(r'HashMap::<K, V, S(, A)?>::entry$')
def c_entry(eng, st, info):
    """the entry of that key"""
    c, p, m = coll(eng, st, info.args[0], as_map)
    k = eng.term(st, info.args[1])
    eng.emit(st, 'map_entry', Sym(k, m.ktid), Ref(c, p))
    return ret(eng, st, Obj('Entry', cell=c, path=tuple(p), key=k, ktid=m.ktid, vtid=m.vtid, discr=z3.If(z3.Select(m.dom, k), z3.IntVal(0), z3.IntVal(1))))


@contract(r'hash::map::OccupiedEntry::<.*>::(get|get_mut|into_mut|remove|insert|key|remove_entry)$', r'hash::map::VacantEntry::<.*>::(insert|key|into_key)$')
def c_entry_enum(eng, st, info):
    """that entry of the map"""
    n = info.callee['name']
    a = info.args[0]
    e = eng.load(st, *eng.deref(st, a)) if isinstance(a, Ref) else a
    if not (isinstance(e, Obj) and e.kind == 'Entry'):
        raise Unsupported('an entry of unknown origin')
    m = as_map(eng, st, eng.load(st, e.cell, e.path))
    ref = Ref(e.cell, e.path + (('mapval', e.key, e.vtid),))
    key = Sym(e.key, e.ktid)
    occupied = 'Occupied' in info.path
    if n == 'key':
        return ret(eng, st, Ref(eng.alloc(st, key)))
    if n == 'into_key':
        return ret(eng, st, key)
    if occupied and n in ('get', 'get_mut', 'into_mut'):
        return ret(eng, st, ref)
    old = eng.from_term(st, z3.Select(m.val, e.key), e.vtid) if occupied else None
    if n == 'insert':
        eng.store(st, e.cell, e.path, m.with_(dom=z3.Store(m.dom, e.key, z3.BoolVal(True)), val=z3.Store(m.val, e.key, eng.term(st, info.args[1]))))
        eng.emit(st, 'map_insert', key, Ref(e.cell, e.path), info.args[1])
        return ret(eng, st, old if occupied else ref)
    eng.emit(st, 'map_remove', key, Ref(e.cell, e.path))
    eng.store(st, e.cell, e.path, m.with_(dom=z3.Store(m.dom, e.key, z3.BoolVal(False))))
    return ret(eng, st, old if n == 'remove' else Agg('tuple', 0, [key, old], info.dest))


@contract(r'hash::map::Entry::<.*>::(or_default|or_insert|or_insert_with|and_modify)$')
def c_entry_op(eng, st, info):
    """the value of the entry, put there first when it was vacant"""
    e = info.args[0]
    n = info.callee['name']
    m = as_map(eng, st, eng.load(st, e.cell, e.path))
    ref = Ref(e.cell, e.path + (('mapval', e.key, e.vtid),))
    out = []
    for s, present in eng.branch(st, z3.Select(m.dom, e.key)):
        def put(s, v):
            eng.store(s, e.cell, e.path, m.with_(dom=z3.Store(m.dom, e.key, z3.BoolVal(True)), val=z3.Store(m.val, e.key, eng.term(s, v))))
            eng.emit(s, 'map_insert', Sym(e.key, e.ktid), Ref(e.cell, e.path), v)
            return ret(eng, s, ref)

        def k(s2, kind, v):
            return eng.deliver(s2, kind, v) if kind != 'ret' else ret(eng, s2, e) if n == 'and_modify' else put(s2, v)
        if n == 'and_modify':
            if present:
                eng.push_cont(s, k, 'entry')
                out += eng.call_value(s, info.args[1], [ref])
            else:
                out += ret(eng, s, e)
        elif present:
            out += ret(eng, s, ref)
        elif n == 'or_insert_with':
            eng.push_cont(s, k, 'entry')
            out += eng.call_value(s, info.args[1], [])
        else:
            out += put(s, default_of(eng, e.vtid) if n == 'or_default' else info.args[1])
    return out


@contract(r'^core::iter::sources::repeat_n::repeat_n$')
def c_repeat_n(eng, st, info):
    """yields the value n times"""
    n = info.args[1]
    return ret(eng, st, Obj('Repeat', v=info.args[0], n=zi(n.e)))


@contract(r'repeat_n::RepeatN<.*as core::iter::traits::iterator::Iterator>::next$')
def c_repeat_next(eng, st, info):
    """a clone while there are some left, then the value itself, then None"""
    return c_iter_next(eng, st, info)


@contract(r'iter::adapters::zip::ZipImpl(<A, B>)?::new$')
def c_zip_new(eng, st, info):
    """yields the pairs of the two iterators, as long as both yield"""
    return ret(eng, st, Agg('kmv::Zip', 0, [info.args[0], info.args[1]], None))


@contract(r'iter::adapters::zip::ZipImpl(<A, B>)?::next$')
def c_zip_next(eng, st, info):
    """the next of the first and, when there is one, the next of the second; None when either ends"""
    c, p = eng.deref(st, info.args[0])
    z = eng.load(st, c, p)
    if not (isinstance(z, Agg) and z.path == 'kmv::Zip'):
        raise Unsupported('another zip')

    def after(first):
        def k(s, kind, r):
            if kind != 'ret' or r.variant == 0:
                return eng.deliver(s, kind, r if kind != 'ret' else none(eng, info.dest))
            if first is not None:
                return ret(eng, s, some(eng, info.dest, Agg('tuple', 0, [first, r.fields[0]], field_tid(eng, info.dest, 'Some'))))
            eng.push_cont(s, after(r.fields[0]), 'zip')
            return nxt(s, 1)
        return k

    def nxt(s, i):
        q = tuple(p) + (('f', 0, i, None),)
        it = eng.load(s, c, q)
        if not isinstance(it, Obj):
            raise Unsupported('zip of another iterator')
        return iter_next(eng, s, it, c, q, info.dest)
    eng.push_cont(st, after(None), 'zip')
    return nxt(st, 0)


@contract(r'^futures_util::future::join_all::join_all$', r'^futures_util::future::try_join_all::try_join_all$')
def c_join_all(eng, st, info):
    """completes when every future of the iterator has, with their outputs in order"""
    if info.callee['name'] != 'join_all':
        raise Unsupported('try_join_all')
    return ret(eng, st, mkfut('join_all', info.args[0], info.callee.get('iter')))


@fut('join_all')
def f_join_all(eng, st, fv, out):
    it, d = fv.args
    if isinstance(it, Obj) and it.kind == 'FU':
        res = cancel_points(eng, st)
        if getattr(it, 'outs', None) is None:
            raise Unsupported('join_all of an unordered set')
        v = empty_seq(eng, out)
        v = v.with_(seq=it.outs)
        eng.emit(st, 'join_end', v)
        eng.emit(st, 'fu_dropped', I(z3.IntVal(0)))
        return res + ret(eng, st, v)
    etid = [x for x in ty(eng, out)['args'] if isinstance(x, int)][0]
    acc = eng.alloc(st, empty_seq(eng, out))

    def on_item(eng, s, x):
        fc = eng.alloc(s, x)

        def k(s2, kind, r):
            if kind != 'ret':
                return eng.deliver(s2, kind, r)
            v = eng.load(s2, acc)
            eng.emit(s2, 'joined', r.fields[0])
            eng.store(s2, acc, (), v.with_(seq=z3.Concat(v.seq, z3.Unit(eng.term(s2, r.fields[0])))))
            return ret(eng, s2, B(False))
        eng.push_cont(s, k, 'join')
        return poll_at(eng, s, fc, (), eng.poll_type(etid), None)
    def end(eng, s):
        v = eng.load(s, acc)
        eng.emit(s, 'join_end', v)
        return ret(eng, s, v)
    res = cancel_points(eng, st)
    return res + each_item(eng, st, d, it, on_item, end, 'join_all')


# ------------------------------------------------------------------------------ FuturesUnordered
@contract(r'FuturesUnordered::<Fut>::new$')
def c_fu_new(eng, st, info):
    """no futures"""
    return ret(eng, st, Obj('FU', n=z3.IntVal(0)))


@contract(r'FuturesUnordered::<Fut>::(len|is_empty)$')
def c_fu_len(eng, st, info):
    """how many futures have not been taken out yet"""
    fu = content(eng, st, info.args[0])
    return ret(eng, st, B(fu.n == 0) if info.callee['name'] == 'is_empty' else I(fu.n))


@contract(r'^core::iter::sources::once::once$')
def c_iter_once(eng, st, info):
    """yields the value once"""
    tid = [x for x in info.callee['args'] if isinstance(x, int)][0]
    return ret(eng, st, Obj('SeqIter', rem=z3.Unit(eng.term(st, info.args[0])), etid=tid))


@contract(r'FuturesUnordered::<Fut>::push$')
def c_fu_push(eng, st, info):
    """the future will be run by whoever drives the set (run eagerly here: the futures in the set are independent of each other)"""
    c, p = eng.deref(st, info.args[0])
    return fu_push(eng, st, c, p, info.args[1], [x for x in info.callee['args'] if isinstance(x, int)][0])


def fu_push(eng, st, c, p, future, ft):
    fu = eng.load(st, c, p)
    eng.store(st, c, p, fu.with_(n=z3.simplify(fu.n + 1)))
    fc = eng.alloc(st, future)
    listed = getattr(fu, 'outs', None) is not None
    ot = fu_out(eng, ft)
    if listed:
        v = content(eng, st, future)
        b = eng.P.bodies.get(v.path[len('coroutine:'):]) if isinstance(v, Agg) and v.path.startswith('coroutine:') else None
        if b is None:
            raise Unsupported('a list of futures of an unknown kind')
        ot = b['locals'][0]

    def k(s, kind, r):
        if kind == 'ret':
            if listed:
                f = eng.load(s, c, p)
                eng.emit(s, 'joined', r.fields[0])
                eng.store(s, c, p, f.with_(outs=z3.Concat(f.outs, z3.Unit(eng.term(s, r.fields[0])))))
            return ret(eng, s, UNIT)
        return eng.deliver(s, kind, r)
    eng.push_cont(st, k, 'fu')
    return poll_at(eng, st, fc, (), eng.poll_type(ot), None)


def fu_out(eng, ft):
    return eng.unit_tid()


def unit_tid(eng):
    for i, t in enumerate(eng.P.types):
        if t['k'] == 'tuple' and not t['fields']:
            return i
    eng.P.types.append({'k': 'tuple', 'fields': [], 's': '()'})
    return len(eng.P.types) - 1


Engine.unit_tid = unit_tid


def drop_fu(eng, st, o):
    eng.emit(st, 'fu_dropped', I(o.n))
    if o.a.get('outs') is not None and not eng.entails(st, o.n == 0):
        raise Unsupported('a list of futures that is dropped before they have run')


DROPS['FU'] = drop_fu


@contract(r'StreamExt::next$')
def c_stream_next(eng, st, info):
    """the stream's next item"""
    c, p = eng.deref(st, info.args[0])
    v = eng.load(st, c, p)
    if isinstance(v, Obj) and v.kind == 'FU':
        return ret(eng, st, mkfut('fu_next', Ref(c, p)))
    return ret(eng, st, mkfut('stream_next', v))


@fut('fu_next')
def f_fu_next(eng, st, fv, out):
    r = fv.args[0]
    fu = eng.load(st, r.cell, r.path)
    res = cancel_points(eng, st)
    for s, more in eng.branch(st, fu.n > 0):
        if more:
            eng.store(s, r.cell, r.path, fu.with_(n=fu.n - 1))
            res += ret(eng, s, some(eng, out, eng.fresh_val(s, field_tid(eng, out, 'Some'), 'fu')))
        else:
            res += ret(eng, s, none(eng, out))
    return res


@fut('stream_next')
def f_stream_next(eng, st, fv, out):
    return env_await(eng, st, 'stream_next', fv.args, out)


# ------------------------------------------------------------------------------ tasks, time, misc
@contract(r'^tokio::task::spawn::spawn$', r'^std::thread::builder::Builder::spawn$', r'^tokio::task::blocking::spawn_blocking$', r'^std::thread::functions::spawn$')
def c_spawn(eng, st, info):
    """starts the task; it is not run here (its body is verified separately)"""
    failed = []
    okr = lambda s: eng.fresh_val(s, info.dest, 'task')
    if info.dest is not None and 'Builder' in info.path:
        sf = st.fork()
        failed = ret(eng, sf, variant(eng, info.dest, 'Err', Sym(eng.fresh('ioerr'), field_tid(eng, info.dest, 'Err'))))
        okr = lambda s: variant(eng, info.dest, 'Ok', Sym(eng.fresh('task'), field_tid(eng, info.dest, 'Ok')))
    eng.emit(st, 'spawn', info.args[-1], info.path)
    if getattr(eng, 'inline_spawn', False):
        # the body of the task is verified here too: it runs on its own, so what it returns or panics with stays in the task
        body = info.args[-1]

        def k(s, kind, r):
            eng.emit(s, 'task_end', kind, r.fields[0] if kind == 'ret' and isinstance(r, Agg) and r.path == 'core::task::poll::Poll' else r)
            return ret(eng, s, okr(s))
        eng.push_cont(st, k, 'task')
        if 'tokio::task::spawn' in info.path or 'tokio::runtime' in info.path:
            return failed + poll_at(eng, st, eng.alloc(st, body), (), None, None)
        return failed + eng.call_value(st, body, [])
    return failed + ret(eng, st, okr(st))


@contract(r'Handle::(current|runtime_flavor|block_on)$', r'^std::thread::builder::Builder::(new|name)$', r'^tokio::runtime::')
def c_handle(eng, st, info):
    """runtime handle"""
    if info.callee['name'] == 'block_on':
        fc = eng.alloc(st, info.args[1])

        def k(s, kind, r):
            return ret(eng, s, r.fields[0]) if kind == 'ret' else eng.deliver(s, kind, r)
        eng.push_cont(st, k, 'block_on')
        return poll_at(eng, st, fc, (), eng.poll_type(info.dest), None)
    return ret(eng, st, eng.fresh_val(st, info.dest, 'rt'))


@contract(r'^<alloc::boxed::Box<F, A> as core::ops::function::Fn(Once|Mut)?<Args>>::call(_once|_mut)?$')
def c_box_call(eng, st, info):
    """calls the boxed closure"""
    f = info.args[0]
    tup = info.args[1]
    eng.call_dest = info.dest
    if isinstance(f, BoxV):
        inner = st.heap[f.cell]
        return eng.call_value(st, inner if isinstance(inner, Agg) else f, list(tup.fields))
    return eng.call_value(st, f, list(tup.fields))


@contract(r'^core::slice::iter::Iter::<.*>::new$', r'^core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &.*\[T\]>::into_iter$')
def c_slice_iter_new(eng, st, info):
    """yields references to the elements in order"""
    return c_seq_iter(eng, st, info)


@contract(r'^<core::iter::.*as core::iter::traits::iterator::Iterator>::nth$', r'(slice::iter|vec::into_iter|vec::drain|hash::map|hash::set).*as core::iter::traits::iterator::Iterator>::nth$', r'^core::iter::traits::iterator::Iterator::nth$')
def c_nth(eng, st, info):
    """skips n elements (event seq_skip) and yields the next"""
    c, p = eng.deref(st, info.args[0])
    it = eng.load(st, c, p)
    n = zi(info.args[1].e)
    if not isinstance(it, Obj) or it.kind not in ('SeqIter', 'SeqRefIter'):
        raise Unsupported('nth of another iterator')
    eng.emit(st, 'seq_skip', I(n))
    if it.kind == 'SeqIter':
        it = it.with_(rem=z3.If(n < z3.Length(it.rem), z3.SubSeq(it.rem, n, z3.Length(it.rem) - n), z3.Empty(SeqV)))
    else:
        it = it.with_(pos=z3.simplify(it.pos + n))
    eng.store(st, c, p, it)
    return iter_next(eng, st, it, c, p, info.dest)


@contract(r'^core::intrinsics::integer_(min|max)$')
def c_minmax(eng, st, info):
    """the smaller / larger of two numbers"""
    a, b = info.args
    x, y = zi(a.e), zi(b.e)
    return ret(eng, st, I(z3.If((x <= y) if info.callee['name'].endswith('min') else (x >= y), x, y), a.bits, a.signed))


@contract(r'(VecDeque|vec::Vec)::<T, A>::insert$')
def c_vec_insert(eng, st, info):
    """puts the element at that index; panics past the end"""
    c, p, s = coll(eng, st, info.args[0], as_seq)
    i = zi(info.args[1].e)
    out = []
    for s2, ok in eng.branch(st, z3.And(i >= 0, i <= z3.Length(s.seq))):
        if not ok:
            out += eng.deliver(s2, 'panic', Sym(eng.fresh('panic'), None))
            continue
        n = z3.Length(s.seq)
        eng.store(s2, c, p, s.with_(seq=z3.simplify(z3.Concat(z3.SubSeq(s.seq, z3.IntVal(0), i), z3.Unit(eng.term(s2, info.args[2])), z3.SubSeq(s.seq, i, n - i)))))
        eng.emit(s2, 'push', Ref(c, p), info.args[2])
        out += ret(eng, s2, UNIT)
    return out


@contract(r'^core::intrinsics::discriminant_value$')
def c_discr(eng, st, info):
    """the discriminant"""
    return ret(eng, st, I(eng.discriminant(st, content(eng, st, info.args[0])), 64, True))


@contract(r'^core::intrinsics::(likely|unlikely|black_box|cold_path|assume)$')
def c_ident(eng, st, info):
    """identity"""
    return ret(eng, st, info.args[0] if info.args else UNIT)


@contract(r'^core::intrinsics::transmute$', r'^core::(intrinsics|ptr)::.*cast')
def c_transmute(eng, st, info):
    """bit-identity"""
    return ret(eng, st, info.args[0])


@contract(r'^core::cmp::PartialEq::(eq|ne)$', r' as core::cmp::PartialEq(<.*>)?>::(eq|ne)$')
def c_eq(eng, st, info):
    """structural equality (user-supplied Eq on opaque types is equality of values)"""
    r = info.callee.get('res') or {}
    if r.get('key') and (r.get('crate') not in ('alloc', 'std')) and 'PartialEq for str>' not in r['key']:
        eng.push_fn(st, r['key'], info.args)
        return [st]
    a, b = content(eng, st, info.args[0]), content(eng, st, info.args[1])
    if any(isinstance(x, Agg) and x.path.endswith('borrow::Cow') for x in (a, b)):
        a, b = text_of(eng, st, a), text_of(eng, st, b)
    e = cterm(eng, st, a) == cterm(eng, st, b)
    return ret(eng, st, B(z3.Not(e) if info.callee['name'] == 'ne' else e))


def cow_content(eng, st, v):
    """what an unknown Cow of something other than text holds"""
    to = [x for x in ty(eng, v.tid)['args'] if isinstance(x, int)]
    if not to or ty(eng, to[-1])['k'] != 'adt':
        return v
    return Sym(eng.F('cowContent', [V], V)(v.t), to[-1])


def text_of(eng, st, v):
    """the text behind a string, reference or Cow"""
    v = content(eng, st, v)
    while isinstance(v, Agg) and v.path.endswith('borrow::Cow'):
        v = content(eng, st, v.fields[0])
    return v


@contract(r'^alloc::string::String::(as_str|from|new|into_boxed_str)$', r'String as core::ops::deref::Deref>::deref$', r'Cow<.*Deref>::deref$', r'as core::convert::AsRef<.*>>::as_ref$',
          r'as core::borrow::Borrow<.*>>::borrow$', r'^alloc::str::<impl str>::(to_owned|into_string)', r'alloc::borrow::ToOwned>::to_owned$', r'^alloc::borrow::Cow::<.*>::(into_owned|to_mut)$',
          r'(String|Arc<str>|Box<str>) as core::convert::From<&str>>::from$', r'Cow<.*as core::convert::From', r'String as core::str::traits::FromStr>::from_str')
def c_string(eng, st, info):
    """string views and copies denote the same text"""
    a = info.args[0] if info.args else None
    if a is None:
        return ret(eng, st, Str(''))
    v = content(eng, st, a)
    cow = isinstance(v, Agg) and v.path.endswith('borrow::Cow')
    if cow:
        v = text_of(eng, st, v)
    elif isinstance(v, Sym) and v.tid is not None and ty(eng, v.tid).get('path', '').endswith('borrow::Cow'):
        inner = cow_content(eng, st, v)
        if inner is not v:
            cow, v = True, inner
    if info.dest is not None and ty(eng, info.dest)['k'] == 'ref':
        if isinstance(a, Ref) and not cow:
            return ret(eng, st, a)
        return ret(eng, st, Ref(eng.alloc(st, v)))
    if isinstance(v, Sym):
        v = Sym(v.t, info.dest if info.dest is not None else v.tid)
    return ret(eng, st, v)


@contract(r'^futures_util::future::try_future::TryFutureExt::map_err$', r'FutureExt::map$')
def c_map_err_fut(eng, st, info):
    """maps the output"""
    inner = eng.alloc(st, info.args[0])
    clo = info.args[1]
    name = info.callee['name']

    def fn(eng2, s, r):
        if name == 'map':
            return eng2.call_value(s, clo, [r])
        if isinstance(r, Agg):
            if r.variant == 0:
                return ret(eng2, s, r)

            def k(s2, kind, e):
                return ret(eng2, s2, Agg(r.path, 1, [e], None)) if kind == 'ret' else eng2.deliver(s2, kind, e)
            eng2.push_cont(s, k, 'map_err')
            return eng2.call_value(s, clo, [r.fields[0]])
        raise Unsupported('map_err on symbolic result')
    return ret(eng, st, Obj('MapFut', inner=inner, fn=fn, poll_tid=None))


@contract(r'^core::sync::atomic::Atomic::<.*>::(fetch_add|fetch_sub|load|store|swap|compare_exchange)$')
def c_atomic(eng, st, info):
    """an atomic step on shared memory: other threads may have changed it"""
    eng.emit(st, 'atomic_' + info.callee['name'], content(eng, st, info.args[0]), *info.args[1:])
    if info.callee['name'] == 'store':
        return ret(eng, st, UNIT)
    r = eng.fresh_val(st, info.dest, 'atomic')
    eng.emit(st, 'atomic_result', r)
    return ret(eng, st, r)


def install(eng, extra=()):
    """extra: [(regex, handler)] taking precedence over the library table"""
    eng.contracts = [(re.compile(p), h) for p, h in extra] + [(p, h) for p, h, d in TABLE]


@contract(r'^core::intrinsics::(saturating|wrapping|unchecked|exact)_(add|sub|mul)$')
def c_arith(eng, st, info):
    """saturating and wrapping arithmetic"""
    a, b = info.args[:2]
    how, op = info.callee['name'].split('_')
    x, y = zi(a.e), zi(b.e)
    r = x + y if op == 'add' else x - y if op == 'sub' else x * y
    lo, hi = (-2 ** (a.bits - 1), 2 ** (a.bits - 1) - 1) if a.signed else (0, 2 ** a.bits - 1)
    if how == 'saturating':
        r = z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r))
    elif how == 'wrapping':
        r = r % (2 ** a.bits)
        if a.signed:
            r = z3.If(r > hi, r - 2 ** a.bits, r)
    return ret(eng, st, I(z3.simplify(r), a.bits, a.signed))


# ------------------------------------------------------------------------------ the clock, pauses
@contract(r'^(std::time|tokio::time::instant)::Instant::(now|elapsed)$')
def c_clock(eng, st, info):
    """the clock: any value, no effect"""
    return ret(eng, st, eng.fresh_val(st, info.dest, 'clock'))


def function_of_args(eng, st, info, op):
    ts = [cterm(eng, st, a) for a in info.args]
    return ret(eng, st, eng.sym(st, eng.F('fn:' + op, [V] * len(ts), V)(*ts), info.dest))


@contract(r'^(std::time|tokio::time::instant)::Instant::(duration_since|saturating_duration_since|checked_add|checked_sub|checked_duration_since)$',
          r'^<(std::time|tokio::time::instant)::Instant as core::ops::arith::(Add|Sub)<.*>>::(add|sub)$',
          r'^core::time::Duration::(saturating_\w+|checked_\w+|mul_f\d+|div_f\d+|abs_diff|as_\w+)$', r'^<core::time::Duration as core::ops::arith::\w+(<.*>)?>::(add|sub|mul|div)$')
def c_time(eng, st, info):
    """arithmetic on points in time and durations: a function of its arguments (overflow aside)"""
    return function_of_args(eng, st, info, info.path.split('::')[-1] + ('D' if 'Duration' in info.path else 'I'))


@contract(r'^tokio::task::yield_now::yield_now$', r'^tokio::time::sleep::sleep$')
def c_pause(eng, st, info):
    """a pause: may be dropped while it lasts, otherwise no effect"""
    return ret(eng, st, mkfut('pause'))


@fut('pause')
def f_pause(eng, st, fv, out):
    return cancel_points(eng, st) + ret(eng, st, UNIT)


# ------------------------------------------------------------------------------ text
@contract(r'^(core|alloc)::str::<impl str>::(eq_ignore_ascii_case|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|trim|trim_start|trim_end)$')
def c_str_fn(eng, st, info):
    """a function of its arguments"""
    ts = [cterm(eng, st, text_of(eng, st, a)) for a in info.args]
    t = eng.F('fn:str.' + info.callee['name'], [V] * len(ts), V)(*ts)
    if info.dest is not None and ty(eng, info.dest)['k'] == 'ref':
        return ret(eng, st, Ref(eng.alloc(st, Sym(t, ty(eng, info.dest)['to']))))
    return ret(eng, st, eng.sym(st, t, info.dest))


@contract(r'^core::hint::must_use$')
def c_must_use(eng, st, info):
    """the argument"""
    return ret(eng, st, info.args[0])


@contract(r'^alloc::(sync|rcs::arc)::Arc::<T, A>::strong_count$')
def c_arc_strong(eng, st, info):
    """how many owners there are: any positive number"""
    n = eng.fresh('owners', z3.IntSort())
    eng.assume(st, n >= 1)
    return ret(eng, st, I(n))


@contract(r'^core::slice::<impl \[T\]>::contains$', r'VecDeque::<T, A>::contains$')
def c_seq_contains(eng, st, info):
    """whether an element equals it (identifiers and numbers: equal is identical)"""
    _, _, s = coll(eng, st, info.args[0], as_seq)
    t = ty(eng, s.etid) if s.etid is not None else {}
    if not (t.get('k') in ('int', 'uint', 'bool', 'char') or t.get('path', '').endswith('ActorID')):
        raise Unsupported('contains with the equality of ' + t.get('s', '?'))
    return ret(eng, st, B(z3.Contains(s.seq, z3.Unit(cterm(eng, st, info.args[1])))))
