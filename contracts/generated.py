"""What kameo's macros generate for the uses in /verif/uses: the obligations are on the generated code, for every value of its inputs; the uses themselves are a sample."""
from .base import *
from .errors import Job


# ------------------------------------------------------------------ #[messages]: a message is a call
def h_method(name, is_async):
    def h(eng, st, info):
        eng.emit(st, 'method', name, info.args)
        if is_async:
            return ret(eng, st, mkfut('method', Str(name)))
        return answer(eng, st, name, info.dest)
    h.__doc__ = f'the method {name}: any answer'
    return h


def answer(eng, st, name, tid):
    s2 = st.fork()
    pl = Sym(eng.fresh('payload'), None)
    eng.emit(s2, 'method_panicked', pl)
    r = eng.fresh_val(st, tid, 'answer') if tid is not None else UNIT
    eng.emit(st, 'answered', r)
    return ret(eng, st, r) + eng.deliver(s2, 'panic', pl)


@fut('method')
def f_method(eng, st, fv, out):
    eng.emit(st, 'awaited')
    return cancel_points(eng, st) + answer(eng, st, fv.args[0].s, out)


CALLS, SELF, ARGS, VALUE, AWAIT, PANIC = ('handling the message calls its method, once', 'on the actor that handles it', 'every argument is the field of its name', 'the reply is what the method returned',
                                         'an async method is awaited', 'it panics only when the method does')
MG = {'called': 0, 'args': None, 'answer': None, 'awaited': 0, 'panicked': 0}


def m_message(ctx, st, name, args):
    g = st.ghost
    if name == 'method':
        g['called'] += 1
        g['name'], g['self'], g['args'] = args[0], args[1][0], tuple(ctx.term(st, a) for a in args[1][1:])
    elif name == 'answered':
        g['answer'] = ctx.term(st, args[0])
    elif name == 'awaited':
        g['awaited'] += 1
    elif name == 'method_panicked':
        g['panicked'] += 1


def message(actor, msg, method, params, is_async=False, generics='', actor_generics='', tag=None):
    def setup(ctx, st, args):
        ctx.me = ctx.eng.deref(st, args[0])
        ctx.fields = [ctx.term(st, ctx.field(st, args[1], p)) for p in params]

    def finish(ctx, st, kind, v):
        g = st.ghost
        if kind == 'panic':
            ctx.prove(st, g['panicked'] == 1, PANIC)
            return
        if kind != 'ret':
            return
        ctx.prove(st, g['called'] == 1 and g['name'] == method, CALLS)
        if g['called'] != 1:
            return
        ctx.prove(st, ctx.eng.deref(st, g['self']) == ctx.me, SELF)
        ctx.prove(st, len(g['args']) == len(params) and z3.And(*[a == b for a, b in zip(g['args'], ctx.fields)], True), ARGS)
        if is_async:
            ctx.prove(st, g['awaited'] == 1, AWAIT)
        ctx.prove(st, ctx.term(st, v) == g['answer'] if g['answer'] is not None else False, VALUE)
    ty = re.escape(f'msgs::{actor}{actor_generics}')
    e = [(rf'^msgs::{actor}(::<.*>)?::(?!{method}$)\w+$', h_method('another method', False)), (rf'^msgs::{actor}(::<.*>)?::{method}$', h_method(method, is_async))]
    return Job(f'message {msg}', rf'^<{ty} as kameo::message::Message<msgs::{msg}{re.escape(generics)}>>::handle$', crate='uses', setup=setup, monitor=m_message, finish=finish, extra=e, ghost=dict(MG),
               expect=(CALLS, SELF, ARGS, VALUE, PANIC) + ((AWAIT,) if is_async else ()))


# ------------------------------------------------------------------ derives
def literal(what, root, text):
    def finish(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        v = ctx.content(st, v) if kind == 'ret' else v
        ctx.prove(st, isinstance(v, Str) and v.s == text, 'the name is the one asked for, or else that of the type')
    return Job(what, root, crate='uses', finish=finish, expect=('the name is the one asked for, or else that of the type',))


def reply(ty, op):
    def setup(ctx, st, args):
        ctx.me = ctx.term(st, args[0])

    def finish(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        if op == 'into_any_err':
            ctx.prove(st, ctx.is_variant(st, v, 'None'), 'the reply is never an error')
        elif op == 'to_result':
            ctx.prove(st, ctx.is_variant(st, v, 'Ok'), 'the reply is never an error')
            ctx.prove(st, ctx.term(st, ctx.payload(st, v, 'Ok')) == ctx.me, 'the reply is the value itself')
        else:
            ctx.prove(st, ctx.term(st, v) == ctx.me, 'the reply is the value itself')
    return Job(f'reply {ty}::{op}', rf'^<derives::{ty}(<.*>)? as kameo::reply::Reply>::{op}$', crate='uses', setup=setup, finish=finish,
               expect=('never panics',) + (('the reply is never an error',) if op != 'into_value' else ()) + (('the reply is the value itself',) if op != 'into_any_err' else ()))


# ------------------------------------------------------------------ the tables of remote actors and messages
INTERNAL = ('link', 'unlink', 'signal_link_died', 'ask', 'try_ask', 'tell', 'try_tell')


def h_internal(eng, st, info):
    """kameo::remote::_internal functions, verified below their own contracts (contracts/dispatch.py, rlinks.py): told of the call"""
    if info.callee['name'] not in INTERNAL:
        raise Unsupported(f'anchor lost: _internal::{info.callee["name"]}')
    tys = tuple(ty(eng, t)['s'] for t in info.callee['args'] if isinstance(t, int))
    return ret(eng, st, mkfut('internal', Str(info.callee['name']), Str(';'.join(tys)), *info.args))


@fut('internal')
def f_internal(eng, st, fv, out):
    eng.emit(st, 'internal', fv.args[0].s, fv.args[1].s, fv.args[2:])
    r = eng.fresh_val(st, out, 'answered') if out is not None else Sym(eng.fresh('answered'), None)
    eng.emit(st, 'answered', r)
    return ret(eng, st, r)


TABLE, RUNS, TYPES, WITH, ANSWER = ('it is registered under its own ids', 'the entry runs the function it is named for, once', 'for this actor and this message', 'with the arguments of the request, each in its place', 'its answer is the answer')


def m_table(ctx, st, name, args):
    g = st.ghost
    if name == 'internal':
        g['called'] += 1
        g['name'], g['tys'], g['args'] = args[0], args[1], tuple(ctx.term(st, a) for a in args[2])
    elif name == 'answered':
        g['answer'] = ctx.term(st, args[0])


def table(where, entry, n, ids, types):
    def chain(ctx, st, v):
        key, fns = v.fields
        if isinstance(key, Agg):
            got = [ctx.content(st, ctx.field(st, key, x)) for x in ('actor_remote_id', 'message_remote_id')]
        else:
            got = [ctx.content(st, key)]
        ctx.prove(st, [x.s if isinstance(x, Str) else None for x in got] == ids, TABLE)
        ctx.given = [Sym(ctx.eng.fresh(f'given{i}'), None) for i in range(n)]
        return 'run', ctx.field(st, fns, entry), ctx.given

    def finish(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and g['called'] == 1 and g['name'] == entry, RUNS)
        if kind != 'ret' or g['called'] != 1:
            return
        ctx.prove(st, g['tys'] == ';'.join(types), TYPES)
        ctx.prove(st, len(g['args']) == n and z3.And(*[a == ctx.term(st, b) for a, b in zip(g['args'], ctx.given)]), WITH)
        ctx.prove(st, ctx.term(st, v) == g['answer'], ANSWER)
    return Job(f'table {where} {entry}', rf'^{where}::_::\w+$', crate='uses', monitor=m_table, finish=finish, chain=chain, extra=[(r'^kameo::remote::_internal::\w+$', h_internal)], ghost=dict(MG),
               expect=(TABLE, RUNS, TYPES, WITH, ANSWER))


DOOR, WINDOW = 'uses::actor_table::Door', 'the window'
JOBS = [
    message('Desk', 'Ring', 'ring', []),
    message('Desk', 'Count', 'count', []),
    message('Desk', 'Note', 'note', ['text']),
    message('Desk', 'Weigh', 'weigh', ['first', 'second', 'third', 'fourth']),
    message('Desk', 'Many', 'many', ['zulu', 'yankee', 'alpha', 'mike', 'lima', 'bravo', 'kilo', 'tango', 'delta', 'xray', 'echo', 'papa']),
    message('Desk', 'ManyLater', 'many_later', ['mike', 'zulu', 'alpha', 'tango', 'bravo', 'lima', 'kilo'], True),
    message('Desk', 'Later', 'later', ['name', 'delay'], True),
    message('Desk', 'Soon', 'soon', [], True),
    message('Desk', 'Own', 'own', ['msg', 'ctx'], True),
    message('Desk', 'Within', 'within', ['left', 'right']),
    message('Desk', 'Typed', 'typed', ['one', 'two'], generics='<T>'),
    message('Desk', 'Bound', 'bound', ['one', 'two'], generics='<T>'),
    message('Desk', 'LastOne', 'last_one', ['left', 'right']),
    message('Shelf', 'PutA', 'put_a', ['item'], generics='<A>', actor_generics='<A, B>'),
    message('Shelf', 'PutBoth', 'put_both', ['b', 'a'], generics='<B, A>', actor_generics='<A, B>'),
    message('Shelf', 'PutMany', 'put_many', ['two', 'one', 'four', 'three', 'six', 'five'], generics='<B, A>', actor_generics='<A, B>'),
    message('Shelf', 'Size', 'size', ['of_a', 'of_b'], True, actor_generics='<A, B>'),
    message('Echo', 'Get', 'get', [], actor_generics='<R>'),
    message('Echo', 'Pick', 'pick', ['keep', 'other'], generics='<R>', actor_generics='<R>'),
    message('Echo', 'Nth', 'nth', ['n', 'of'], True, actor_generics='<R>'),
    message('Echo', 'First', 'first', ['of', 'or'], generics='<R>', actor_generics='<R>'),
] + [literal(f'derive(Actor) {t}::name', rf'^<derives::{t}(<.*>)? as kameo::actor::Actor>::name$', n)
     for t, n in (('Plain', 'Plain'), ('Named', 'named otherwise'), ('Generic', 'Generic'), ('Bounded', 'generic otherwise'))] + [
    literal(f'derive(RemoteActor) {t}::REMOTE_ID', rf'^<{t} as kameo::remote::RemoteActor>::REMOTE_ID$', n)
    for t, n in (('derives::Plain', 'uses::derives::Plain'), ('derives::Named', 'reached otherwise'), ('actor_table::Door', DOOR), ('other_actor_table::Window', WINDOW))] + [
    literal(f'remote_message {w}::REMOTE_ID', rf'^{w}::<impl kameo::remote::RemoteMessage<{w}::Open> for \w+::\w+>::REMOTE_ID$', n)
    for w, n in (('message_table', 'open the door'), ('other_message_table', 'open the window'))] + [
    reply(t, op) for t in ('Answer', 'Either') for op in ('into_any_err', 'into_value', 'to_result')] + [
    table(w, e, n, [i], [t]) for w, i, t in (('actor_table', DOOR, 'actor_table::Door'), ('other_actor_table', WINDOW, 'other_actor_table::Window'))
    for e, n in (('link', 3), ('unlink', 2), ('signal_link_died', 3))] + [
    table(w, e, n, i, t) for w, i, t in (('message_table', [DOOR, 'open the door'], ['actor_table::Door', 'message_table::Open']),
                                         ('other_message_table', [WINDOW, 'open the window'], ['other_actor_table::Window', 'other_message_table::Open']))
    for e, n in (('ask', 4), ('try_ask', 3), ('tell', 3), ('try_tell', 2))]
