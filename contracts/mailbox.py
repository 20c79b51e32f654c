"""Mailboxes: every operation is the operation of the one channel behind the mailbox, whatever its kind."""
from .base import *

TX, RX, WTX = r'^mailbox::MailboxSender::<A>::', r'^mailbox::MailboxReceiver::<A>::', r'^mailbox::WeakMailboxSender::<A>::'


def on_chan(ctx, st, mb, t):
    """condition: t is the channel handle inside the mailbox value mb"""
    mb = ctx.content(st, mb)
    cs = []
    for n in ('Bounded', 'Unbounded'):
        c = ctx.is_variant(st, mb, n)
        if c is False:
            continue
        cs.append(z3.And(gz(c), gz(ctx.eq(st, ctx.payload(st, mb, n), t))))
    return z3.Or(*cs) if cs else False


def same_kind(ctx, st, a, b):
    return gz(ctx.is_variant(st, a, 'Bounded')) == gz(ctx.is_variant(st, b, 'Bounded'))


def is_sig(ctx, st, v, name, **fields):
    """condition: v is the signal `name` with these fields"""
    if isinstance(v, Agg) and ctx.is_variant(st, v, name) is False:
        return False
    c = [gz(ctx.is_variant(st, v, name))]
    t = ctx.P.t(v.tid)
    names = [[f[0] for f in x['fields']] for x in t['variants'] if x['name'] == name][0]
    for k, want in fields.items():
        x = ctx.payload(st, v, name, names.index(k))
        c.append(gz(ctx.eq(st, x, want)))
    return z3.And(*c)


def err_is(ctx, st, e, name, val=None):
    """condition: the SendError e is the variant `name` (carrying val)"""
    if isinstance(e, Agg) and ctx.is_variant(st, e, name) is False:
        return z3.BoolVal(False)
    c = gz(ctx.is_variant(st, e, name))
    return c if val is None else z3.And(c, gz(ctx.eq(st, ctx.payload(st, e, name), val)))


def is_ok(ctx, st, v):
    return gz(ctx.is_variant(st, v, 'Ok'))


def chan_setup(ctx, st, args):
    ctx.mb = args[0]
    ctx.mbv = ctx.content(st, args[0])
    ctx.ts = [ctx.term(st, a) for a in args]
    st.ghost.update(n=0, sent=None, err=None, q=None, res=None, up=None, made=None, how=None, recvargs=None)


def chan_monitor(ctx, st, name, args):
    g = st.ghost
    if name == 'send_attempt':
        g['n'] += 1
        g['how'] = args[2]
        ctx.prove(st, g['n'] == 1, 'one signal is sent')
        g['chan'] = ctx.term(st, args[0])
        g['value'] = args[1]
    elif name == 'send':
        g['sent'] = True
    elif name == 'send_refused':
        g['sent'], g['err'] = False, args[2]
    elif name in ('closed', 'recv', 'chan_close'):
        g['n'] += 1
        g['chan'] = ctx.term(st, args[0])
        g['recvargs'] = args[1:]
        ctx.prove(st, g['n'] == 1, 'the channel is asked once')
    elif name == 'recv_done':
        g['res'] = args[0]
    elif name == 'chan_query':
        g['n'] += 1
        g['q'] = (ctx.term(st, args[0]), args[1])
    elif name == 'upgrade':
        g['up'], g['chan'] = args[1], ctx.term(st, args[0])
    elif name == 'channel':
        g['n'] += 1
        g['made'] = args


def send_finish(sig=None, trying=False, back=True):
    """sig(ctx, st, value): which signal; the outcome follows the channel's"""
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        weak = ctx.P.t(ctx.mbv.tid)['path'].endswith('WeakMailboxSender')
        if weak and g['up'] is False:
            ctx.prove(st, g['sent'] is None and gz(z3.And(z3.Not(is_ok(ctx, st, v)), err_is(ctx, st, ctx.payload(st, v, 'Err'), 'ActorNotRunning'))), 'a dead actor is reported')
            return
        ctx.prove(st, g['sent'] is not None, 'the signal is sent')
        if g['sent'] is None:
            return
        if weak:
            ctx.prove(st, z3.And(on_chan(ctx, st, ctx.mb, ctx.eng.F('weakOf', [V], V)(g['chan'])), ctx.eng.F('strongOf', [V], V)(ctx.eng.F('weakOf', [V], V)(g['chan'])) == g['chan']), 'into the mailbox')
        else:
            ctx.prove(st, on_chan(ctx, st, ctx.mb, g['chan']), 'into the mailbox')
        ctx.prove(st, sig(ctx, st, g['value']), 'it is the right signal')
        ctx.prove(st, is_ok(ctx, st, v) == gz(g['sent']), 'Ok exactly when it is in the mailbox')
        ctx.prove(st, (g['how'] in ('try', 'unbounded')) if trying else g['how'] in ('wait', 'unbounded'), 'it waits for space only when it may')
        if not g['sent']:
            e = ctx.payload(st, v, 'Err')
            if back:
                ctx.prove(st, gz(ctx.eq(st, ctx.payload(st, e, None), ctx.ts[1])), 'a refused signal is handed back')
            else:
                ctx.prove(st, err_is(ctx, st, e, 'MailboxFull' if g['err'] == 'full' else 'ActorNotRunning'), 'the error says why')
    return f


def query_finish(q):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and g['q'] is not None and g['n'] == 1 and g['q'][1] == q and on_chan(ctx, st, ctx.mb, g['q'][0]), f'it is the {q} of the channel')
        if kind == 'ret' and g['q'] is not None:
            ctx.prove(st, gz(ctx.eq(st, v, query_term(ctx, q, g['q'][0], v))), 'reported as it is')
    return f


def query_term(ctx, q, ch, v):
    t = ctx.eng.F(f'q:{q}:', [V], V)(ch)
    r = ctx.eng.from_term(State(), t, ctx.body['locals'][0] if ctx.P.t(ctx.body['locals'][0])['k'] in ('bool', 'int') else None) if False else t
    if isinstance(v, (I, B)):
        return ctx.eng.term(State(), ctx.eng.sym(State(), t, bool_tid(ctx) if isinstance(v, B) else usize_tid(ctx)))
    return t


def bool_tid(ctx):
    return next(i for i, t in enumerate(ctx.P.types) if t['k'] == 'bool')


def usize_tid(ctx):
    return next(i for i, t in enumerate(ctx.P.types) if t['k'] == 'int' and t['s'] == 'usize')


def closed_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['n'] == 1 and on_chan(ctx, st, ctx.mb, g['chan']), 'it waits until the channel is closed')


def recv_finish(name, extra=0):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and g['n'] == 1 and on_chan(ctx, st, ctx.mb, g['chan']), 'it reads the mailbox once')
        if g['recvargs'] is None:
            return
        ctx.prove(st, isinstance(g['recvargs'][0], Str) and g['recvargs'][0].s == name, f'with {name}')
        rest = g['recvargs'][1:]
        args = ctx.args[1:]
        ctx.prove(st, len(rest) == len(args) and all(gz(ctx.eq(st, ctx.cterm(st, a), ctx.cterm(st, b))) is True or z3.is_true(z3.simplify(gz(ctx.eq(st, ctx.cterm(st, a), ctx.cterm(st, b)))))
                                                     for a, b in zip(rest, args)), 'with its own arguments')
        ctx.prove(st, g['res'] is not None and gz(ctx.eq(st, v, g['res'])), 'what was received is returned')
    return f


def close_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['n'] == 1 and on_chan(ctx, st, ctx.mb, g['chan']), 'the channel is closed')


def down_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind != 'ret':
        return
    cs = []
    for n in ('Bounded', 'Unbounded'):
        if isinstance(v, Agg) and ctx.is_variant(st, v, n) is False:
            continue
        w = ctx.eng.F('weakOf', [V], V)(ctx.term(st, ctx.payload(st, ctx.mbv, n)))
        cs.append(z3.And(gz(ctx.is_variant(st, ctx.mbv, n)), gz(ctx.is_variant(st, v, n)), gz(ctx.eq(st, ctx.payload(st, v, n), w))))
    ctx.prove(st, z3.Or(*cs), 'a weak handle of the same channel')
    ctx.prove(st, st.ghost['n'] == 0, 'and nothing else happens')


def up_finish(ctx, st, kind, v):
    g = st.ghost
    ctx.prove(st, kind == 'ret' and g['up'] is not None and on_chan(ctx, st, ctx.mb, g['chan']), 'the weak handle is upgraded')
    if kind != 'ret' or g['up'] is None:
        return
    ctx.prove(st, gz(ctx.is_variant(st, v, 'Some')) == gz(g['up']), 'Some exactly while the channel has a strong handle')
    if g['up']:
        m = ctx.payload(st, v, 'Some')
        ctx.prove(st, z3.And(on_chan(ctx, st, m, ctx.eng.F('strongOf', [V], V)(g['chan'])), same_kind(ctx, st, m, ctx.mbv)), 'a strong handle of the same channel')


def clone_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret' and gz(ctx.eq(st, v, ctx.cterm(st, ctx.mb))), 'the clone is the same mailbox')


def same_finish(ctx, st, kind, v):
    ctx.prove(st, kind == 'ret', 'never panics')
    if kind == 'ret':
        a, b = ctx.mbv, ctx.content(st, ctx.args[1])
        same = z3.Or(*[z3.And(gz(ctx.is_variant(st, a, n)), gz(ctx.is_variant(st, b, n)), gz(ctx.eq(st, ctx.payload(st, a, n), ctx.payload(st, b, n)))) for n in ('Bounded', 'Unbounded')])
        ctx.prove(st, zb(v.e) == same, 'true exactly for the same channel')


def make_finish(kindname):
    def f(ctx, st, kind, v):
        g = st.ghost
        ctx.prove(st, kind == 'ret' and g['made'] is not None and g['n'] == 1 and g['made'][1] == kindname, f'one fresh {kindname} channel is made')
        if g['made'] is None:
            return
        t = ctx.term(st, g['made'][0])
        tx, rx = v.fields
        n = 'Bounded' if kindname == 'bounded' else 'Unbounded'
        ctx.prove(st, gz(ctx.is_variant(st, tx, n)) is True or isinstance(tx, Agg) and ctx.is_variant(st, tx, n), 'the sender is of that kind')
        ctx.prove(st, z3.And(ctx.term(st, ctx.payload(st, tx, n)) == ctx.eng.F('txOf', [V], V)(t), ctx.term(st, ctx.payload(st, rx, n)) == ctx.eng.F('rxOf', [V], V)(t)), 'both halves belong to it')
        if kindname == 'bounded':
            ctx.prove(st, gz(ctx.eq(st, g['made'][2], ctx.args[0])), 'it holds as many signals as asked')
    return f


def J(name, root, finish, expect=(), setup=chan_setup, **kw):
    return Job(name, root, setup=setup, monitor=chan_monitor, finish=finish, expect=expect, **kw)


ANY = lambda ctx, st, v: gz(ctx.eq(st, v, ctx.ts[1]))
STOP = lambda ctx, st, v: is_sig(ctx, st, v, 'Stop')
STARTED = lambda ctx, st, v: is_sig(ctx, st, v, 'StartupFinished')
DIED = lambda ctx, st, v: is_sig(ctx, st, v, 'LinkDied', id=ctx.ts[1], reason=ctx.ts[2])


def nochan_setup(ctx, st, args):
    st.ghost.update(n=0, made=None)


JOBS = [
    J('MailboxSender::send', TX + 'send$', send_finish(ANY), ('a refused signal is handed back', 'it is the right signal')),
    J('MailboxSender::closed', TX + 'closed$', closed_finish),
    J('MailboxSender::is_closed', TX + 'is_closed$', query_finish('is_closed')),
    J('MailboxSender::strong_count', TX + 'strong_count$', query_finish('strong_count')),
    J('MailboxSender::weak_count', TX + 'weak_count$', query_finish('weak_count')),
    J('MailboxSender::same_channel', TX + 'same_channel$', same_finish),
    J('MailboxSender::downgrade', TX + 'downgrade$', down_finish),
    J('MailboxSender::clone', r'^<mailbox::MailboxSender<A> as core::clone::Clone>::clone$', clone_finish),
    J('WeakMailboxSender::upgrade', WTX + 'upgrade$', up_finish, ('a strong handle of the same channel',)),
    J('WeakMailboxSender::strong_count', WTX + 'strong_count$', query_finish('strong_count')),
    J('WeakMailboxSender::weak_count', WTX + 'weak_count$', query_finish('weak_count')),
    J('WeakMailboxSender::clone', r'^<mailbox::WeakMailboxSender<A> as core::clone::Clone>::clone$', clone_finish),
    J('MailboxReceiver::recv', RX + 'recv$', recv_finish('recv'), ('what was received is returned',)),
    J('MailboxReceiver::recv_many', RX + 'recv_many$', recv_finish('recv_many')),
    J('MailboxReceiver::try_recv', RX + 'try_recv$', recv_finish('try_recv')),
    J('MailboxReceiver::blocking_recv', RX + 'blocking_recv$', recv_finish('blocking_recv')),
    J('MailboxReceiver::blocking_recv_many', RX + 'blocking_recv_many$', recv_finish('blocking_recv_many')),
    J('MailboxReceiver::poll_recv', RX + 'poll_recv$', recv_finish('poll_recv')),
    J('MailboxReceiver::poll_recv_many', RX + 'poll_recv_many$', recv_finish('poll_recv_many')),
    J('MailboxReceiver::close', RX + 'close$', close_finish),
    J('MailboxReceiver::is_closed', RX + 'is_closed$', query_finish('is_closed')),
    J('MailboxReceiver::is_empty', RX + 'is_empty$', query_finish('is_empty')),
    J('MailboxReceiver::len', RX + 'len$', query_finish('len')),
    J('MailboxReceiver::sender_strong_count', RX + 'sender_strong_count$', query_finish('sender_strong_count')),
    J('MailboxReceiver::sender_weak_count', RX + 'sender_weak_count$', query_finish('sender_weak_count')),
    J('bounded', r'^mailbox::bounded$', make_finish('bounded'), setup=nochan_setup),
    J('unbounded', r'^mailbox::unbounded$', make_finish('unbounded'), setup=nochan_setup),
]
for pre, ty_ in (('', 'MailboxSender'), ('weak ', 'WeakMailboxSender')):
    R = rf'^<mailbox::{ty_}<A> as mailbox::SignalMailbox>::'
    JOBS += [
        J(pre + 'signal_startup_finished', R + 'signal_startup_finished$', send_finish(STARTED, trying=True, back=False), ('the error says why',)),
        J(pre + 'signal_link_died', R + 'signal_link_died$', send_finish(DIED, back=False), ('it is the right signal',)),
        J(pre + 'signal_stop', R + 'signal_stop$', send_finish(STOP, back=False), ('it is the right signal',)),
    ]
