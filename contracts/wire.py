"""What is put on the wire and read from it again: the derived serde code of the requests, the responses, the errors and the stop reasons. A format (cbor, msgpack) is assumed to give back what it was given, by name or by place."""
from .base import *
from .errors import Job


def text(eng, st, v):
    v = lib.text_of(eng, st, lib.content(eng, st, v))
    return v.s if isinstance(v, Str) else None


def declared(ctx, path):
    for t in ctx.P.types:
        if t and t.get('k') == 'adt' and t.get('path') == path and t.get('variants'):
            return t['variants']
    raise Unsupported(f'no type {path}')


def place(ctx, st, i, n):
    """the place an integer stands for"""
    e = zi(i.e) if isinstance(i, I) else None
    for k in range(n):
        if e is not None and ctx.eng.entails(st, e == k):
            return k
    return None


# ------------------------------------------------------------------ writing
def h_custom(eng, st, info):
    eng.emit(st, 'w_refused')
    return ret(eng, st, Sym(eng.fresh('ser_error'), info.dest))


def outcome(eng, st, info, what):
    """the format takes it, or fails"""
    r = eng.fresh_val(st, info.dest, what)
    eng.emit(st, 'outcome', r)
    return ret(eng, st, r)


def h_unit_v(eng, st, info):
    eng.emit(st, 'w_variant', 'unit', info.args[2], text(eng, st, info.args[3]), None)
    return outcome(eng, st, info, 'unit_variant')


def h_newtype_v(eng, st, info):
    eng.emit(st, 'w_variant', 'newtype', info.args[2], text(eng, st, info.args[3]), info.args[4])
    return outcome(eng, st, info, 'newtype_variant')


def h_struct_v(eng, st, info):
    eng.emit(st, 'w_variant', 'struct', info.args[2], text(eng, st, info.args[3]), info.args[4])
    return outcome(eng, st, info, 'struct_variant')


def h_field(eng, st, info):
    eng.emit(st, 'w_field', text(eng, st, info.args[1]), lib.cterm(eng, st, info.args[2]))
    return outcome(eng, st, info, 'field')


def h_skip(eng, st, info):
    return outcome(eng, st, info, 'skipped')


def h_end(eng, st, info):
    eng.emit(st, 'w_end')
    return outcome(eng, st, info, 'end')


WRITE = [(r'ser::Serializer::serialize_unit_variant$', h_unit_v), (r'ser::Serializer::serialize_newtype_variant$', h_newtype_v),
         (r'ser::Serializer::serialize_struct_variant$', h_struct_v), (r'ser::SerializeStructVariant::serialize_field$', h_field),
         (r'ser::SerializeStructVariant::skip_field$', h_skip), (r'ser::SerializeStructVariant::end$', h_end),
         (r'ser::Error::custom$', h_custom)]
WG = {'variant': (), 'fields': (), 'ended': 0, 'failed': False, 'last': None}


def m_write(ctx, st, name, args):
    g = st.ghost
    if name == 'w_variant':
        g['variant'] += ((args[0], place(ctx, st, args[1], len(ctx.decl)), args[2], None if args[0] != 'newtype' else lib.cterm(ctx.eng, st, args[3])),)
    elif name == 'w_field':
        g['fields'] += ((args[0], args[1]),)
    elif name == 'w_end':
        g['ended'] += 1
    elif name == 'w_refused':        # never part of an answer: it is what happens on this side
        ctx.prove(st, z3.Or(*[gz(ctx.is_variant(st, ctx.me, x)) for x in ctx.local], False), 'only what never leaves this side is refused')
        g['failed'] = z3.BoolVal(True)
    elif name == 'outcome':
        g['last'] = args[0]
        g['failed'] = z3.Or(gz(g['failed']), gz(ctx.is_variant(st, args[0], 'Err')))


VAR, FLD, MISS, SAYS = ('each value is written as the variant it is', 'every field is written under its own name', 'a field left out is one that is read as none', 'writing fails only when the format does')


def writer(name, root, path, local=()):
    def setup(ctx, st, args):
        ctx.local = local
        ctx.decl = declared(ctx, path)
        ctx.me = ctx.content(st, args[0])

    def finish(ctx, st, kind, v):
        g = st.ghost
        if kind != 'ret':
            ctx.prove(st, False, 'never panics')
            return
        ok = gz(ctx.is_variant(st, v, 'Ok'))
        ctx.prove(st, z3.Or(ok, gz(g['failed'])), SAYS)
        ctx.prove(st, z3.Or(z3.Not(ok), z3.Not(gz(g['failed']))), 'a failure of the format is not passed over')
        if ctx.eng.entails(st, z3.Not(ok)):
            return
        if len(g['variant']) != 1:
            raise Unsupported('written in another form')
        how, i, said, val = g['variant'][0]
        if i is None:
            raise Unsupported('written under a computed place')
        d = ctx.decl[i]
        if said != d['name']:
            raise Unsupported('a variant goes under another name')
        ctx.prove(st, ctx.is_variant(st, ctx.me, d['name']), VAR)
        fs = d['fields']
        if how == 'newtype':
            ctx.prove(st, gz(ctx.eq(st, val, ctx.cterm(st, ctx.payload(st, ctx.me, d['name'])))) if len(fs) == 1 else False, VAR)
        elif how == 'unit':
            ctx.prove(st, not fs, VAR)
        else:
            names = [f[0] for f in fs]
            if any(k not in names for k, _ in g['fields']):
                raise Unsupported('a field goes under another name')
            ctx.prove(st, g['ended'] == 1, 'the end is written')
            for k, (fn, ft) in enumerate(fs):
                got = [x for n, x in g['fields'] if n == fn]
                p = ctx.payload(st, ctx.me, d['name'], k)
                if got:
                    ctx.prove(st, gz(ctx.eq(st, got[0], ctx.cterm(st, p))) if len(got) == 1 else False, FLD)
                else:
                    ctx.prove(st, gz(ctx.is_variant(st, p, 'None')) if is_option(ctx, p) else False, MISS)
    return Job(name, root, setup=setup, monitor=m_write, finish=finish, extra=WRITE, ghost=WG, crate='remote', expect=(VAR, SAYS))


def is_option(ctx, p):
    t = ctx.P.t(p.tid) if getattr(p, 'tid', None) is not None else {}
    return t.get('path', '').endswith('option::Option')


# ------------------------------------------------------------------ reading
def h_key(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'key')
    eng.emit(st, 'r_key', r)
    return ret(eng, st, r)


def h_value(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'value')
    eng.ctx.vt = eng.P.t(info.dest)['variants'][0]['fields'][0][1]
    eng.emit(st, 'r_value', r)
    return ret(eng, st, r)


def h_element(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'element')
    eng.emit(st, 'r_element', r)
    return ret(eng, st, r)


def h_missing(eng, st, info):
    """a field that is not there: none if it may be, or else an error"""
    t = eng.P.t(info.dest)['variants'][0]['fields'][0][1]
    if eng.P.t(t).get('path', '').endswith('option::Option'):
        return ret(eng, st, lib.variant(eng, info.dest, 'Ok', lib.none(eng, t)))
    return ret(eng, st, lib.variant(eng, info.dest, 'Err', Sym(eng.fresh('missing'), None)))


def h_err(eng, st, info):
    return ret(eng, st, Sym(eng.fresh('de_error'), info.dest))


READ = [(r'de::MapAccess::next_key$', h_key), (r'de::MapAccess::next_value$', h_value), (r'de::SeqAccess::next_element$', h_element), (r'private::de::missing_field$', h_missing),
        (r'de::Error::(duplicate_field|missing_field|invalid_length|custom|unknown_variant|unknown_field|invalid_value)', h_err)]
GOT, NONE, SAME, WHY = ('every field read is the value under its name', 'a field that was not there is an error, or none', 'each struct of fields is read as the variant it was', 'reading fails only when something fails or is missing')


def reader(name, root, path, by):
    """visit_map (by='name') / visit_seq (by='place') of the nth variant with fields"""
    n = int(re.search(r'#(\d+)', root).group(1)) if '#' in root else 0

    def setup(ctx, st, args):
        vs = declared(ctx, path)
        s = [v for v in vs if v['fields'] and not v['fields'][0][0].isdigit()]
        if n >= len(s):
            raise Unsupported('no such variant')
        ctx.v = s[n]
        ctx.count = len(ctx.v['fields'])
        st.ghost['at'] = 0
        st.ghost['bad'], st.ghost['key'] = z3.BoolVal(False), z3.Const('no_key', V)
        for i in range(ctx.count):
            st.ghost[f'f{i}'], st.ghost[f's{i}'] = z3.Const(f'unset{i}', V), z3.BoolVal(False)

    def monitor(ctx, st, name, args):
        g = st.ghost
        eng = ctx.eng
        if name == 'r_key':
            ctx.key = args[0]
            g['bad'] = z3.Or(g['bad'], gz(ctx.is_variant(st, args[0], 'Err')))
            k = ctx.payload(st, args[0], 'Ok')
            ctx.kt = ctx.payload(st, k, 'Some')
            g['key'] = ctx.term(st, ctx.kt)
        elif name == 'r_value':
            r = args[0]
            ok = gz(ctx.is_variant(st, r, 'Ok'))
            t = ctx.P.t(ctx.kt.tid)
            d = eng.discriminant(st, Sym(g['key'], ctx.kt.tid))
            val = ctx.payload(st, r, 'Ok')
            dup = []
            for x in t['variants']:
                m = re.fullmatch(r'__field(\d+)', x['name'])
                if not m or int(m.group(1)) >= ctx.count:
                    continue
                i, here = int(m.group(1)), d == int(x['discr'])
                if eng.entails(st, z3.Not(here)):
                    continue
                if not same_type(ctx, ctx.vt, ctx.v['fields'][i][1]):
                    raise Unsupported('read as another type')
                g[f'f{i}'] = z3.If(z3.And(here, ok), ctx.term(st, val), g[f'f{i}'])
                g[f's{i}'] = z3.Or(g[f's{i}'], z3.And(here, ok))
            g['bad'] = z3.Or(g['bad'], z3.Not(ok))
        elif name == 'r_element':
            r, i = args[0], g['at']
            ok = gz(ctx.is_variant(st, r, 'Ok'))
            if i < ctx.count:
                o = ctx.payload(st, r, 'Ok')
                some = z3.And(ok, gz(ctx.is_variant(st, o, 'Some')))
                g[f'f{i}'] = z3.If(some, ctx.term(st, ctx.payload(st, o, 'Some')), g[f'f{i}'])
                g[f's{i}'] = some
            g['bad'] = z3.Or(g['bad'], z3.Not(ok))
            g['at'] = i + 1

    def finish(ctx, st, kind, v):
        g = st.ghost
        if kind != 'ret':
            ctx.prove(st, False, 'never panics')
            return
        ok = gz(ctx.is_variant(st, v, 'Ok'))
        if ctx.eng.entails(st, z3.Not(ok)):
            return
        r = ctx.payload(st, v, 'Ok')
        ctx.prove(st, ctx.is_variant(st, r, ctx.v['name']), SAME)
        for i, (fn, ft) in enumerate(ctx.v['fields']):
            p = ctx.payload(st, r, ctx.v['name'], i)
            ctx.prove(st, z3.Implies(g[f's{i}'], gz(ctx.eq(st, p, g[f'f{i}']))), GOT)
            ctx.prove(st, z3.Implies(z3.Not(g[f's{i}']), gz(ctx.is_variant(st, p, 'None')) if is_option(ctx, p) else z3.BoolVal(False)), NONE)
    return Job(name, root, setup=setup, monitor=monitor, finish=finish, extra=READ, crate='remote', expect=(GOT, NONE))


def same_type(ctx, a, b):
    return a == b or ctx.P.t(a)['s'] == ctx.P.t(b)['s']


NAMED = 'a name is read as what it was written for'


def namer(name, root, path, nth=None):
    """visit_str of the fields of the nth variant with fields, or of the variants: the index by which a name is read is that of what it names"""
    def setup(ctx, st, args):
        vs = declared(ctx, path)
        ctx.names = [v['name'] for v in vs]
        if nth is not None:
            s = [v for v in vs if v['fields'] and not v['fields'][0][0].isdigit()]
            if nth >= len(s):
                raise Unsupported('no such variant')
            ctx.names = [f[0] for f in s[nth]['fields']]
        ctx.said = lib.cterm(ctx.eng, st, args[1])

    def finish(ctx, st, kind, v):
        ctx.prove(st, kind == 'ret', 'never panics')
        if kind != 'ret':
            return
        lit = [ctx.term(st, Str(n)) for n in ctx.names]
        ok = gz(ctx.is_variant(st, v, 'Ok'))
        p = ctx.payload(st, v, 'Ok') if not ctx.eng.entails(st, z3.Not(ok)) else None
        for i, n in enumerate(ctx.names):
            if n in LOCAL.get(path, ()):
                continue
            is_n = ctx.said == lit[i]
            if ctx.eng.entails(st, z3.Not(is_n)):
                continue
            if p is None or not isinstance(p, (Agg, Sym)) or ctx.eng.entails(st, gz(ctx.is_variant(st, p, '__ignore'))):
                raise Unsupported('a name that is not known')        # it may go under another
            ctx.prove(st, z3.Implies(is_n, z3.And(ok, gz(ctx.is_variant(st, p, f'__field{i}')))), NAMED)
    return Job(name, root, setup=setup, finish=finish, extra=READ + [(r'from_utf8_lossy$', h_err), (r'ops::deref::Deref>::deref$', h_err)], crate='remote', expect=(NAMED,))


# ------------------------------------------------------------------ which variant
def h_variant(eng, st, info):
    r = eng.fresh_val(st, info.dest, 'variant')
    eng.emit(st, 'r_variant', r)
    return ret(eng, st, r)


def h_read(kind):
    def h(eng, st, info):
        r = eng.fresh_val(st, info.dest, 'content')
        eng.emit(st, 'r_content', kind, r)
        return ret(eng, st, r)
    h.__doc__ = f'the content of a {kind} variant: any, or an error'
    return h


ENUM = READ + [(r'de::EnumAccess::variant$', h_variant), (r'de::VariantAccess::newtype_variant$', h_read('newtype')), (r'de::VariantAccess::unit_variant$', h_read('unit')),
               (r'de::VariantAccess::struct_variant$', h_read('struct'))]
AS, AS_IS = ('a variant is read as the variant it was', 'what was read is what is given')


def m_enum(ctx, st, name, args):
    g = st.ghost
    if name == 'r_variant':
        g['variant'] = args[0]
    elif name == 'r_content':
        g['content'] += (args,)


def picker(name, root, path):
    def setup(ctx, st, args):
        ctx.decl = declared(ctx, path)

    def finish(ctx, st, kind, v):
        g = st.ghost
        if kind != 'ret':
            ctx.prove(st, False, 'never panics')
            return
        if g['variant'] is None:
            raise Unsupported('read in another form')
        ok = gz(ctx.is_variant(st, v, 'Ok'))
        if not g['content']:
            ctx.prove(st, z3.And(z3.Not(ok), gz(ctx.is_variant(st, g['variant'], 'Err'))), 'what can be read is read')
            return
        if len(g['content']) != 1:
            raise Unsupported('read in another form')
        how, r = g['content'][0]
        rok = gz(ctx.is_variant(st, r, 'Ok'))
        ctx.prove(st, ok == rok, 'what can be read is read')
        if ctx.eng.entails(st, z3.Not(z3.And(ok, rok))):
            return
        field = ctx.payload(st, ctx.payload(st, g['variant'], 'Ok'), None)
        val = ctx.payload(st, v, 'Ok')
        got = ctx.payload(st, r, 'Ok')
        readable = [d for d in ctx.decl if d['name'] not in LOCAL.get(path, ())]
        for i, d in enumerate(ctx.decl):
            if d not in readable:
                continue
            here = z3.And(ok, gz(ctx.is_variant(st, field, f'__field{i}')))
            if ctx.eng.entails(st, z3.Not(here)):
                continue
            if how == 'struct':
                ctx.prove(st, z3.Implies(here, gz(ctx.eq(st, v, r))), AS_IS)
                continue
            ctx.prove(st, z3.Implies(here, gz(ctx.is_variant(st, val, d['name']))), AS)
            if how == 'newtype':
                ctx.prove(st, z3.Implies(here, gz(ctx.eq(st, ctx.payload(st, val, d['name']), got))), AS_IS)
    return Job(name, root, setup=setup, monitor=m_enum, finish=finish, extra=ENUM, ghost={'variant': None, 'content': ()}, crate='remote', expect=('what can be read is read',))


REQUEST, RESPONSE, ERROR, REASON = ('remote::swarm::SwarmRequest', 'remote::swarm::SwarmResponse', 'error::RemoteSendError', 'error::ActorStopReason')
LOCAL = {ERROR: ('Io',)}        # what no answer ever carries
JOBS = []
for _n, _p, _g, _k in (('a request', REQUEST, '', ('Ask', 'Tell', 'Link', 'Unlink', 'SignalLinkDied')), ('a response', RESPONSE, '', ()),
                       ('an error', ERROR, '<E>', ('UnknownActor', 'UnknownMessage')), ('a stop reason', REASON, '', ('LinkDied',))):
    _m = re.escape(_p.rsplit('::', 1)[0])
    _t = re.escape(_p + _g)
    _d = rf"{_m}::_::<impl serde_core::de::Deserialize<'de> for {_t}>::deserialize"
    JOBS += [writer(f'wire: {_n} is written as it is', rf'^{_m}::_::<impl serde_core::ser::Serialize for {_t}>::serialize$', _p, LOCAL.get(_p, ())),
             namer(f'wire: {_n}: the names of the kinds', rf'^<{_d}::__FieldVisitor as .*::visit_str$', _p),
             picker(f'wire: {_n}: the kinds', rf'^<{_d}::__Visitor<.*> as .*::visit_enum$', _p)]
    for _i, _v in enumerate(_k):
        _h = f'#{_i}' if len(_k) > 1 else ''
        JOBS += [reader(f'wire: {_n} is read by name: {_v}', rf'^<<{_d}::.*::visit_enum::__Visitor.*::visit_map{_h}$', _p, 'name'),
                 reader(f'wire: {_n} is read by place: {_v}', rf'^<<{_d}::.*::visit_enum::__Visitor.*::visit_seq{_h}$', _p, 'place'),
                 namer(f'wire: {_n}: the names of the fields: {_v}', rf'^<<{_d}::.*::visit_enum::__FieldVisitor.*::visit_str{_h}$', _p, _i)]
