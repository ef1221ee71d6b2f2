"""Abstract schemas: their proto3 text, their TLA+ form and their C++ binding."""
import random

KIND = {'double': 'f64', 'float': 'f32', 'int32': 'i32', 'sint32': 'i32', 'sfixed32': 'i32',
        'int64': 'i64', 'sint64': 'i64', 'sfixed64': 'i64', 'uint32': 'u32', 'fixed32': 'u32',
        'uint64': 'u64', 'fixed64': 'u64', 'bool': 'bool', 'string': 'str', 'bytes': 'bytes'}
TYPES = list(KIND)


class Field:
    def __init__(self, name, type, num, rep=False, json=None, transient=None, msg=None, opt=False):
        self.name, self.type, self.num, self.rep, self.json, self.transient = name, type, num, rep, json, transient
        self.msg, self.opt = msg, opt          # msg: index of the message when type is 'message'

    @property
    def kind(self):
        return 'msg' if self.type == 'message' else KIND[self.type]


class Msg:
    def __init__(self, name, fields, pkg=''):
        self.name, self.fields, self.pkg = name, fields, pkg

    @property
    def cpp(self):
        return '::' + ''.join(p + '::' for p in self.pkg.split('.') if p) + self.name


class Schema:
    def __init__(self, msgs, options=None, name='s'):
        self.msgs, self.options, self.name = msgs, dict(options or {}), name

    def on(self, o):
        return self.options.get(o) is True

    def json_name(self, f):
        if self.on('number_names'):
            return str(f.num)
        return f.json if f.json is not None else f.name

    def proto(self):
        o = ['syntax = "proto3";']
        for k, v in self.options.items():
            o.append('option %s = %s;' % (k, 'true' if v else 'false'))
        pkg = ''
        for m in self.msgs:
            if m.pkg != pkg:
                o.append('package %s;' % m.pkg)
                pkg = m.pkg
            o.append('message %s {' % m.name)
            for f in m.fields:
                t = f.type
                if t == 'message':
                    r = self.msgs[f.msg]
                    t = r.name if r.pkg == m.pkg else (r.pkg + '.' + r.name if r.pkg else r.name)
                opts = []
                if f.json is not None:
                    opts.append('name="%s"' % f.json)
                if f.transient is not None:
                    opts.append('transient=%s' % ('true' if f.transient else 'false'))
                o.append('  %s%s %s = %d%s;' % ('repeated ' if f.rep else 'optional ' if f.opt else '', t, f.name, f.num,
                                                ' [' + ', '.join(opts) + ']' if opts else ''))
            o.append('}')
        return '\n'.join(o) + '\n'

    def tla(self):
        return [{'f': [{'n': list(self.json_name(f).encode()), 'k': f.kind, 'r': int(f.rep), 't': int(bool(f.transient)),
                        'm': (f.msg + 1) if f.kind == 'msg' else 0} for f in m.fields]} for m in self.msgs]

    def binding(self):
        """C++ code that gives the driver access to every field."""
        o = ['namespace drv {',
             'template<typename T> inline void clr(T &x) { x.clear(); }']
        # declarations first: messages may contain each other in any order
        for m in self.msgs:
            c = m.cpp
            o.append('template<> struct Acc< %s > { static void dump( Out &o, const %s &m ); static void build( const N &n, %s &m ); };' % (c, c, c))
        for m in self.msgs:
            c = m.cpp
            o.append('inline void Acc< %s >::dump( Out &o, const %s &m ) { (void) m; o.open();' % (c, c))
            for f in m.fields:
                o.append('  Acc<decltype(m.%s)>::dump(o, m.%s);' % (f.name, f.name))
            o.append('  o.close(); }')
            o.append('inline void Acc< %s >::build( const N &n, %s &m ) { (void) n; (void) m;' % (c, c))
            for i, f in enumerate(m.fields):
                o.append('  Acc<decltype(m.%s)>::build(n.k.at(%d), m.%s);' % (f.name, i, f.name))
            o.append('}')
            o.append('template<> struct Fields< %s > {' % c)
            for fn, sig in (('set', '%s &m, int f, const N &n'), ('alt', '%s &m, int f, const N &n'), ('clear', '%s &m, int f')):
                o.append('static void %s( %s ) { (void) m; switch (f) {' % (fn, sig % c))
                for i, f in enumerate(m.fields):
                    if fn == 'set':
                        o.append('  case %d: Acc<decltype(m.%s)>::build(n, m.%s); break;' % (i, f.name, f.name))
                    elif fn == 'alt':
                        o.append('  case %d: alt_(m.%s, n); break;' % (i, f.name))
                    else:
                        o.append('  case %d: clr(m.%s); break;' % (i, f.name))
                o.append('} }')
            for fn, ex in (('copy', 'a.%s = b.%s'), ('swap', 'a.%s.swap(b.%s)')):
                o.append('static void %s( %s &a, %s &b, int f ) { (void) a; (void) b; switch (f) {' % (fn, c, c))
                for i, f in enumerate(m.fields):
                    o.append('  case %d: %s; break;' % (i, ex % (f.name, f.name)))
                o.append('} }')
            o.append('static void native( %s &a, const %s &b, int f, int how ) { (void) a; (void) b; (void) how; switch (f) {' % (c, c))
            for i, f in enumerate(m.fields):
                o.append('  case %d: native_(a.%s, b.%s, how); break;' % (i, f.name, f.name))
            o.append('} }')
            o.append('static bool agree( const %s &a, const %s &b ) { (void) a; (void) b; return true' % (c, c))
            for f in m.fields:
                o.append('  && agree_(a.%s, b.%s)' % (f.name, f.name))
            o.append('; }')
            o.append('template<typename T> static void alt_( T &x, const N &n ) { Acc<T>::build(n, x); }')
            o.append('#ifdef HAS_NUMBER\ntemplate<typename T> static void alt_( PGNS::field<T> &x, const N &n ) { if (n.k.empty()) x = PGNS::field<T>(); else { T t = Val<T>::build(n.k[0]); x.swap(t); } }\n#endif')
            o.append('#ifdef HAS_STRING\nstatic void alt_( PGNS::string_field &x, const N &n ) { if (n.k.empty()) x = PGNS::string_field(); else { std::string t = text_of(n.k[0]); if (t.find((char) 0) == std::string::npos && t.size() % 2) x = t.c_str(); else x.swap(t); } }\n#endif')
            o.append('};')
        o.append('inline void install( Handlers &ms, Handlers &as ) { (void) as;')
        for m in self.msgs:
            o.append('  ms.push_back(std::unique_ptr<Handler>(new MsgHandler< %s >()));' % m.cpp)
        o.append('#ifdef HAS_ARRAY')
        for t, _ in self.arrays():
            o.append('  as.push_back(std::unique_ptr<Handler>(new ArrayHandler< %s >()));' % t)
        o.append('#endif')
        o.append('}')
        o.append('} // drv')
        return '\n'.join(o) + '\n'

    def kinds(self):
        return {f.kind for m in self.msgs for f in m.fields}

    def needs(self):
        """Parts of the runtime the schema certainly needs (those that the header has to offer)."""
        k = self.kinds()
        return {'HAS_NUMBER': bool(k & {'i32', 'i64', 'u32', 'u64', 'f32', 'f64', 'bool'}),
                'HAS_STRING': 'str' in k,
                'HAS_BASE64': 'bytes' in k,
                'HAS_ARRAY': any(f.rep for m in self.msgs for f in m.fields)}

    def arrays(self):
        """Top-level containers: (C++ type, element type in the TLA+ form)."""
        n = self.needs()
        r = []
        if not n['HAS_ARRAY']:
            return r
        if n['HAS_NUMBER']:
            r += [('std::vector<int32_t>', ('i32', 0)), ('std::list<int64_t>', ('i64', 0)), ('std::deque<uint32_t>', ('u32', 0)),
                  ('std::vector<uint64_t>', ('u64', 0)), ('std::vector<float>', ('f32', 0)), ('std::list<double>', ('f64', 0)),
                  ('std::vector<bool>', ('bool', 0)), ('std::deque<bool>', ('bool', 0))]
        if n['HAS_STRING']:
            r += [('std::vector<std::string>', ('sstr', 0)), ('std::list<std::string>', ('sstr', 0)),
                  ('std::vector<PGNS::string_field>', ('str', 0))]
        if n['HAS_BASE64']:
            r += [('std::vector< std::vector<uint8_t> >', ('bytes', 0)), ('std::list< std::vector<uint8_t> >', ('bytes', 0))]
        cont = ('vector', 'list', 'deque')
        for i, m in enumerate(self.msgs):
            r.append(('std::%s< %s >' % (cont[i % 3], m.cpp), ('msg', i + 1)))
        return r


# ------------------------------------------------------------------ fixed family

def universal(options=None, name='u', pkg='pk.inner'):
    """Every type, singular and repeated, nested to three levels, transient fields, custom names."""
    leaf = Msg('Leaf', [Field('a', 'int32', 1), Field('s', 'string', 2), Field('hid', 'string', 3, transient=True),
                        Field('rb', 'bytes', 9, rep=True), Field('d', 'double', 4, rep=True)], pkg)
    mid = Msg('Mid', [Field('leaf', 'message', 1, msg=0), Field('leaves', 'message', 2, rep=True, msg=0),
                      Field('flag', 'bool', 3), Field('data', 'bytes', 4)], pkg)
    fs = []
    n = 1
    for t in TYPES:
        fs.append(Field('f_' + t, t, n)); n += 1
        fs.append(Field('r_' + t, t, 100 + n, rep=True)); n += 1
    fs.append(Field('m', 'message', 50, msg=1))
    fs.append(Field('rm', 'message', 51, rep=True, msg=1))
    fs.append(Field('named', 'string', 52, json='a-b c:/é$1$'))
    fs.append(Field('tr_i', 'int64', 53, transient=True))
    fs.append(Field('tr_m', 'message', 54, transient=True, msg=0))
    fs.append(Field('tr_r', 'string', 55, rep=True, transient=True, json='hidden'))
    fs.append(Field('keep', 'uint32', 56, transient=False, opt=True))
    top = Msg('Top', fs, pkg)
    tr = Msg('OnlyTransient', [Field('x', 'int32', 1, transient=True), Field('y', 'string', 2, transient=True)], pkg)
    empty = Msg('Empty', [], pkg)
    holder = Msg('Holder', [Field('e', 'message', 1, msg=4), Field('o', 'message', 2, msg=3), Field('re', 'message', 3, rep=True, msg=4),
                            Field('ro', 'message', 4, rep=True, msg=3), Field('t', 'message', 5, msg=2)], pkg)
    return Schema([leaf, mid, top, tr, empty, holder], options, name)


def small(options=None, name='t'):
    """A small message for exhaustive exploration."""
    sub = Msg('Sub', [Field('x', 'int32', 1)], '')
    m = Msg('Small', [Field('i', 'int32', 1), Field('s', 'string', 2), Field('a', 'int32', 3, rep=True), Field('o', 'message', 4, msg=0),
                      Field('b', 'bool', 5), Field('y', 'bytes', 6), Field('t', 'int32', 7, transient=True),
                      Field('l', 'message', 8, rep=True, msg=0), Field('f', 'double', 9)], '')
    return Schema([sub, m], options, name)


def many(name='m', count=64, options=None):
    """The largest number of fields."""
    ts = TYPES
    m = Msg('Many', [Field('f%02d' % i, ts[i % len(ts)], i * 7 + 1, rep=(i // len(ts)) % 2 == 1) for i in range(count)], 'many')
    return Schema([m], options, name)


NAMES = ['id', 'name', 'Value', 'x1', 'camelCase', 'snake_case', 'UPPER', 'z', 'longer_identifier_with_many_characters_in_it', 'e_mail', 'k9', '_u']
JSON_NAMES = ['e-mail', 'with space', '', 'ünï', 'a/b', '1', 'true', '\u65e5\u672c', 'x.y', '{', 'quote-free', 'U\U0001f600', 'a,b:c', '$1$', '%s', 'name']
MSG_NAMES = ['Alpha', 'Beta', 'Gamma', 'Delta', 'Package', 'Long_Message_Name', 'M1']
PKGS = ['', 'p', 'a.b', 'one.two.three', 'x_y.z9']


def random_schema(rng, name, options=None):
    nm = rng.randint(1, 4)
    names = rng.sample(MSG_NAMES, nm)
    pkg = rng.choice(PKGS)
    msgs = []
    for i in range(nm):
        nf = rng.choice([1, 2, 3, 5, 8, 12])
        fnames = rng.sample(NAMES, min(nf, len(NAMES)))
        nums = rng.sample(range(1, 60), len(fnames))
        used = set()
        fs = []
        for j, fnm in enumerate(fnames):
            t = rng.choice(TYPES + (['message'] * 5 if i > 0 else []))
            js = None
            if rng.random() < 0.3:
                js = rng.choice(JSON_NAMES)
            tr = rng.choice([None, None, None, None, True, False])
            eff = js if js is not None else fnm
            if eff in used or (js is not None and js in fnames):
                js, eff = None, fnm
            if eff in used:
                continue
            used.add(eff)
            fs.append(Field(fnm, t, rng.choice([nums[j], nums[j] + 18000, 536870911 - nums[j]]), rep=rng.random() < 0.35, json=js, transient=tr,
                            msg=rng.randrange(i) if t == 'message' else None, opt=rng.random() < 0.1))
        msgs.append(Msg(names[i], fs, pkg))
    if options is None:
        options = {}
        for o in ('number_names', 'obfuscate_strings', 'cpp_use_lists'):
            x = rng.random()
            if x < 0.35:
                options[o] = True
            elif x < 0.5:
                options[o] = False
    return Schema(msgs, options, name)
