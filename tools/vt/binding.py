"""Schemas as lists of declarations and what spec/Binding.tla says they become."""
import json, random
from . import env, schema

OPTS = ('number_names', 'obfuscate_strings', 'cpp_use_lists')


def fld(name, type, num, rep=0, js=None, tr=0, m=0, mark=0):
    """mark: the word optional, which changes nothing."""
    return {'n': name, 't': type, 'rep': rep, 'num': num, 'js': js, 'tr': tr, 'm': m, 'mark': mark}


def opt(o, v):
    return {'d': 'opt', 'o': o, 'v': v}


def pkg(*p):
    return {'d': 'pkg', 'p': list(p)}


def msg(n, *f):
    return {'d': 'msg', 'n': n, 'f': list(f)}


def for_spec(d):
    if d['d'] != 'msg':
        return d
    return dict(d, f=[{'n': list(f['n'].encode()), 't': f['t'], 'rep': f['rep'], 'num': f['num'], 'js': [] if f['js'] is None else [list(f['js'].encode())], 'tr': f['tr'], 'm': f['m']} for f in d['f']])


def text(ds):
    o = ['syntax = "proto3";']
    cur = []
    where = []
    for d in ds:
        if d['d'] == 'pkg':
            cur = d['p']
        elif d['d'] == 'msg':
            where.append((cur, d['n']))
    cur = []
    for d in ds:
        if d['d'] == 'opt':
            o.append('option %s = %s;' % (d['o'], 'true' if d['v'] else 'false'))
        elif d['d'] == 'pkg':
            cur = d['p']
            o.append('package %s;' % '.'.join(cur))
        else:
            o.append('message %s {' % d['n'])
            for f in d['f']:
                t = f['t']
                if t == 'message':
                    p, n = where[f['m'] - 1]
                    t = n if p == cur else '.'.join(p + [n])
                os_ = []
                if f['js'] is not None:
                    os_.append('name = "%s"' % f['js'])
                if f['tr']:
                    os_.append('transient = %s' % ('true' if f['tr'] == 2 else 'false'))
                if f['num'] % 2:
                    os_.reverse()
                o.append('  %s%s %s = %d%s;' % ('repeated ' if f['rep'] else 'optional ' if f['mark'] else '', t, f['n'], f['num'], ' [' + ', '.join(os_) + ']' if os_ else ''))
            o.append('}')
    return '\n'.join(o) + '\n'


class Bound(schema.Schema):
    """A schema with the meaning the specification gives to it."""

    def __init__(self, ds, meaning, hidden, name):
        self.ds, self.meaning, self.hidden = ds, meaning, [bytes(h) for h in hidden]
        ms, cur = [], []
        for d in ds:
            if d['d'] == 'pkg':
                cur = d['p']
            elif d['d'] == 'msg':
                ms.append(schema.Msg(d['n'], [schema.Field(f['n'], f['t'], f['num'], bool(f['rep']), f['js'], f['tr'] == 2, f['m'] - 1 if f['t'] == 'message' else None) for f in d['f']], '.'.join(cur)))
        schema.Schema.__init__(self, ms, {}, name)

    def proto(self):
        return text(self.ds)

    def tla(self):
        return [{'f': [{k: f[k] for k in 'nkrtm'} for f in m['f']]} for m in self.meaning]


def _tlc(run, cfg, what):
    p = run.path('bmc-%s.json' % what)
    env.write_json(p, cfg)
    r = run.tlc('BindingMC', env={'MC': p})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    return [json.loads(x) for x in r.printed('CASE ')], r


def meanings(run, schemas, prefix):
    """Bound schemas for given declaration lists."""
    out, r = _tlc(run, {'decls': [], 'given': [[for_spec(d) for d in ds] for ds in schemas], 'msgs': 0, 'pkgs': 0, 'paths': 0}, prefix)
    by = {c[0]: c for c in out}
    if len(by) != len(schemas):
        raise env.CheckError('BindingMC gave %d meanings for %d schemas' % (len(by), len(schemas)))
    return [Bound(ds, by[i + 1][3], by[i + 1][4], '%s%d' % (prefix, i)) for i, ds in enumerate(schemas)]


def explore(run, decls, msgs, pkgs, prefix, paths=0):
    """Every reachable meaning (or every path) over these declarations."""
    out, r = _tlc(run, {'decls': [for_spec(d) for d in decls], 'given': [], 'msgs': msgs, 'pkgs': pkgs, 'paths': paths}, prefix)
    run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
    run.progress('BindingMC %s: %d states' % (prefix, r.distinct))
    seen = {}
    for k, ds, o, meaning, hidden in out:
        key = json.dumps([o, meaning], sort_keys=True) if not paths else json.dumps(ds)
        if key not in seen or (len(ds), ds) < (len(seen[key][1]), seen[key][1]):
            seen[key] = (k, ds, o, meaning, hidden)
    return [Bound([decls[i - 1] for i in ds], meaning, hidden, '%s%d' % (prefix, j))
            for j, (k, ds, o, meaning, hidden) in enumerate(sorted(seen.values(), key=lambda c: (len(c[1]), c[1])))]


# ------------------------------------------------------------------ C++ side

def asserts(b, ns):
    """Static assertions that the header has the specified classes and members; returns (code, descriptions by line)."""
    o = ['#include <type_traits>', 'namespace RT = %s;' % ns,
         'template<typename T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;',
         '// text that can be used as std::string',
         'template<typename E> struct textual { static const bool value = std::is_constructible<E, const char*>::value && std::is_constructible<E, std::string>::value && std::is_assignable<E&, std::string>::value && std::is_convertible<const E&, const std::string&>::value; };',
         ]
    for i, m in enumerate(b.meaning):
        c = m['cls']
        o.append('static_assert(std::is_class< %s >::value, "%s is not a class");' % (c, c))
        for tr in ('is_default_constructible', 'is_copy_constructible', 'is_copy_assignable', 'is_move_constructible', 'is_move_assignable', 'is_destructible'):
            o.append('static_assert(std::%s< %s >::value, "%s: %s");' % (tr, c, c, tr))
        for f, d in zip(m['f'], b.msgs[i].fields):
            what = '%s::%s' % (c, d.name)
            t = 'bare<decltype(std::declval< %s& >().%s)>' % (c, d.name)
            e, k = f['cpp']['e'], f['cpp']['c']
            o.append('static_assert(!std::is_reference<decltype(%s::%s)>::value && !std::is_const<decltype(%s::%s)>::value, "%s is not an own, modifiable member");' % (c, d.name, c, d.name, what))
            if f['k'] == 'str' and k:
                o.append('static_assert(std::is_same< %s, %s< %s::value_type > >::value, "%s is not %s");' % (t, k, t, what, k))
                o.append('static_assert(textual< %s::value_type >::value, "%s: elements are not text");' % (t, what))
            elif k:
                o.append('static_assert(std::is_same< %s, %s< %s > >::value, "%s is not %s of %s");' % (t, k, e, what, k, e))
            else:
                o.append('static_assert(std::is_same< %s, %s >::value, "%s is not %s");' % (t, e, what, e))
    return '\n'.join(o) + '\n'
