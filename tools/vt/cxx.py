"""Compiling generated headers."""
import hashlib, os, re
from . import env
from .env import CheckError, sh, pmap

GXX = ['g++', '-std=c++11', '-w']
CLANGXX = ['clang++', '-std=c++11', '-w']


def generate(run, proto_path, header):
    r = sh([run.protogen(), proto_path, header], timeout=120)
    return r.returncode, r.stderr


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write(text)
    return path


def compile_(cmd, timeout=600):
    """None, or the first errors."""
    for attempt in (1, 2):
        r = sh(cmd, timeout=timeout)
        if r.returncode == 0:
            return None
    err = [x for x in r.stderr.split('\n') if 'error' in x or 'multiple definition' in x or 'undefined reference' in x]
    return '\n'.join(err)[:700] or r.stderr[:700] or 'status %d' % r.returncode


USE = '''
template<typename T> int pg_use_%(id)s( T &a )
{
    T b(a), c;
    std::string s;
    std::vector<char> v;
    c = b;
    c.swap(b);
    if (!a.serialize(s) || !a.serialize(v)) return 1;
    if (!c.deserialize(s) || !c.deserialize(v) || !c.deserialize(s.c_str(), s.size())) return 2;
    std::istringstream is(s);
    std::ostringstream os;
    if (!a.serialize(os) || !c.deserialize(is) || os.str() != s) return 3;
    if (a != b || !(a == b)) return 4;
    c.clear();
    return c.empty() && b.empty() == a.empty() ? 0 : 5;
}
'''


def use_code(ident, classes):
    o = [USE % {'id': ident}, 'int pg_run_%s() {' % ident]
    for c in classes:
        o.append('  { %s a; int r = pg_use_%s(a); if (r != 0) return r; }' % (c, ident))
    o.append('  return 0; }')
    return '\n'.join(o) + '\n'


def cpp_name(pkg, name):
    return '::' + ''.join(p + '::' for p in pkg.split('.') if p) + name
