// Conformance driver: executes operations on the classes of a generated header and reports what happened.
// Included after the generated header; PGNS is the namespace of the runtime.
// Every value is written as nested arrays of integers (see spec/Decoder.tla for the encoding).
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <memory>
#include <map>
#include <sstream>
#include <iostream>
#include <fstream>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <locale.h>
#include <clocale>
#include <sys/mman.h>
#include <unistd.h>

namespace drv {

// ------------------------------------------------------------------ values

struct N
{
    bool leaf = false;
    long v = 0;
    std::vector<N> k;
};

inline const char *parse( const char *p, N &n )
{
    while (*p == ' ' || *p == ',') ++p;
    if (*p == '[')
    {
        ++p;
        while (true)
        {
            while (*p == ' ' || *p == ',') ++p;
            if (*p == ']') return p + 1;
            if (*p == 0) { fprintf(stderr, "driver: bad value\n"); _exit(3); }
            n.k.push_back(N());
            p = parse(p, n.k.back());
        }
    }
    n.leaf = true;
    char *end;
    n.v = strtol(p, &end, 10);
    if (end == p) { fprintf(stderr, "driver: bad value at '%s'\n", p); _exit(3); }
    return end;
}

inline std::string text_of( const N &n )
{
    std::string s;
    for (size_t i = 0; i < n.k.size(); ++i) s += (char) n.k[i].v;
    return s;
}

struct Out
{
    std::string s;
    void sep() { if (!s.empty() && s.back() != '[' && s.back() != ':' && s.back() != '{') s += ','; }
    void open() { sep(); s += '['; }
    void close() { s += ']'; }
    void num( long v ) { sep(); s += std::to_string(v); }
    void key( const char *k ) { sep(); s += '"'; s += k; s += "\":"; }
    void bytes( const char *p, size_t n )
    {
        open();
        for (size_t i = 0; i < n; ++i) num((unsigned char) p[i]);
        close();
    }
    void bytes( const std::string &t ) { bytes(t.data(), t.size()); }
};

template<typename T> struct Val;

template<typename T> struct IntVal
{
    static void dump( Out &o, T v )
    {
        char t[32];
        if (v < 0) snprintf(t, sizeof t, "%lld", (long long) v); else snprintf(t, sizeof t, "%llu", (unsigned long long) v);
        o.bytes(t, strlen(t));
    }
    static T build( const N &n )
    {
        std::string t = text_of(n);
        return t[0] == '-' ? (T) strtoll(t.c_str(), nullptr, 10) : (T) strtoull(t.c_str(), nullptr, 10);
    }
};
template<> struct Val<int32_t> : IntVal<int32_t> {};
template<> struct Val<uint32_t> : IntVal<uint32_t> {};
template<> struct Val<int64_t> : IntVal<int64_t> {};
template<> struct Val<uint64_t> : IntVal<uint64_t> {};

template<typename T, typename U> struct FloatVal
{
    static void dump( Out &o, T v )
    {
        U u;
        memcpy(&u, &v, sizeof u);
        o.open();
        for (int i = (int) sizeof(U) - 1; i >= 0; --i) o.num((long) ((u >> (8 * i)) & 0xFF));
        o.close();
    }
    static T build( const N &n )
    {
        U u = 0;
        for (size_t i = 0; i < n.k.size(); ++i) u = (U) (u << 8) | (U) n.k[i].v;
        T v;
        memcpy(&v, &u, sizeof v);
        return v;
    }
};
template<> struct Val<float> : FloatVal<float, uint32_t> {};
template<> struct Val<double> : FloatVal<double, uint64_t> {};
template<> struct Val<bool>
{
    static void dump( Out &o, bool v ) { o.num(v ? 1 : 0); }
    static bool build( const N &n ) { return n.v != 0; }
};
template<> struct Val<std::string>
{
    static void dump( Out &o, const std::string &v ) { o.bytes(v); }
    static std::string build( const N &n ) { return text_of(n); }
};

// Field access: dump, build (n has the shape described in Decoder.tla)
template<typename T> struct Acc; // messages: specialised by the generated code

template<typename T> struct Plain
{
    static void dump( Out &o, const T &v ) { Val<T>::dump(o, v); }
    static void build( const N &n, T &v ) { v = Val<T>::build(n); }
};
template<> struct Acc<int32_t> : Plain<int32_t> {};
template<> struct Acc<uint32_t> : Plain<uint32_t> {};
template<> struct Acc<int64_t> : Plain<int64_t> {};
template<> struct Acc<uint64_t> : Plain<uint64_t> {};
template<> struct Acc<float> : Plain<float> {};
template<> struct Acc<double> : Plain<double> {};
template<> struct Acc<bool> : Plain<bool> {};
template<> struct Acc<std::string> : Plain<std::string> {};
template<> struct Acc<uint8_t>
{
    static void dump( Out &o, uint8_t v ) { o.num(v); }
    static void build( const N &n, uint8_t &v ) { v = (uint8_t) n.v; }
};

template<typename T> struct Container
{
    static void dump( Out &o, const T &v )
    {
        o.open();
        for (typename T::const_iterator it = v.begin(); it != v.end(); ++it)
        {
            typename T::value_type x = *it;
            Acc<typename T::value_type>::dump(o, x);
        }
        o.close();
    }
    static void build( const N &n, T &v )
    {
        T t;
        for (size_t i = 0; i < n.k.size(); ++i)
        {
            typename T::value_type x = typename T::value_type();
            Acc<typename T::value_type>::build(n.k[i], x);
            t.push_back(x);
        }
        v = t;
    }
};
template<typename T> struct Acc< std::vector<T> > : Container< std::vector<T> > {};
template<typename T> struct Acc< std::list<T> > : Container< std::list<T> > {};
template<typename T> struct Acc< std::deque<T> > : Container< std::deque<T> > {};

#ifdef HAS_NUMBER
template<typename T> struct Acc< PGNS::field<T> >
{
    static void dump( Out &o, const PGNS::field<T> &v )
    {
        o.open();
        if (!v.empty()) Val<T>::dump(o, (T) v);
        o.close();
    }
    static void build( const N &n, PGNS::field<T> &v )
    {
        if (n.k.empty()) { v.clear(); return; }
        T x = Val<T>::build(n.k[0]);
        // every way of giving the field a value
        const unsigned char *b = (const unsigned char*) &x;
        switch ((b[0] + b[sizeof(T) - 1]) % 4)
        {
            case 1: v.swap(x); break;
            case 2: { PGNS::field<T> y; y = x; v.swap(y); break; }
            case 3: { PGNS::field<T> y; y = x; PGNS::field<T> z(y); v = z; break; }
            default: v = x;
        }
    }
};
#endif
#ifdef HAS_STRING
template<> struct Acc<PGNS::string_field>
{
    static void dump( Out &o, const PGNS::string_field &v )
    {
        o.open();
        if (!v.empty()) o.bytes((const std::string&) v);
        o.close();
    }
    static void build( const N &n, PGNS::string_field &v )
    {
        if (n.k.empty()) { v.clear(); return; }
        // every way of giving the field a value
        std::string t = text_of(n.k[0]);
        unsigned how = (unsigned) t.size();
        for (size_t i = 0; i < t.size(); ++i) how += (unsigned char) t[i];
        switch (how % 7)
        {
            case 1: if (t.find((char) 0) == std::string::npos) v = t.c_str(); else v = t; break;
            case 2: v.clear(); if (t.empty()) v = t; else { std::string &r = v; r = t; } break;
            case 3: v.clear(); if (t.empty()) v = t; else (*v) += t; break;
            case 4: v = PGNS::string_field(t); break;
            case 5: v.swap(t); break;
            case 6: { PGNS::string_field x(t); v.swap(x); break; }
            default: v = t;
        }
    }
};
#endif

// Assigns to a field what another one (or itself) holds, by what the field gives access to, and compares a field with it.
template<typename T> inline void native_( T &x, const T &y, int how )
{
    if (how % 2 == 0) { x = y; return; }
    T z(y);
    x = z;
}
template<typename T> inline bool agree_( const T &, const T & ) { return true; }
#ifdef HAS_NUMBER
template<typename T> inline void native_( PGNS::field<T> &x, const PGNS::field<T> &y, int how )
{
    if (y.empty()) return;
    if (how % 2 == 0) x = (T) y;
    else { T t = y; x = t; }
}
template<typename T> inline bool agree_( const PGNS::field<T> &x, const PGNS::field<T> &y )
{
    if (y.empty()) return true;
    T t = (T) y;
    bool eq = !x.empty() && (T) x == t;
    return (x == t) == eq && (x.empty() || (x != t) == !eq);
}
#endif
#ifdef HAS_STRING
inline void native_( PGNS::string_field &x, const PGNS::string_field &y, int how )
{
    if (y.empty()) return;
    const std::string &r = y;
    switch (how % 4)
    {
        case 0: x = *y; break;
        case 1: x = r; break;
        case 2: if (r.find((char) 0) == std::string::npos) x = r.c_str(); else x = r; break;
        case 3: { std::string t(r); x = t; t += "changed"; } break;
    }
}
inline bool agree_( const PGNS::string_field &x, const PGNS::string_field &y )
{
    if (y.empty()) return true;
    const std::string &t = y, &u = x;
    bool eq = !x.empty() && u == t;
    if ((x == t) != eq || (!x.empty() && (x != t) == eq)) return false;
    if (t.find((char) 0) != std::string::npos) return true;
    return (x == t.c_str()) == eq && (x.empty() || (x != t.c_str()) == !eq);
}
#endif

// generic access to the fields of messages by position (specialised by the generated code)
template<typename M> struct Fields;

// ------------------------------------------------------------------ channels

// memory that ends at an inaccessible page
struct Guarded
{
    char *base, *ptr;
    size_t total;
    explicit Guarded( size_t len )
    {
        size_t page = (size_t) sysconf(_SC_PAGESIZE);
        size_t body = (len + page - 1) / page * page;
        total = body + page;
        base = (char*) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == (char*) MAP_FAILED) _exit(3);
        mprotect(base + body, page, PROT_NONE);
        ptr = base + body - len;
        memset(base, 0x5A, body);
    }
    ~Guarded() { munmap(base, total); }
};

struct TestIn : PGNS::istream
{
    const std::string &t;
    size_t p;
    int l, c;
    TestIn( const std::string &t ) : t(t), p(0), l(1), c(1) {}
    int peek() override { return p < t.size() ? t[p] : 0; }
    void next() override
    {
        if (p >= t.size()) return;
        if (t[p] == '\n') { ++l; c = 1; } else ++c;
        ++p;
    }
    bool eof() const override { return p >= t.size(); }
    int line() const override { return l; }
    int column() const override { return c; }
};

struct TestOut : PGNS::ostream
{
    std::string t;
    using PGNS::ostream::operator<<;
    PGNS::ostream &operator<<( const std::string &v ) override { t += v; return *this; }
    PGNS::ostream &operator<<( const char *v ) override { t += v; return *this; }
    PGNS::ostream &operator<<( char *v ) override { t += v; return *this; }
    PGNS::ostream &operator<<( char v ) override { t += v; return *this; }
};

// delivers one character at a time
struct OneByte : std::streambuf
{
    const std::string &t;
    size_t p;
    char c;
    OneByte( const std::string &t ) : t(t), p(0), c(0) {}
    int_type underflow() override
    {
        if (p >= t.size()) return traits_type::eof();
        c = t[p++];
        setg(&c, &c, &c + 1);
        return traits_type::to_int_type(c);
    }
};

// streams that wait for their turn before every piece
typedef std::function<void()> Gate;

struct GateIn : TestIn
{
    Gate g;
    GateIn( const std::string &t, const Gate &g ) : TestIn(t), g(g) {}
    void next() override { g(); TestIn::next(); }
};

struct GateOut : TestOut
{
    Gate g;
    explicit GateOut( const Gate &g ) : g(g) {}
    PGNS::ostream &operator<<( const std::string &v ) override { g(); return TestOut::operator<<(v); }
    PGNS::ostream &operator<<( const char *v ) override { g(); return TestOut::operator<<(v); }
    PGNS::ostream &operator<<( char *v ) override { g(); return TestOut::operator<<(v); }
    PGNS::ostream &operator<<( char v ) override { g(); return TestOut::operator<<(v); }
};

// accepts a number of characters and then fails
struct Full : std::streambuf
{
    size_t left;
    explicit Full( size_t n ) : left(n) {}
    int_type overflow( int_type ch ) override
    {
        if (left == 0) return traits_type::eof();
        --left;
        return ch;
    }
};

#ifdef DRV_FAULT
// memory whose blocks are counted and that can refuse one request
struct Heap
{
    static long live, left;
    static bool hit;
    static void *take( size_t n )
    {
        if (left == 0) { left = -1; hit = true; throw std::bad_alloc(); }
        if (left > 0) --left;
        void *p = malloc(n ? n : 1);
        if (p == nullptr) throw std::bad_alloc();
        ++live;
        return p;
    }
    static void give( void *p )
    {
        if (p == nullptr) return;
        --live;
        free(p);
    }
};
long Heap::live = 0, Heap::left = -1;
bool Heap::hit = false;

struct Stop {};

// throws instead of going beyond a character
struct StopIn : TestIn
{
    size_t at;
    StopIn( const std::string &t, size_t at ) : TestIn(t), at(at) {}
    void next() override
    {
        if (p == at) { Heap::hit = true; throw Stop(); }
        TestIn::next();
    }
};

// throws instead of taking another piece
struct StopOut : TestOut
{
    long left;
    explicit StopOut( long n ) : left(n) {}
    void step() { if (left-- == 0) { Heap::hit = true; throw Stop(); } }
    PGNS::ostream &operator<<( const std::string &v ) override { step(); return TestOut::operator<<(v); }
    PGNS::ostream &operator<<( const char *v ) override { step(); return TestOut::operator<<(v); }
    PGNS::ostream &operator<<( char *v ) override { step(); return TestOut::operator<<(v); }
    PGNS::ostream &operator<<( char v ) override { step(); return TestOut::operator<<(v); }
};

// throws instead of giving another character
struct StopBuf : OneByte
{
    size_t at;
    StopBuf( const std::string &t, size_t at ) : OneByte(t), at(at) {}
    int_type underflow() override
    {
        if (p == at) { Heap::hit = true; throw Stop(); }
        return OneByte::underflow();
    }
};

// takes a number of characters and then refuses or throws
struct StopSink : std::streambuf
{
    std::string t;
    size_t at;
    bool loud;
    StopSink( size_t at, bool loud ) : at(at), loud(loud) {}
    int_type overflow( int_type ch ) override
    {
        if (t.size() >= at) { Heap::hit = true; if (loud) throw Stop(); return traits_type::eof(); }
        t += (char) ch;
        return ch;
    }
};
#endif

typedef PGNS::Parameters Params;

struct Result
{
    bool ok;
    long code, line, col;
    int msg;   // has a message
    int par;   // other parameters, prefix and surroundings intact
    std::string out;
    std::string key() const
    {
        Out o;
        o.key("ok"); o.num(ok); o.key("code"); o.num(code); o.key("line"); o.num(line); o.key("col"); o.num(col);
        o.key("msg"); o.num(msg); o.key("par"); o.num(par); o.key("out");
        return o.s + out;
    }
};

struct Group
{
    std::vector<std::pair<std::string, std::vector<int>>> g;
    void add( int h, const std::string &key )
    {
        for (size_t i = 0; i < g.size(); ++i)
            if (g[i].first == key) { g[i].second.push_back(h); return; }
        g.push_back(std::make_pair(key, std::vector<int>(1, h)));
    }
    std::string text() const
    {
        Out o;
        for (size_t i = 0; i < g.size(); ++i)
        {
            o.sep();
            o.s += "{\"h\":[";
            for (size_t j = 0; j < g[i].second.size(); ++j) o.num(g[i].second[j]);
            o.s += "],";
            o.s += g[i].first;
            o.s += '}';
        }
        return "[" + o.s + "]";
    }
};

inline void dirty( Params &p )
{
    p.error = PGNS::ErrorInfo(PGNS::PGERR_MISSING_FIELD, "old error", 77, 78);
}

inline void outcome( Result &r, bool ok, const Params *p, bool ea, bool sn )
{
    r.ok = ok;
    r.line = r.col = 0;
    r.par = 1;
    r.msg = 0;
    r.code = -1;
    if (p == nullptr) return;
    r.code = p->error.code;
    r.line = p->error.line;
    r.col = p->error.column;
    r.msg = p->error.message.empty() ? 0 : 1;
    if (p->ensure_ascii != ea || p->serialize_null != sn) r.par = 0;
}

// Messages and arrays are read and written through different functions
template<typename M> struct MsgApi
{
    enum { is_array = 0 };
    static bool read( M &m, PGNS::istream &in, Params *p ) { return m.deserialize(in, p); }
    static bool read( M &m, std::istream &in, Params *p ) { return m.deserialize(in, p); }
    static bool read( M &m, const std::string &in, Params *p ) { return m.deserialize(in, p); }
    static bool read( M &m, const std::vector<char> &in, Params *p ) { return m.deserialize(in, p); }
    static bool read( M &m, const char *in, size_t n, Params *p ) { return m.deserialize(in, n, p); }
    static bool write( const M &m, PGNS::ostream &out, Params *p ) { return m.serialize(out, p); }
    static bool write( const M &m, std::ostream &out, Params *p ) { return m.serialize(out, p); }
    static bool write( const M &m, std::string &out, Params *p ) { return m.serialize(out, p); }
    static bool write( const M &m, std::vector<char> &out, Params *p ) { return m.serialize(out, p); }
    static bool write( M &m, char *out, size_t n, Params *p ) { return m.serialize(out, n, p); }
};

#ifdef HAS_ARRAY
template<typename M> struct ArrayApi
{
    enum { is_array = 1 };
    static bool read( M &m, PGNS::istream &in, Params *p ) { return PGNS::deserialize_array(m, in, p); }
    static bool read( M &m, std::istream &in, Params *p )
    {
        bool skip = in.flags() & std::ios_base::skipws;
        std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        (void) skip;
        return PGNS::deserialize_array(m, t, p);
    }
    static bool read( M &m, const std::string &in, Params *p ) { return PGNS::deserialize_array(m, in, p); }
    static bool read( M &m, const std::vector<char> &in, Params *p ) { return PGNS::deserialize_array(m, in, p); }
    static bool read( M &m, const char *in, size_t n, Params *p ) { return PGNS::deserialize_array(m, in, n, p); }
    static bool write( const M &m, PGNS::ostream &out, Params *p ) { return PGNS::serialize_array(m, out, p); }
    static bool write( const M &m, std::string &out, Params *p ) { return PGNS::serialize_array(m, out, p); }
    static bool write( const M &m, std::vector<char> &out, Params *p ) { return PGNS::serialize_array(m, out, p); }
    // not provided by the library for arrays
    static bool write( const M &m, std::ostream &out, Params *p )
    {
        std::string t;
        bool ok = PGNS::serialize_array(m, t, p);
        out << t;
        return ok && out.good();
    }
    static bool write( M &m, char *out, size_t n, Params *p )
    {
        std::string t;
        if (!PGNS::serialize_array(m, t, p) || t.size() > n) return false;
        memcpy(out, t.data(), t.size());
        return true;
    }
};
#endif

// ------------------------------------------------------------------ operations

struct Handler
{
    virtual ~Handler() {}
    virtual std::string read( const N &arg ) = 0;    // [mask, init or 0, text]
    virtual std::string write( const N &arg ) = 0;   // [mask, ea, sn, value]
    virtual std::string loop( const N &arg ) = 0;    // [ea, sn, value]
    virtual std::string script( const N &arg, bool all ) = 0;  // [[op, a, b, f, value] ...]
    virtual std::shared_ptr<void> make( const N &value ) = 0;
    virtual std::string write_shared( const void *obj, bool ea, bool sn ) = 0;
#ifdef DRV_GATED
    virtual std::string gated_read( const N &arg, const Gate &g ) = 0;   // [mask, init or 0, text]
    virtual std::string gated_write( const void *obj, bool ea, bool sn, const Gate &g ) = 0;
#endif
#ifdef DRV_FAULT
    virtual std::string fault_read( const N &arg ) = 0;    // [mode, init or 0, text, second, step]
    virtual std::string fault_write( const N &arg ) = 0;   // [mode, ea, sn, value, step]
#endif
};

template<typename M, typename Api> struct HandlerBase : Handler
{
    static void fill( Result &r, M &m )
    {
        Out o;
        if (r.ok) Acc<M>::dump(o, m); else { o.open(); o.close(); }
        r.out = o.s;
    }

    std::string read( const N &arg ) override
    {
        long mask = arg.k[0].v;
        const N &init = arg.k[1];
        std::string text = text_of(arg.k[2]);
        Group g;
        for (int h = 0; h < 10; ++h)
        {
            if (!(mask & (1L << h))) continue;
            locale_t loc = uselocale((locale_t) 0);
            M m;
            if (!init.leaf) Acc<M>::build(init, m);
            Params p, *pp = &p;
            bool ea = false, sn = false, ok = false, intact = true;
            switch (h)
            {
                case 0: ok = Api::read(m, text, pp); break;
                case 1:
                {
                    std::vector<char> v(text.begin(), text.end());
                    ok = Api::read(m, v, pp);
                    break;
                }
                case 2:
                {
                    Guarded b(text.size());
                    memcpy(b.ptr, text.data(), text.size());
                    ok = Api::read(m, (const char*) b.ptr, text.size(), pp);
                    intact = memcmp(b.ptr, text.data(), text.size()) == 0;
                    break;
                }
                case 3:
                {
                    std::istringstream s(text);
                    ok = Api::read(m, (std::istream&) s, pp);
                    intact = (s.flags() & std::ios_base::skipws) != 0;
                    break;
                }
                case 4:
                {
                    std::istringstream s(text);
                    s >> std::noskipws >> std::hex;
                    ok = Api::read(m, (std::istream&) s, pp);
                    intact = (s.flags() & std::ios_base::skipws) == 0 && (s.flags() & std::ios_base::hex) != 0;
                    break;
                }
                case 5:
                {
                    TestIn s(text);
                    ok = Api::read(m, (PGNS::istream&) s, pp);
                    break;
                }
                case 6:
                {
                    OneByte b(text);
                    std::istream s(&b);
                    ok = Api::read(m, s, pp);
                    intact = (s.flags() & std::ios_base::skipws) != 0;
                    break;
                }
                case 9:
                {
                    // a stream that has been used
                    std::stringstream s;
                    s << "before {" << text;
                    for (int i = 0; i < 8; ++i) s.get();
                    s >> std::oct >> std::boolalpha >> std::uppercase;
                    s.width(3);
                    s.fill('0');
                    std::ios_base::fmtflags fl = s.flags();
                    s.exceptions(std::ios_base::badbit);
                    ok = Api::read(m, (std::istream&) s, pp);
                    intact = s.flags() == fl && s.exceptions() == std::ios_base::badbit;
                    break;
                }
                case 7: pp = nullptr; ok = Api::read(m, text, pp); break;
                case 8:
                    ea = sn = true;
                    p.ensure_ascii = p.serialize_null = true;
                    dirty(p);
                    ok = Api::read(m, text, pp);
                    break;
            }
            Result r;
            outcome(r, ok, pp, ea, sn);
            if (!intact || uselocale((locale_t) 0) != loc) r.par = 0;
            fill(r, m);
            g.add(h, r.key());
        }
        return g.text();
    }

#ifdef DRV_GATED
    std::string gated_read( const N &arg, const Gate &gate ) override
    {
        const N &init = arg.k[1];
        std::string text = text_of(arg.k[2]);
        locale_t loc = uselocale((locale_t) 0);
        M m;
        if (!init.leaf) Acc<M>::build(init, m);
        Params p;
        GateIn s(text, gate);
        bool ok = Api::read(m, (PGNS::istream&) s, &p);
        Result r;
        outcome(r, ok, &p, false, false);
        if (uselocale((locale_t) 0) != loc) r.par = 0;
        fill(r, m);
        Group g;
        g.add(0, r.key());
        return g.text();
    }

    std::string gated_write( const void *obj, bool ea, bool sn, const Gate &gate ) override
    {
        const M &m = *static_cast<const M*>(obj);
        locale_t loc = uselocale((locale_t) 0);
        Params p;
        p.ensure_ascii = ea;
        p.serialize_null = sn;
        GateOut s(gate);
        bool ok = Api::write(m, (PGNS::ostream&) s, &p);
        Result r;
        outcome(r, ok, &p, ea, sn);
        if (uselocale((locale_t) 0) != loc) r.par = 0;
        Out o;
        o.bytes(ok ? s.t : std::string());
        r.out = o.s;
        Group g;
        g.add(0, r.key());
        return g.text();
    }

#endif

#ifdef DRV_FAULT
    // how an operation ends: 0 failure, 1 success, 2 the exception of the stream, 3 no memory, 4 another exception
    template<typename F> static int ending( F f )
    {
        try { return f() ? 1 : 0; }
        catch (Stop &) { return 2; }
        catch (std::bad_alloc &) { return 3; }
        catch (...) { return 4; }
    }

    // mode 0: no fault; 1: the stream stops at character k; 2, 3, 4: allocation k fails (string, stream of the library,
    // standard stream); 5, 6: the buffer of a standard stream stops at character k (quietly, with an exception)
    static int faulty_read( int mode, long k, M &m, const std::string &text, Params &p, bool &intact )
    {
        int how = 4;
        locale_t loc = uselocale((locale_t) 0);
        p.ensure_ascii = true;
        Heap::hit = false;
        if (mode == 0) how = ending([&]() { return Api::read(m, text, &p); });
        if (mode == 2)
        {
            Heap::left = k;
            how = ending([&]() { return Api::read(m, text, &p); });
        }
        if (mode == 1 || mode == 3)
        {
            StopIn s(text, mode == 1 ? (size_t) k : (size_t) -1);
            if (mode == 3) Heap::left = k;
            how = ending([&]() { return Api::read(m, (PGNS::istream&) s, &p); });
        }
        if (mode == 4)
        {
            OneByte b(text);
            std::istream s(&b);
            Heap::left = k;
            how = ending([&]() { return Api::read(m, s, &p); });
            Heap::left = -1;
            intact = (s.flags() & std::ios_base::skipws) != 0;
        }
        if (mode == 5 || mode == 6)
        {
            StopBuf b(text, (size_t) k);
            std::istream s(&b);
            if (mode == 6) s.exceptions(std::ios_base::badbit);
            how = ending([&]() { return Api::read(m, s, &p); });
            intact = (s.flags() & std::ios_base::skipws) != 0;
        }
        Heap::left = -1;
        if (uselocale((locale_t) 0) != loc || !p.ensure_ascii || p.serialize_null) intact = false;
        return how;
    }

    std::string fault_read( const N &arg ) override
    {
        int mode = (int) arg.k[0].v;
        const N &init = arg.k[1];
        std::string text = text_of(arg.k[2]), second = text_of(arg.k[3]);
        long step = arg.k[4].v;
        Group g;
        { M m; Params p; bool x; faulty_read(0, 0, m, text, p, x); }
        for (long k = 0; k <= (long) text.size() || (mode >= 2 && mode <= 4); k += step)
        {
            Result r;
            M m;
            if (!init.leaf) Acc<M>::build(init, m);
            Params p;
            bool intact = true;
            int how = faulty_read(mode, k, m, text, p, intact);
            bool hit = Heap::hit;
            outcome(r, how == 1, &p, true, false);
            Out o;
            o.key("how"); o.num(how);
            o.key("hit"); o.num(hit);
            o.key("code"); o.num(p.error.code);
            o.key("msg"); o.num(p.error.message.empty() ? 0 : 1);
            o.key("par"); o.num(intact);
            o.key("out"); Acc<M>::dump(o, m);
            // the object can be used like any other
            {
                M c(m), d;
                d = m;
                Out x, y, z;
                Acc<M>::dump(x, m); Acc<M>::dump(y, c); Acc<M>::dump(z, d);
                o.key("cpy"); o.num(x.s == y.s && x.s == z.s);
                c.clear();
                o.key("clr"); Acc<M>::dump(o, c);
            }
            Params q;
            o.key("aok"); o.num(Api::read(m, second, &q));
            o.key("aout"); Acc<M>::dump(o, m);
            // once more without looking: nothing may be left
            long before = Heap::live;
            {
                M x;
                if (!init.leaf) Acc<M>::build(init, x);
                Params e;
                bool i = true;
                faulty_read(mode, k, x, text, e, i);
            }
            o.key("left"); o.num(Heap::live - before);
            g.add(hit ? (int) k : -1, o.s);
            if (!hit) break;
        }
        return g.text();
    }

    // mode 0: no fault; 1: the stream refuses piece k; 2..6: allocation k fails (string, vector, buffer, standard stream, stream of
    // the library); 7, 8, 9: the buffer of a standard stream takes k characters only (quietly, throws, throws with an exception)
    static int faulty_write( int mode, long k, M &m, bool ea, bool sn, Params &p, size_t size, std::string &got, bool &intact )
    {
        int how = 4;
        locale_t loc = uselocale((locale_t) 0);
        p.ensure_ascii = ea;
        p.serialize_null = sn;
        got.clear();
        got.reserve(size + 64);
        Heap::hit = false;
        if (mode == 0 || mode == 2)
        {
            std::string t = "<pre>";
            if (mode == 2) Heap::left = k;
            how = ending([&]() { return Api::write((const M&) m, t, &p); });
            Heap::left = -1;
            intact = t.compare(0, 5, "<pre>") == 0;
            if (intact) got.assign(t, 5, t.size());
        }
        if (mode == 3)
        {
            std::vector<char> v(3, 'z');
            Heap::left = k;
            how = ending([&]() { return Api::write((const M&) m, v, &p); });
            Heap::left = -1;
            intact = v.size() >= 3 && v[0] == 'z' && v[1] == 'z' && v[2] == 'z';
            if (intact) got.assign(v.begin() + 3, v.end());
        }
        if (mode == 4)
        {
            Guarded b(size);
            Heap::left = k;
            how = ending([&]() { return Api::write(m, b.ptr, size, &p); });
            Heap::left = -1;
            if (how == 1) got.assign(b.ptr, size);
        }
        if (mode == 5)
        {
            std::ostringstream s;
            s << "<pre>";
            Heap::left = k;
            how = ending([&]() { return Api::write((const M&) m, (std::ostream&) s, &p); });
            Heap::left = -1;
            std::string t = s.str();
            intact = t.compare(0, 5, "<pre>") == 0;
            if (intact) got.assign(t, 5, t.size());
        }
        if (mode == 1 || mode == 6)
        {
            StopOut s(mode == 1 ? k : -1);
            s.t.reserve(size + 64);
            if (mode == 6) Heap::left = k;
            how = ending([&]() { return Api::write((const M&) m, (PGNS::ostream&) s, &p); });
            Heap::left = -1;
            got = s.t;
        }
        if (mode >= 7)
        {
            StopSink b((size_t) k, mode != 7);
            b.t.reserve(size + 64);
            std::ostream s(&b);
            if (mode == 9) s.exceptions(std::ios_base::badbit);
            how = ending([&]() { return Api::write((const M&) m, s, &p); });
            got = b.t;
        }
        if (uselocale((locale_t) 0) != loc || p.ensure_ascii != ea || p.serialize_null != sn) intact = false;
        return how;
    }

    std::string fault_write( const N &arg ) override
    {
        int mode = (int) arg.k[0].v;
        bool ea = arg.k[1].v != 0, sn = arg.k[2].v != 0;
        long step = arg.k[4].v;
        std::string ref, got;
        bool fine;
        {
            M m;
            Acc<M>::build(arg.k[3], m);
            Params p;
            p.ensure_ascii = ea;
            p.serialize_null = sn;
            fine = Api::write((const M&) m, ref, &p);
        }
        Out first;
        first.key("how"); first.num(fine);
        first.key("ref"); first.bytes(ref);
        Group g;
        g.add(-2, first.s);
        for (long k = 0; ; k += step)
        {
            M m;
            Acc<M>::build(arg.k[3], m);
            Params p;
            bool intact = true;
            int how = faulty_write(mode, k, m, ea, sn, p, ref.size(), got, intact);
            bool hit = Heap::hit;
            size_t same = 0;
            while (same < got.size() && same < ref.size() && got[same] == ref[same]) ++same;
            Out o;
            o.key("how"); o.num(how);
            o.key("hit"); o.num(hit);
            o.key("code"); o.num(p.error.code);
            o.key("msg"); o.num(p.error.message.empty() ? 0 : 1);
            o.key("par"); o.num(intact);
            o.key("pfx"); o.num(same == got.size());
            o.key("full"); o.num(got == ref);
            o.key("out"); Acc<M>::dump(o, m);
            Params q;
            q.ensure_ascii = ea;
            q.serialize_null = sn;
            std::string t;
            bool again = Api::write((const M&) m, t, &q);
            o.key("again"); o.num(again == fine && t == ref);
            long before = Heap::live;
            {
                M x;
                Acc<M>::build(arg.k[3], x);
                Params e;
                std::string y;
                bool i = true;
                faulty_write(mode, k, x, ea, sn, e, ref.size(), y, i);
            }
            o.key("left"); o.num(Heap::live - before);
            g.add(hit ? (int) k : -1, o.s);
            if (!hit) break;
        }
        return g.text();
    }
#endif

    std::string write( const N &arg ) override
    {
        long mask = arg.k[0].v;
        bool ea = arg.k[1].v != 0, sn = arg.k[2].v != 0;
        M m;
        Acc<M>::build(arg.k[3], m);
        Out before;
        Acc<M>::dump(before, m);
        size_t size = 0;
        {
            Params p;
            p.ensure_ascii = ea;
            p.serialize_null = sn;
            std::string t;
            Api::write((const M&) m, t, &p);
            size = t.size();
        }
        Group g;
        for (int h = 0; h < 12; ++h)
        {
            if (!(mask & (1L << h))) continue;
            if (Api::is_array && h == 9) continue;
            locale_t loc = uselocale((locale_t) 0);
            Params p, *pp = &p;
            p.ensure_ascii = ea;
            p.serialize_null = sn;
            bool ok = false, intact = true;
            std::string out;
            switch (h)
            {
                case 0: out = "<pre>"; ok = Api::write((const M&) m, out, pp); intact = out.compare(0, 5, "<pre>") == 0; out.erase(0, 5); break;
                case 1:
                {
                    std::vector<char> v(3, 'z');
                    ok = Api::write((const M&) m, v, pp);
                    intact = v.size() >= 3 && v[0] == 'z' && v[1] == 'z' && v[2] == 'z';
                    if (intact) out.assign(v.begin() + 3, v.end());
                    break;
                }
                case 2:
                {
                    std::ostringstream s;
                    s << "<pre>";
                    ok = Api::write((const M&) m, (std::ostream&) s, pp);
                    out = s.str();
                    intact = out.compare(0, 5, "<pre>") == 0;
                    out.erase(0, 5);
                    break;
                }
                case 3:
                {
                    TestOut s;
                    ok = Api::write((const M&) m, (PGNS::ostream&) s, pp);
                    out = s.t;
                    break;
                }
                case 4:
                {
                    Guarded b(size);
                    ok = Api::write(m, b.ptr, size, pp);
                    if (ok) out.assign(b.ptr, size);
                    break;
                }
                case 5:
                {
                    Guarded b(size + 9);
                    ok = Api::write(m, b.ptr, size + 9, pp);
                    if (ok) out.assign(b.ptr, size);
                    for (int i = 0; ok && i < 9; ++i) if (b.ptr[size + (size_t) i] != 0x5A) intact = false;
                    break;
                }
                case 6:
                {
                    size_t n = size > 0 ? size - 1 : 0;
                    Guarded b(n);
                    ok = Api::write(m, b.ptr, n, pp);
                    break;
                }
                case 7: pp = nullptr; ok = Api::write((const M&) m, out, pp); break;
                case 8: dirty(p); ok = Api::write((const M&) m, out, pp); break;
                case 9:
                {
                    Full f(size / 2);
                    std::ostream s(&f);
                    ok = Api::write((const M&) m, s, pp);
                    break;
                }
                case 10:
                {
                    Guarded b(0);
                    ok = Api::write(m, b.ptr, 0, pp);
                    break;
                }
                case 11:
                {
                    // how the stream shows other things does not matter here
                    std::ostringstream s;
                    s << "<pre>" << std::hex << std::showbase << std::uppercase << std::boolalpha << std::showpos << std::left << std::scientific << std::unitbuf;
                    std::ios_base::fmtflags fl = s.flags();
                    s.precision(2);
                    s.fill('*');
                    s.width(9);
                    s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                    ok = Api::write((const M&) m, (std::ostream&) s, pp);
                    out = s.str();
                    intact = out.compare(0, 5, "<pre>") == 0 && s.flags() == fl && s.precision() == 2 && s.fill() == '*';
                    out.erase(0, 5);
                    break;
                }
            }
            Result r;
            outcome(r, ok, pp, ea, sn);
            if (!intact || uselocale((locale_t) 0) != loc) r.par = 0;
            // serialization does not change the object
            Out after;
            Acc<M>::dump(after, m);
            if (after.s != before.s) r.par = 0;
            Out o;
            o.bytes(ok ? out : std::string());
            r.out = o.s;
            g.add(h, r.key());
        }
        return g.text();
    }

    std::shared_ptr<void> make( const N &value ) override
    {
        std::shared_ptr<M> m = std::make_shared<M>();
        Acc<M>::build(value, *m);
        return m;
    }

    std::string write_shared( const void *obj, bool ea, bool sn ) override
    {
        const M &m = *(const M*) obj;
        Params p;
        p.ensure_ascii = ea;
        p.serialize_null = sn;
        std::string out;
        locale_t loc = uselocale((locale_t) 0);
        bool ok = Api::write(m, out, &p);
        Result r;
        outcome(r, ok, &p, ea, sn);
        if (uselocale((locale_t) 0) != loc) r.par = 0;
        Out o;
        o.bytes(ok ? out : std::string());
        r.out = o.s;
        Group g;
        g.add(0, r.key());
        return g.text();
    }

    std::string loop( const N & ) override { return "[]"; }
    std::string script( const N &, bool ) override { return "[]"; }
};

template<typename M> struct MsgHandler : HandlerBase<M, MsgApi<M>>
{
    std::string loop( const N &arg ) override
    {
        bool ea = arg.k[0].v != 0, sn = arg.k[1].v != 0;
        M m, w;
        Acc<M>::build(arg.k[2], m);
        Params p;
        p.ensure_ascii = ea;
        p.serialize_null = sn;
        std::string t;
        Out o;
        bool ok = m.serialize(t, &p);
        o.key("sok"); o.num(ok);
        bool back = ok && w.deserialize(t, &p);
        o.key("dok"); o.num(back);
        o.key("eq"); o.num(back && w == m && m.equal(w) && !(w != m));
        o.key("out");
        if (back) Acc<M>::dump(o, w); else { o.open(); o.close(); }
        // a second turn must give the same text
        std::string t2;
        bool again = back && w.serialize(t2, &p);
        o.key("again"); o.num(again && t2 == t);
        o.key("text"); o.bytes(t);
        return "[{" + o.s + "}]";
    }

    std::string script( const N &arg, bool all ) override
    {
        std::unique_ptr<M> s[3];
        for (int i = 0; i < 3; ++i) s[i].reset(new M());
        Out o;
        o.s = "[";
        for (size_t i = 0; i < arg.k.size(); ++i)
        {
            const N &e = arg.k[i];
            int op = (int) e.k[0].v, a = (int) e.k[1].v, b = (int) e.k[2].v, f = (int) e.k[3].v;
            switch (op)
            {
                case 0: Fields<M>::set(*s[a], f, e.k[4]); break;
                case 1: Fields<M>::clear(*s[a], f); break;
                case 2: *s[a] = *s[b]; break;
                case 3: s[a]->swap(*s[b]); break;
                case 4: s[a]->clear(); break;
                case 5: { std::unique_ptr<M> t(new M(*s[b])); s[a].swap(t); break; }
                case 6: if (a != b) { std::unique_ptr<M> t(new M(std::move(*s[b]))); s[a].swap(t); s[b].reset(new M()); } break;
                case 7: Fields<M>::copy(*s[a], *s[b], f); break;
                case 8: Fields<M>::swap(*s[a], *s[b], f); break;
                case 9: Fields<M>::alt(*s[a], f, e.k[4]); break;
                case 10: if (a != b) { *s[a] = std::move(*s[b]); s[b].reset(new M()); } break;
                case 11: { std::string t = text_of(e.k[4]); s[a]->deserialize(t); break; }
                case 12: { M t; Acc<M>::build(e.k[4], t); *s[a] = t; break; }
                case 13: Fields<M>::native(*s[a], *s[b], f, (int) e.k[4].v); break;
            }
            if (!all && i + 1 < arg.k.size()) continue;
            o.sep();
            o.s += '{';
            o.key("v"); o.open(); for (int j = 0; j < 3; ++j) Acc<M>::dump(o, *s[j]); o.close();
            o.key("e"); o.open(); for (int j = 0; j < 3; ++j) o.num(s[j]->empty()); o.close();
            o.key("q"); o.open();
            for (int j = 0; j < 3; ++j)
                for (int k = 0; k < 3; ++k)
                {
                    int eq = s[j]->equal(*s[k]) ? 1 : 0;
                    // 2 if the forms of comparison disagree
                    if (eq != ((*s[j] == *s[k]) ? 1 : 0) || eq == ((*s[j] != *s[k]) ? 1 : 0)) eq = 2;
                    // or those of their fields with plain values
                    if (!Fields<M>::agree(*s[j], *s[k])) eq = 2;
                    o.num(eq);
                }
            o.close();
            o.s += '}';
        }
        return o.s + "]";
    }
};

#ifdef HAS_ARRAY
template<typename M> struct ArrayHandler : HandlerBase<M, ArrayApi<M>> {};
#endif

typedef std::vector<std::unique_ptr<Handler>> Handlers;
void install( Handlers &messages, Handlers &arrays ); // generated

#ifdef DRV_GATED
// An operation of an interleaving: [0, index, array?, mask, init, text] or [1, index, array?, object, ea, sn]
struct Baton
{
    std::mutex m;
    std::condition_variable c;
    std::vector<int> plan;
    size_t at;
    int turn;
    std::vector<char> over;
    Baton( const std::vector<int> &plan, int n ) : plan(plan), at(0), turn(-1), over((size_t) n, 0) { pick(); }
    void pick()
    {
        while (at < plan.size())
        {
            int i = plan[at++];
            if (!over[(size_t) i]) { turn = i; return; }
        }
        for (size_t i = 0; i < over.size(); ++i)
            if (!over[i]) { turn = (int) i; return; }
        turn = -1;
    }
    void wait( int i )
    {
        std::unique_lock<std::mutex> l(m);
        while (turn != i) c.wait(l);
    }
    void pass( int i )
    {
        std::unique_lock<std::mutex> l(m);
        pick();
        if (turn == i) return;
        c.notify_all();
        while (turn != i) c.wait(l);
    }
    void end( int i )
    {
        std::unique_lock<std::mutex> l(m);
        over[(size_t) i] = 1;
        pick();
        c.notify_all();
    }
};

inline std::string run_op( const N &op, std::vector<std::shared_ptr<void>> &objs, Handlers &ms, Handlers &as, const Gate &g )
{
    Handler *h = (op.k[2].v ? as : ms).at((size_t) op.k[1].v).get();
    if (op.k[0].v == 0)
    {
        N arg;
        arg.k.assign(op.k.begin() + 3, op.k.end());
        return h->gated_read(arg, g);
    }
    return h->gated_write(objs.at((size_t) op.k[3].v).get(), op.k[4].v != 0, op.k[5].v != 0, g);
}

// [[op ...], [[index, array?, value] ...] objects, [[i ...] schedule ...], mode]: the distinct outcomes of every operation.
// mode 0: every operation in its own thread, in the order of the schedule; mode 1: all in this thread, a schedule being
// [a, b, n]: the whole of b inside a after n pieces.
inline std::string interleave( const N &arg, Handlers &ms, Handlers &as )
{
    const N &ops = arg.k[0];
    std::vector<std::shared_ptr<void>> objs;
    for (auto &o : arg.k[1].k) objs.push_back((o.k[1].v ? as : ms).at((size_t) o.k[0].v)->make(o.k[2]));
    int n = (int) ops.k.size();
    std::vector<Group> seen((size_t) n);
    auto note = [&]( int i, const std::string &r, int which )
    {
        for (auto &g : seen[(size_t) i].g) if (g.first == r) return;
        seen[(size_t) i].add(which, r);
    };
    int which = 0;
    for (auto &s : arg.k[2].k)
    {
        std::vector<int> plan;
        for (auto &x : s.k) plan.push_back((int) x.v);
        if (arg.k[3].v == 1)
        {
            int count = 0;
            std::string inner;
            std::string outer = run_op(ops.k[(size_t) plan[0]], objs, ms, as, [&]()
            {
                if (count++ == plan[2]) inner = run_op(ops.k[(size_t) plan[1]], objs, ms, as, [](){});
            });
            note(plan[0], outer, which);
            if (!inner.empty()) note(plan[1], inner, which);
        }
        else
        {
            Baton b(plan, n);
            std::vector<std::string> res((size_t) n);
            std::vector<std::thread> pool;
            for (int i = 0; i < n; ++i)
                pool.push_back(std::thread([&, i]()
                {
                    b.wait(i);
                    res[(size_t) i] = run_op(ops.k[(size_t) i], objs, ms, as, [&b, i](){ b.pass(i); });
                    b.end(i);
                }));
            for (auto &t : pool) t.join();
            for (int i = 0; i < n; ++i) note(i, res[(size_t) i], which);
        }
        ++which;
    }
    // for every operation: [[first schedule, result] ...]
    std::string t = "[";
    for (int i = 0; i < n; ++i)
    {
        if (i) t += ',';
        t += '[';
        for (size_t j = 0; j < seen[(size_t) i].g.size(); ++j)
        {
            if (j) t += ',';
            const std::string &r = seen[(size_t) i].g[j].first;
            t += "[" + std::to_string(seen[(size_t) i].g[j].second[0]) + "," + r.substr(1, r.size() - 2) + "]";
        }
        t += ']';
    }
    return t + "]";
}

#endif // DRV_GATED

inline std::string execute( const std::string &line, Handlers &ms, Handlers &as )
{
    const char *p = line.c_str();
    char op = *p++;
    char *end;
    size_t idx = (size_t) strtol(p, &end, 10);
    N arg;
    parse(end, arg);
    switch (op)
    {
        case 'D': return ms.at(idx)->read(arg);
        case 'S': return ms.at(idx)->write(arg);
        case 'R': return ms.at(idx)->loop(arg);
        case 'O': return ms.at(idx)->script(arg, true);
        case 'Q': return ms.at(idx)->script(arg, false);
        case 'A': return as.at(idx)->read(arg);
        case 'B': return as.at(idx)->write(arg);
#ifdef DRV_GATED
        case 'I': return interleave(arg, ms, as);
#endif
#ifdef DRV_FAULT
        case 'F': return ms.at(idx)->fault_read(arg);
        case 'G': return ms.at(idx)->fault_write(arg);
        case 'f': return as.at(idx)->fault_read(arg);
        case 'g': return as.at(idx)->fault_write(arg);
#endif
    }
    return "[]";
}

// every thread executes every command; equal results are joined
inline int run_threads( int count, std::vector<std::string> &lines, Handlers &ms, Handlers &as, const char *locname )
{
    std::vector<std::vector<std::string>> res(count, std::vector<std::string>(lines.size()));
    std::vector<std::shared_ptr<void>> shared(lines.size());
    for (size_t i = 0; i < lines.size(); ++i)
        if (lines[i][0] == 'P')
        {
            char *end;
            size_t idx = (size_t) strtol(lines[i].c_str() + 1, &end, 10);
            N arg;
            parse(end, arg);
            shared[i] = ms.at(idx)->make(arg.k[2]);
        }
    std::atomic<int> ready(0);
    std::vector<std::thread> pool;
    for (int t = 0; t < count; ++t)
        pool.push_back(std::thread([&, t]()
        {
            locale_t loc = (locale_t) 0;
            if (locname != nullptr && t % 2 == 1)
            {
                loc = newlocale(LC_ALL_MASK, locname, (locale_t) 0);
                if (loc != (locale_t) 0) uselocale(loc);
            }
            ++ready;
            while (ready < count) {}
            for (size_t j = 0; j < lines.size(); ++j)
            {
                // the same order for half of the threads: they meet in the same operations
                size_t i = (t % 4 < 2) ? j : (j + lines.size() * (size_t) t / (size_t) count) % lines.size();
                if (lines[i][0] == 'P')
                {
                    char *end;
                    size_t idx = (size_t) strtol(lines[i].c_str() + 1, &end, 10);
                    N arg;
                    parse(end, arg);
                    res[t][i] = ms.at(idx)->write_shared(shared[i].get(), arg.k[0].v != 0, arg.k[1].v != 0);
                }
                else
                    res[t][i] = execute(lines[i], ms, as);
            }
            if (loc != (locale_t) 0) { uselocale(LC_GLOBAL_LOCALE); freelocale(loc); }
        }));
    for (auto &t : pool) t.join();
    for (size_t i = 0; i < lines.size(); ++i)
    {
        std::vector<std::string> distinct;
        for (int t = 0; t < count; ++t)
        {
            bool found = false;
            for (auto &d : distinct) if (d == res[t][i]) found = true;
            if (!found) distinct.push_back(res[t][i]);
        }
        // a list of lists of results: one for each distinct outcome
        std::string s;
        for (auto &d : distinct)
        {
            if (!s.empty()) s += ',';
            s += d.substr(1, d.size() - 2);
        }
        printf("[%s]\n", s.c_str());
    }
    fflush(stdout);
    return 0;
}

inline int run( int argc, char **argv )
{
    int threads = 0;
    const char *locname = nullptr, *tname = nullptr;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--threads") threads = atoi(argv[i + 1]);
        if (a == "--locale") locname = argv[i + 1];
        if (a == "--thread-locale") tname = argv[i + 1];
    }
    if (locname != nullptr)
    {
        if (setlocale(LC_ALL, locname) == nullptr) { fprintf(stderr, "driver: no locale %s\n", locname); return 3; }
        char t[16];
        snprintf(t, sizeof t, "%.1f", 1.5);
        if (strcmp(t, "1,5") != 0) { fprintf(stderr, "driver: locale has no effect\n"); return 3; }
        try { std::locale::global(std::locale(locname)); } catch (std::exception &) { }
    }
    Handlers ms, as;
    install(ms, as);
    std::string line;
    if (threads > 0)
    {
        std::vector<std::string> lines;
        while (std::getline(std::cin, line)) lines.push_back(line);
        return run_threads(threads, lines, ms, as, tname);
    }
    while (std::getline(std::cin, line))
    {
        std::string r = execute(line, ms, as);
        fwrite(r.data(), 1, r.size(), stdout);
        fputc('\n', stdout);
        fflush(stdout);
    }
    if (locname != nullptr)
    {
        // the process locale is as the program set it
        char t[16];
        snprintf(t, sizeof t, "%.1f", 1.5);
        if (strcmp(t, "1,5") != 0) { fprintf(stderr, "driver: locale changed\n"); return 4; }
    }
    return 0;
}

} // namespace drv

#ifdef DRV_FAULT
void *operator new( size_t n ) { return drv::Heap::take(n); }
void *operator new[]( size_t n ) { return drv::Heap::take(n); }
void operator delete( void *p ) noexcept { drv::Heap::give(p); }
void operator delete[]( void *p ) noexcept { drv::Heap::give(p); }
void operator delete( void *p, size_t ) noexcept { drv::Heap::give(p); }
void operator delete[]( void *p, size_t ) noexcept { drv::Heap::give(p); }
#endif
