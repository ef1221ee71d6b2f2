// Histories of the schema compiler of the library. Every line of the input is one history, its steps
// separated by spaces: P<slot>:<path>:<text> parses (both in hexadecimal), G<slot> generates, X<slot> drops.
// Every step answers with one word: for P "ok" or the diagnostic, for G the size and a hash of the header;
// followed by "!" when the stream given by the caller was left different. A history that starts with the word
// "threads" runs each of its following steps "C:<path>:<text>" (parse and generate) in a thread of its own.
#include <protogen/proto3.hh>
#include <protogen/protogen.hh>
#include <clocale>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <vector>

using namespace protogen;

static std::string unhex( const std::string &s )
{
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char) std::stoi(s.substr(i, 2), nullptr, 16);
    return o;
}

static std::string digest( const std::string &s )
{
    uint64_t a = 14695981039346656037ull, b = 88172645463325252ull;
    for (unsigned char c : s)
    {
        a = (a ^ c) * 1099511628211ull;
        b = (b + c) * 6364136223846793005ull + 1442695040888963407ull;
    }
    char t[80];
    snprintf(t, sizeof(t), "%zu-%016llx%016llx", s.size(), (unsigned long long) a, (unsigned long long) b);
    return t;
}

static void release( Proto3 *p )
{
    if (p == nullptr) return;
    for (auto &m : p->messages)
        for (auto &f : m->fields) f.type.ref.reset();
}

static std::string cause( const protogen::exception &ex )
{
    return "E" + std::to_string(ex.line) + "." + std::to_string(ex.column) + (ex.cause().empty() ? "?" : "");
}

struct Flags { std::ios::fmtflags f; std::streamsize p, w; char c; };

static std::string parse( std::unique_ptr<Proto3> &p, const std::string &path, const std::string &text, int n )
{
    std::istringstream in(text);
    if (n % 2) in >> std::noskipws;
    if (n % 3 == 1) in >> std::hex;
    if (n % 3 == 2) in >> std::boolalpha;
    std::ios::fmtflags before = in.flags();
    std::string r = "ok";
    p.reset(new Proto3());
    try { p->parse(in, path); }
    catch (protogen::exception &ex) { r = cause(ex); release(p.get()); p.reset(); }
    return r + (in.flags() == before ? "" : "!");
}

static std::string generate( Proto3 &p, int n )
{
    std::ostringstream out;
    if (n % 3 == 1) out << std::hex << std::showbase;
    if (n % 3 == 2) out << std::boolalpha << std::uppercase;
    std::ios::fmtflags before = out.flags();
    std::string r;
    try { CppGenerator gen; gen.generate(p, out); r = "H" + digest(out.str()); }
    catch (protogen::exception &ex) { r = cause(ex); }
    return r + (out.flags() == before ? "" : "!");
}

static std::string together( const std::string &path, const std::string &text, int n )
{
    std::unique_ptr<Proto3> p;
    std::string r = parse(p, path, text, n);
    if (p) { r = generate(*p, n); release(p.get()); }
    return r;
}

static std::vector<std::string> cut( const std::string &s, char by )
{
    std::vector<std::string> o;
    std::string t;
    std::istringstream in(s);
    while (std::getline(in, t, by)) o.push_back(t);
    return o;
}

// a locale in which numbers are grouped and truth has other names
struct Grouping : std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    char do_decimal_point() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};

int main( int argc, char **argv )
{
    if (argc > 1 && std::string(argv[1]) == "grouping") std::locale::global(std::locale(std::locale::classic(), new Grouping()));
    if (argc > 1 && std::string(argv[1]) == "environment" && setlocale(LC_ALL, "") == nullptr) return 3;
    std::cout.imbue(std::locale::classic());
    std::string line;
    int n = 0;
    while (std::getline(std::cin, line))
    {
        alarm(60);
        std::vector<std::string> steps = cut(line, ' ');
        std::string answer;
        if (!steps.empty() && steps[0] == "threads")
        {
            std::vector<std::string> res(steps.size());
            std::vector<std::thread> ts;
            for (size_t i = 1; i < steps.size(); ++i)
                ts.emplace_back([&res, &steps, i, n] { auto a = cut(steps[i] + ":", ':'); res[i] = together(unhex(a[1]), unhex(a.size() > 2 ? a[2] : ""), n); });
            for (auto &t : ts) t.join();
            for (size_t i = 1; i < res.size(); ++i) answer += (i > 1 ? " " : "") + res[i];
        }
        else
        {
            std::unique_ptr<Proto3> slot[8];
            for (auto &s : steps)
            {
                int k = s[1] - '0';
                if (!answer.empty()) answer += ' ';
                ++n;
                if (s[0] == 'P')
                {
                    auto a = cut(s, ':');
                    release(slot[k].get());
                    answer += parse(slot[k], unhex(a[1]), a.size() > 2 ? unhex(a[2]) : "", n);
                }
                else if (s[0] == 'G') answer += slot[k] ? generate(*slot[k], n) : "none";
                else { release(slot[k].get()); slot[k].reset(); answer += "ok"; }
            }
            for (auto &s : slot) release(s.get());
        }
        std::cout << answer << '\n' << std::flush;
    }
    return 0;
}
