// Runs the schema compiler of the library on every line of the input (bytes in hexadecimal) and
// writes what it understood: one JSON value per line.
#include <protogen/proto3.hh>
#include <protogen/protogen.hh>
#include <cstdio>
#include <iostream>
#include <map>
#include <sstream>
#include <unistd.h>

using namespace protogen;

static void bytes( std::ostream &o, const std::string &s )
{
    o << '[';
    for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << (int) (unsigned char) s[i];
    o << ']';
}

static const char *type_name( FieldType t )
{
    switch (t)
    {
        case TYPE_DOUBLE: return "double";
        case TYPE_FLOAT: return "float";
        case TYPE_INT32: return "int32";
        case TYPE_INT64: return "int64";
        case TYPE_UINT32: return "uint32";
        case TYPE_UINT64: return "uint64";
        case TYPE_SINT32: return "sint32";
        case TYPE_SINT64: return "sint64";
        case TYPE_FIXED32: return "fixed32";
        case TYPE_FIXED64: return "fixed64";
        case TYPE_SFIXED32: return "sfixed32";
        case TYPE_SFIXED64: return "sfixed64";
        case TYPE_BOOL: return "bool";
        case TYPE_STRING: return "string";
        case TYPE_BYTES: return "bytes";
        case TYPE_MESSAGE: return "";
    }
    return "?";
}

static void options( std::ostream &o, const OptionMap &m )
{
    static const char *KIND[] = {"identifier", "string", "integer", "boolean"};
    o << '[';
    bool first = true;
    for (auto &e : m)
    {
        if (!first) o << ',';
        first = false;
        o << '[';
        bytes(o, e.first == e.second.name ? e.first : "?");
        o << ",\"" << KIND[(int) e.second.type] << "\",";
        bytes(o, e.second.value);
        o << ']';
    }
    o << ']';
}

static void run( const std::string &text, std::ostream &o )
{
    Proto3 proto;
    int st = 0, line = 0, col = 0, diag = 0;
    std::ostringstream ast;
    try
    {
        std::istringstream in(text);
        proto.parse(in, "/tmp/x.proto");
        std::map<const Message *, int> index;
        for (size_t i = 0; i < proto.messages.size(); ++i) index[proto.messages[i].get()] = (int) i + 1;
        ast << "\"opts\":";
        options(ast, proto.options);
        ast << ",\"msgs\":[";
        for (size_t i = 0; i < proto.messages.size(); ++i)
        {
            const Message &m = *proto.messages[i];
            ast << (i ? "," : "") << "{\"n\":";
            bytes(ast, m.name);
            ast << ",\"p\":";
            bytes(ast, m.package);
            ast << ",\"o\":";
            options(ast, m.options);
            ast << ",\"f\":[";
            for (size_t j = 0; j < m.fields.size(); ++j)
            {
                const Field &f = m.fields[j];
                ast << (j ? "," : "") << "{\"n\":";
                bytes(ast, f.name);
                ast << ",\"i\":";
                bytes(ast, std::to_string(f.index));
                ast << ",\"t\":";
                bytes(ast, type_name(f.type.id));
                ast << ",\"r\":" << (f.type.repeated ? 1 : 0) + (f.type.optional ? 2 : 0);
                int x = 0;
                if (f.type.id == TYPE_MESSAGE)
                    x = index.count(f.type.ref.get()) ? index[f.type.ref.get()] : -1;
                ast << ",\"x\":" << x << ",\"o\":";
                options(ast, f.options);
                ast << '}';
            }
            ast << "]}";
        }
        ast << "]";
        st = 2;
        std::ostringstream code;
        CppGenerator gen;
        gen.generate(proto, code);
        st = 0;
    }
    catch (protogen::exception &ex)
    {
        if (st == 0) st = 1;
        line = ex.line;
        col = ex.column;
        diag = ex.cause().empty() ? 0 : 1;
    }
    o << "{\"st\":" << st << ",\"line\":" << line << ",\"col\":" << col << ",\"diag\":" << diag << ',';
    if (st == 1) o << "\"opts\":[],\"msgs\":[]";
    else o << ast.str();
    o << "}\n" << std::flush;
    for (auto &m : proto.messages)
        for (auto &f : m->fields) f.type.ref.reset();
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string text;
        for (size_t i = 0; i + 1 < line.size(); i += 2)
            text += (char) std::stoi(line.substr(i, 2), nullptr, 16);
        alarm(20);
        run(text, std::cout);
    }
    return 0;
}
