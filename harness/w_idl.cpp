// Generated IDL read back by an independent reader (C18).
#include "model.hpp"
#include "utf.hpp"
#include <xtypes/idl/Module.hpp>
#include <xtypes/idl/generator.hpp>
#include <algorithm>
#include <cmath>
using namespace mdl;
using eprosima::xtypes::idl::Module;
namespace gen = eprosima::xtypes::idl::generator;

namespace {

// ------------------------------------------------------------------ reader
struct Bad { std::string what; };

struct Expr                     // type as written, names resolved
{
    std::string k;              // "int32", "string", "sequence", "map", "name", ...
    std::string path;           // resolved
    uint64_t bound = 0;
    std::vector<Expr> args;
    std::vector<uint64_t> dims;
};
struct Field { std::string name; Expr type; std::vector<std::string> labels; bool is_default = false; };
struct Decl
{
    std::string kind, path, parent;
    Expr type;                  // typedef, const, discriminator
    std::string value;          // const
    std::vector<Field> fields;
    std::vector<std::string> names;     // enumerators
};

struct Reader
{
    std::string text;
    size_t pos = 0;
    std::vector<std::string> scope;                     // open modules
    std::map<std::string, std::string> symbols;         // absolute path -> kind, declared so far
    std::vector<Decl> decls;
    bool lax = false;                                   // names are kept as they are written

    std::string here() const { std::string s; for (auto& x : scope) { s += (s.empty() ? "" : "::") + x; } return s; }
    static std::string join(const std::string& a, const std::string& b) { return a.empty() ? b : a + "::" + b; }
    [[noreturn]] void bad(const std::string& m) const
    {
        size_t b = text.rfind('\n', pos ? pos - 1 : 0), e = text.find('\n', pos);
        throw Bad{cat(m, " near \"", text.substr(b == std::string::npos ? 0 : b + 1, (e == std::string::npos ? text.size() : e) - (b == std::string::npos ? 0 : b + 1)), "\" in '", here(), "'")};
    }
    void ws() { while (pos < text.size() && isspace(static_cast<unsigned char>(text[pos]))) { ++pos; } }
    bool end() { ws(); return pos >= text.size(); }
    bool is(const std::string& t) { ws(); return text.compare(pos, t.size(), t) == 0; }
    bool eat(const std::string& t) { if (is(t)) { pos += t.size(); return true; } return false; }
    void need(const std::string& t) { if (!eat(t)) { bad(cat("'", t, "' expected")); } }
    std::string peek_word()
    {
        ws();
        size_t q = pos;
        while (q < text.size() && (isalnum(static_cast<unsigned char>(text[q])) || text[q] == '_')) { ++q; }
        return text.substr(pos, q - pos);
    }
    std::string word() { std::string w = peek_word(); if (w.empty() || isdigit(static_cast<unsigned char>(w[0]))) { bad("an identifier is expected"); } pos += w.size(); return w; }
    bool eat_word(const char* w) { if (peek_word() == w) { pos += strlen(w); return true; } return false; }
    uint64_t number()
    {
        std::string w = peek_word();
        if (w.empty() || w.find_first_not_of("0123456789") != std::string::npos) { bad("a number is expected"); }
        pos += w.size();
        return std::stoull(w);
    }
    std::string name_ref()
    {
        std::string n;
        ws();
        if (eat("::")) { n = "::"; }
        n += word();
        while (text.compare(pos, 2, "::") == 0) { pos += 2; n += "::" + word(); }
        if (lax) { return n; }
        // resolution in what is declared so far
        std::string abs = n;
        if (n.compare(0, 2, "::") == 0) { abs = n.substr(2); }
        else
        {
            std::string first = n.substr(0, n.find("::"));
            std::vector<std::string> s = scope;
            for (;;)
            {
                std::string at;
                for (auto& x : s) { at = join(at, x); }
                if (symbols.count(join(at, first))) { abs = join(at, n); break; }
                if (s.empty()) { bad(cat("'", n, "' is used but not declared before")); }
                s.pop_back();
            }
        }
        if (!symbols.count(abs)) { bad(cat("'", n, "' is used but not declared before")); }
        return abs;
    }
    Expr type()
    {
        Expr e;
        static const char* const prims[] = {"boolean", "char", "wchar", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double"};
        std::string w = peek_word();
        for (auto p : prims) { if (w == p) { pos += w.size(); e.k = w; return e; } }
        if (w == "long") { pos += 4; if (!eat_word("double")) { bad("unexpected type"); } e.k = "long double"; return e; }
        if (w == "string" || w == "wstring")
        {
            pos += w.size(); e.k = w;
            if (eat("<")) { e.bound = number(); need(">"); }
            return e;
        }
        if (w == "sequence" || w == "map")
        {
            pos += w.size(); e.k = w;
            need("<");
            e.args.push_back(type());
            if (w == "map") { need(","); e.args.push_back(type()); }
            if (eat(",")) { e.bound = number(); }
            need(">");
            return e;
        }
        e.k = "name";
        e.path = name_ref();
        return e;
    }
    void declare(const std::string& n, const char* kind)
    {
        std::string p = join(here(), n);
        if (lax) { p = n; }
        auto it = symbols.find(p);
        if (it != symbols.end() && !(it->second == "module" && kind == std::string("module"))) { bad(cat("'", p, "' is declared twice")); }
        symbols[p] = kind;
    }
    std::string escape() // what follows a backslash
    {
        static const std::string names = "ntvbrfa\\?'\"", codes = "\n\t\v\b\r\f\a\\?'\"";
        if (pos >= text.size()) { bad("unterminated escape sequence"); }
        char c = text[pos];
        size_t i = names.find(c);
        if (i != std::string::npos) { ++pos; return std::string(1, codes[i]); }
        uint32_t v = 0;
        size_t n = 0, max = c == 'x' ? 2 : c == 'u' ? 4 : 3;
        if (c == 'x' || c == 'u')
        {
            ++pos;
            for (; n < max && isxdigit(static_cast<unsigned char>(text[pos])); ++n, ++pos) { v = v * 16 + uint32_t(std::stoi(text.substr(pos, 1), nullptr, 16)); }
        }
        else { for (; n < max && text[pos] >= '0' && text[pos] <= '7'; ++n, ++pos) { v = v * 8 + uint32_t(text[pos] - '0'); } }
        if (!n) { bad("unknown escape sequence"); }
        return v < 0x80 || c == 'u' ? enc8({v}) : std::string(1, char(v));
    }
    std::string literal()
    {
        ws();
        std::string s;
        if (text[pos] == 'L' && (text[pos + 1] == '"' || text[pos + 1] == '\'')) { s = "L"; ++pos; }
        if (text[pos] == '"' || text[pos] == '\'')
        {
            char q = text[pos++];
            s += q;
            while (pos < text.size() && text[pos] != q)
            {
                if (static_cast<unsigned char>(text[pos]) < 0x20) { bad("control character inside a literal"); }
                if (text[pos] == '\\') { ++pos; s += escape(); } else { s += text[pos++]; }
            }
            if (pos >= text.size()) { bad("unterminated literal"); }
            s += text[pos++];
            return s; // unescaped
        }
        if (!lax && (isalpha(static_cast<unsigned char>(text[pos])) || text[pos] == '_' || text[pos] == ':'))
        {
            // an enumerator, TRUE or FALSE; its module has to be declared already
            std::vector<std::string> parts;
            bool absolute = eat("::");
            for (;;) { parts.push_back(word()); if (text.compare(pos, 2, "::") != 0) { break; } pos += 2; }
            if (parts.size() == 1) { return (absolute ? "::" : "") + parts[0]; }
            std::string prefix;
            for (size_t i = 0; i + 1 < parts.size(); ++i) { prefix = join(prefix, parts[i]); }
            std::vector<std::string> sc = scope;
            for (;;)
            {
                std::string at;
                if (!absolute) { for (auto& x : sc) { at = join(at, x); } }
                if (symbols.count(join(at, parts[0])))
                {
                    if (!symbols.count(join(at, prefix))) { bad(cat("'", prefix, "' is used but not declared before")); }
                    return "::" + join(join(at, prefix), parts.back());
                }
                if (at.empty()) { bad(cat("'", prefix, "' is used but not declared before")); }
                sc.pop_back();
            }
        }
        size_t b = pos;
        while (pos < text.size() && (isalnum(static_cast<unsigned char>(text[pos])) || text[pos] == '-' || text[pos] == '+' || text[pos] == '.' || text[pos] == '_')) { ++pos; }
        if (pos == b) { bad("a literal is expected"); }
        return text.substr(b, pos - b);
    }
    Field field()
    {
        Field f;
        f.type = type();
        f.name = word();
        while (eat("[")) { f.type.dims.push_back(number()); need("]"); }
        need(";");
        return f;
    }
    void definition()
    {
        Decl d;
        if (eat_word("module"))
        {
            std::string n = word();
            declare(n, "module");
            scope.push_back(n);
            need("{");
            while (!is("}")) { if (end()) { bad("unterminated module"); } definition(); }
            need("}"); need(";");
            scope.pop_back();
            return;
        }
        if (eat_word("struct"))
        {
            d.kind = "struct";
            std::string n = lax ? scoped_word() : word();
            d.path = join(here(), n);
            if (eat(":")) { d.parent = name_ref(); }
            declare(n, "struct");
            need("{");
            while (!is("}")) { d.fields.push_back(field()); }
            need("}"); need(";");
        }
        else if (eat_word("union"))
        {
            d.kind = "union";
            std::string n = word();
            d.path = join(here(), n);
            if (!eat_word("switch")) { bad("switch expected"); }
            need("(");
            d.type = type();
            need(")");
            declare(n, "union");
            need("{");
            while (!is("}"))
            {
                std::vector<std::string> labels;
                bool def = false;
                for (;;)
                {
                    if (eat_word("case"))
                    {
                        labels.push_back(literal());
                        need(":");
                    }
                    else if (eat_word("default")) { need(":"); def = true; }
                    else { break; }
                }
                if (labels.empty() && !def) { bad("a label is expected"); }
                Field f = field();
                f.labels = labels;
                f.is_default = def;
                d.fields.push_back(f);
            }
            need("}"); need(";");
        }
        else if (eat_word("enum"))
        {
            d.kind = "enum";
            std::string n = word();
            d.path = join(here(), n);
            declare(n, "enum");
            need("{");
            while (!is("}")) { d.names.push_back(word()); if (!eat(",")) { break; } }
            need("}"); need(";");
        }
        else if (eat_word("typedef"))
        {
            d.kind = "typedef";
            d.type = type();
            std::string n = word();
            d.path = join(here(), n);
            while (eat("[")) { d.type.dims.push_back(number()); need("]"); }
            declare(n, "typedef");
            need(";");
        }
        else if (eat_word("const"))
        {
            d.kind = "const";
            d.type = type();
            std::string n = word();
            d.path = join(here(), n);
            need("=");
            d.value = literal();
            declare(n, "const");
            need(";");
        }
        else { bad("a definition is expected"); }
        decls.push_back(d);
    }
    std::string scoped_word() { std::string n = word(); while (text.compare(pos, 2, "::") == 0) { pos += 2; n += "::" + word(); } return n; }
    void read(const std::string& t) { text = t; while (!end()) { definition(); } }
};

// ------------------------------------------------------------------ what was declared
struct Def
{
    std::string kind, name, path;
    size_t mod = 0;
    size_t index = 0;
    std::shared_ptr<DynamicType> plain;     // before it was added to its module
    V value; TDp vt; int64_t enum_value = 0; // constants
    bool fake = false;                      // constant that comes from an enumerator
    bool shared = false;                    // other modules may declare the same name
};
struct Mod { std::string name, path; long outer = -1; Module* real = nullptr; std::vector<size_t> inner; };

struct World
{
    Module root;
    std::vector<Mod> mods;
    std::vector<Def> defs;
    std::map<std::string, size_t> by_path, by_name;
    std::map<size_t, std::set<std::pair<long, long>>> edges;    // per module: unit -> unit ; definitions are >= 0, modules are -1-index
    bool reopened = false;

    std::vector<size_t> chain(size_t m) const { std::vector<size_t> c; for (long q = long(m); q >= 0; q = mods[size_t(q)].outer) { c.insert(c.begin(), size_t(q)); } return c; }
    // units of two definitions in their innermost common module
    void units(size_t m1, long d1, size_t m2, long d2, size_t& at, long& u1, long& u2) const
    {
        auto a = chain(m1), b = chain(m2);
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
        at = a[i - 1];
        u1 = i < a.size() ? -1 - long(a[i]) : d1;
        u2 = i < b.size() ? -1 - long(b[i]) : d2;
    }
    bool reaches(size_t at, long from, long to) const
    {
        if (from == to) { return true; }
        auto it = edges.find(at);
        if (it == edges.end()) { return false; }
        std::set<long> seen{from};
        std::vector<long> todo{from};
        while (!todo.empty())
        {
            long x = todo.back(); todo.pop_back();
            for (auto& e : it->second) { if (e.first == x && seen.insert(e.second).second) { if (e.second == to) { return true; } todo.push_back(e.second); } }
        }
        return false;
    }
    bool can_use(size_t mod, long self, size_t dep) const
    {
        size_t at; long ud, us;
        units(defs[dep].mod, long(dep), mod, self, at, ud, us);
        return ud != us && !reaches(at, us, ud);
    }
    void use(size_t mod, long self, size_t dep)
    {
        size_t at; long ud, us;
        units(defs[dep].mod, long(dep), mod, self, at, ud, us);
        edges[at].insert({ud, us});
    }
};

const char* prim_word(TypeKind k)
{
    switch (k)
    {
        case TypeKind::BOOLEAN_TYPE: return "boolean";
        case TypeKind::CHAR_8_TYPE: return "char";
        case TypeKind::CHAR_16_TYPE: case TypeKind::WIDE_CHAR_TYPE: return "wchar";
        case TypeKind::INT_8_TYPE: return "int8";
        case TypeKind::UINT_8_TYPE: return "uint8";
        case TypeKind::INT_16_TYPE: return "int16";
        case TypeKind::UINT_16_TYPE: return "uint16";
        case TypeKind::INT_32_TYPE: return "int32";
        case TypeKind::UINT_32_TYPE: return "uint32";
        case TypeKind::INT_64_TYPE: return "int64";
        case TypeKind::UINT_64_TYPE: return "uint64";
        case TypeKind::FLOAT_32_TYPE: return "float";
        case TypeKind::FLOAT_64_TYPE: return "double";
        case TypeKind::FLOAT_128_TYPE: return "long double";
        default: return nullptr;
    }
}

// absolute path of the definition a type of the module stands for
std::string path_of(const World& w, const DynamicType& t)
{
    std::string n = t.name();
    if (n.compare(0, 2, "::") == 0) { return n.substr(2); }
    auto it = w.by_path.find(n);
    if (it != w.by_path.end()) { return n; }
    auto q = w.by_name.find(n);
    return q == w.by_name.end() ? "?" + n : w.defs[q->second].path;
}

std::string same_type(const World& w, const DynamicType& t, const Expr& e, bool dims = true)
{
    if (dims && (t.kind() == TypeKind::ARRAY_TYPE || !e.dims.empty()))
    {
        std::vector<uint64_t> want;
        const DynamicType* q = &t;
        while (q->kind() == TypeKind::ARRAY_TYPE) { want.push_back(static_cast<const ArrayType*>(q)->dimension()); q = &static_cast<const ArrayType*>(q)->content_type(); }
        if (want != e.dims) { return cat("dimensions of ", t.name()); }
        return same_type(w, *q, e, false);
    }
    if (t.kind() == TypeKind::ENUMERATION_TYPE || t.kind() == TypeKind::STRUCTURE_TYPE || t.kind() == TypeKind::UNION_TYPE || t.kind() == TypeKind::ALIAS_TYPE)
    {
        std::string p = path_of(w, t);
        return e.k == "name" && e.path == p ? "" : cat("'", e.k, " ", e.path, "' instead of ", p);
    }
    if (const char* p = prim_word(t.kind())) { return e.k == p ? "" : cat("'", e.k, "' instead of ", p); }
    auto bounded = [&](uint64_t b) { return e.bound == b ? std::string() : cat("bound ", e.bound, " instead of ", b, " in ", t.name()); };
    switch (t.kind())
    {
        case TypeKind::STRING_TYPE: return e.k == "string" ? bounded(static_cast<const StringType&>(t).bounds()) : "not a string";
        case TypeKind::WSTRING_TYPE: return e.k == "wstring" ? bounded(static_cast<const WStringType&>(t).bounds()) : "not a wstring";
        case TypeKind::STRING16_TYPE: return e.k == "wstring" ? bounded(static_cast<const String16Type&>(t).bounds()) : "not a wstring";
        case TypeKind::SEQUENCE_TYPE:
        {
            if (e.k != "sequence") { return "not a sequence"; }
            std::string s = bounded(static_cast<const SequenceType&>(t).bounds());
            return s.empty() ? same_type(w, static_cast<const SequenceType&>(t).content_type(), e.args[0]) : s;
        }
        case TypeKind::MAP_TYPE:
        {
            if (e.k != "map") { return "not a map"; }
            const MapType& m = static_cast<const MapType&>(t);
            const PairType& p = static_cast<const PairType&>(m.content_type());
            std::string s = bounded(m.bounds());
            if (s.empty()) { s = same_type(w, p.first(), e.args[0]); }
            return s.empty() ? same_type(w, p.second(), e.args[1]) : s;
        }
        default: return "unexpected type";
    }
}

const DynamicType& unalias(const DynamicType& t) { const DynamicType* q = &t; while (q->kind() == TypeKind::ALIAS_TYPE) { q = &static_cast<const AliasType*>(q)->get(); } return *q; }

std::string label_text(const DynamicType& d0, int64_t v)
{
    const DynamicType& d = unalias(d0);
    switch (d.kind())
    {
        case TypeKind::BOOLEAN_TYPE: return v ? "TRUE" : "FALSE";
        case TypeKind::CHAR_8_TYPE: return cat("'", char(v), "'");
        case TypeKind::CHAR_16_TYPE: case TypeKind::WIDE_CHAR_TYPE: return "L'" + enc8({uint32_t(v)}) + "'";
        case TypeKind::ENUMERATION_TYPE: return static_cast<const EnumerationType<uint32_t>&>(d).enumerator(uint32_t(v));
        case TypeKind::UINT_64_TYPE: return std::to_string(uint64_t(v));
        default: return std::to_string(v);
    }
}

std::string same_fields(const World& w, const std::vector<Member>& ms, size_t from, const Decl& d)
{
    if (d.fields.size() != ms.size() - from) { return cat(d.fields.size(), " members instead of ", ms.size() - from); }
    for (size_t i = 0; i < d.fields.size(); ++i)
    {
        const Member& m = ms[from + i];
        if (d.fields[i].name != m.name()) { return cat("member ", d.fields[i].name, " instead of ", m.name()); }
        std::string s = same_type(w, m.type(), d.fields[i].type);
        if (!s.empty()) { return cat("member ", m.name(), ": ", s); }
    }
    return "";
}

const DynamicType& real_of(const World& w, const Def& d)
{
    const Module& m = *w.mods[d.mod].real;
    if (d.kind == "struct") { return m.structure(d.name); }
    if (d.kind == "union") { return m.union_switch(d.name); }
    if (d.kind == "enum") { return m.enum_32(d.name); }
    return m.alias(d.name);
}

std::string same_def(const World& w, const Def& def, const Decl& d)
{
    if (def.kind != d.kind) { return cat("a ", d.kind, " instead of a ", def.kind); }
    if (def.kind == "struct")
    {
        const StructType& t = static_cast<const StructType&>(real_of(w, def));
        std::string parent = t.has_parent() ? path_of(w, t.parent()) : "";
        if (d.parent != parent) { return cat("inherits '", d.parent, "' instead of '", parent, "'"); }
        return same_fields(w, t.members(), t.has_parent() ? t.parent().members().size() : 0, d);
    }
    if (def.kind == "union")
    {
        const UnionType& t = static_cast<const UnionType&>(real_of(w, def));
        std::string s = same_type(w, t.discriminator(), d.type);
        if (!s.empty()) { return cat("discriminator: ", s); }
        s = same_fields(w, t.members(), 1, d);
        if (!s.empty()) { return s; }
        for (auto& f : d.fields)
        {
            std::multiset<std::string> want, got(f.labels.begin(), f.labels.end());
            for (int64_t v : t.get_labels(f.name)) { want.insert(label_text(t.discriminator(), v)); }
            if (want != got)
            {
                std::string a, b;
                for (auto& x : got) { a += x + " "; }
                for (auto& x : want) { b += x + " "; }
                return cat("labels of ", f.name, ": ", a, "instead of ", b);
            }
            if (f.is_default != t.is_default(f.name)) { return cat("default of ", f.name, " ", f.is_default); }
        }
        return "";
    }
    if (def.kind == "enum")
    {
        const auto& t = static_cast<const EnumerationType<uint32_t>&>(real_of(w, def));
        std::map<uint32_t, std::string> byv;
        for (auto& e : t.enumerators()) { byv[e.second] = e.first; }
        std::vector<std::string> want;
        for (auto& e : byv) { want.push_back(e.second); }
        return d.names == want ? "" : "enumerators differ";
    }
    if (def.kind == "typedef") { return same_type(w, static_cast<const AliasType&>(real_of(w, def)).get(), d.type); }
    // constants
    DynamicData v = w.mods[def.mod].real->constant(def.name);
    std::string s = same_type(w, v.type(), d.type);
    if (!s.empty()) { return s; }
    const std::string& x = d.value;
    auto wrong = [&](const std::string& want) { return cat("value ", x, " instead of ", want); };
    switch (unalias(v.type()).kind())
    {
        case TypeKind::BOOLEAN_TYPE: { bool b = def.value.get<bool>(); return x == (b ? "TRUE" : "FALSE") ? "" : wrong(b ? "TRUE" : "FALSE"); }
        case TypeKind::CHAR_8_TYPE: { std::string q = cat("'", def.value.get<char>(), "'"); return x == q ? "" : wrong(q); }
        case TypeKind::CHAR_16_TYPE: { std::string q = "L'" + enc8({uint32_t(def.value.get<char16_t>())}) + "'"; return x == q ? "" : wrong(q); }
        case TypeKind::WIDE_CHAR_TYPE: { std::string q = "L'" + enc8({uint32_t(def.value.get<wchar_t>())}) + "'"; return x == q ? "" : wrong(q); }
        case TypeKind::STRING_TYPE: { std::string q = "\"" + def.value.s + "\""; return x == q ? "" : wrong(q); }
        case TypeKind::WSTRING_TYPE: { Points p; for (wchar_t c : def.value.w) { p.push_back(uint32_t(c)); } std::string q = "L\"" + enc8(p) + "\""; return x == q ? "" : wrong(q); }
        case TypeKind::STRING16_TYPE: { Points p; dec16(def.value.u, p); std::string q = "L\"" + enc8(p) + "\""; return x == q ? "" : wrong(q); }
        case TypeKind::FLOAT_32_TYPE: case TypeKind::FLOAT_64_TYPE: case TypeKind::FLOAT_128_TYPE:
        {
            char* e = nullptr;
            long double got = strtold(x.c_str(), &e), want = def.vt->k == F32 ? (long double)def.value.get<float>() : def.vt->k == F64 ? (long double)def.value.get<double>() : def.value.get<long double>();
            // the value of its type nearest to the text
            if (def.vt->k == F32) { got = strtof(x.c_str(), &e); } else if (def.vt->k == F64) { got = strtod(x.c_str(), &e); }
            bool floating = x.find_first_of(".eEdD") != std::string::npos;
            return e && !*e && floating && got == want ? "" : wrong(cat(want));
        }
        case TypeKind::ENUMERATION_TYPE:
        {
            const auto& t = static_cast<const EnumerationType<uint32_t>&>(unalias(v.type()));
            std::string n = t.enumerator(uint32_t(def.enum_value));
            if (n.empty()) { return x == std::to_string(def.enum_value) ? "" : wrong(std::to_string(def.enum_value)); }
            // the enumerators are in the module of their enumeration
            auto outer = [](const std::string& p) { size_t q = p.rfind("::"); return q == std::string::npos ? std::string() : p.substr(0, q); };
            std::string of = outer(path_of(w, unalias(v.type()))), at = outer(def.path);
            if (x == "::" + Reader::join(of, n)) { return ""; }
            return x == n && (of.empty() || at == of || at.compare(0, of.size() + 2, of + "::") == 0) ? "" : wrong(cat(n, " of ", of));
        }
        default:
        {
            std::string want = with_prim(def.vt->k, [&](auto tag)
                {
                    using T = typename decltype(tag)::type;
                    T y = def.value.template get<T>();
                    return std::is_signed<T>::value ? std::to_string((long long)y) : std::to_string((unsigned long long)y);
                });
            return x == want ? "" : wrong(want);
        }
    }
}

// ------------------------------------------------------------------ generation
struct Gen
{
    Case& c;
    Rng& r;
    World& w;
    std::set<std::string> used;
    int shared_names = 0;       // percent
    std::vector<size_t> shared;

    std::string unique(const char* const* pre, size_t n)
    {
        for (;;)
        {
            std::string s = cat(pre[r.below(n)], r.chance(60) ? std::to_string(r.below(100)) : std::string(1, char('a' + r.below(26))));
            if (used.insert(s).second) { return s; }
        }
    }
    std::string def_name() { static const char* const p[] = {"T", "Type", "Data", "a", "Zeta", "M", "Mod", "Item"}; return unique(p, 8); }
    std::string mod_name() { static const char* const p[] = {"M", "Mod", "Z", "A", "Pkg"}; return unique(p, 5); }

    void modules()
    {
        w.mods.push_back({"", "", -1, &w.root, {}});
        int n = r.range(0, 6);
        for (int i = 0; i < n; ++i)
        {
            size_t o = r.below(w.mods.size());
            std::string name = mod_name();
            Module& m = w.mods[o].real->create_submodule(name);
            w.mods[o].inner.push_back(w.mods.size());
            w.mods.push_back({name, w.mods[o].path.empty() ? name : w.mods[o].path + "::" + name, long(o), &m, {}});
        }
    }

    // earlier definitions that may be used from a new definition of this module
    std::vector<size_t> usable(size_t mod, long self, const std::function<bool(const Def&)>& want)
    {
        std::vector<size_t> v;
        for (size_t i = 0; i < w.defs.size(); ++i) { if (w.defs[i].kind != "const" && want(w.defs[i]) && w.can_use(mod, self, i)) { v.push_back(i); } }
        return v;
    }
    std::shared_ptr<DynamicType> refer(size_t mod, long self, size_t dep)
    {
        w.use(mod, self, dep);
        const Def& d = w.defs[dep];
        int form = r.range(0, 9);
        if (form < 3 && !d.shared) { return copy(*d.plain); }
        if (form < 4)
        {
            DynamicType::Ptr p = w.root.type("::" + d.path);
            return copy(*p);
        }
        return copy(real_of(w, d));
    }
    struct Holder { DynamicType::Ptr p; };
    std::shared_ptr<DynamicType> copy(const DynamicType& t)
    {
        auto h = std::make_shared<Holder>(Holder{DynamicType::Ptr(t)});
        return std::shared_ptr<DynamicType>(h, const_cast<DynamicType*>(h->p.get()));
    }
    std::shared_ptr<DynamicType> prim() { return copy(real(*mk_prim(K(r.below(WC + 1))))); }
    std::shared_ptr<DynamicType> type(size_t mod, long self, int depth, bool arrays = true, bool key = false)
    {
        int k = r.weighted({25, depth > 0 ? 10 : 0, depth > 0 && !key ? 12 : 0, depth > 0 && !key ? 6 : 0, depth > 0 && arrays ? 10 : 0, 40});
        uint32_t b = r.chance(50) ? 0 : uint32_t(r.range(1, 30));
        switch (k)
        {
            case 0: return prim();
            case 1:
            {
                int s = r.range(0, 2);
                if (s == 0) { return copy(StringType(b)); }
                if (s == 1) { return copy(WStringType(b)); }
                return copy(String16Type(b));
            }
            case 2: { auto t = type(mod, self, depth - 1, false); return copy(SequenceType(*t, b)); }
            case 3: { auto t = type(mod, self, depth - 1, false, true), u = type(mod, self, depth - 1, false); return copy(MapType(*t, *u, b)); }
            case 4: { auto t = type(mod, self, depth - 1, true); return copy(ArrayType(*t, uint32_t(r.range(1, 4)))); }
            default:
            {
                auto v = usable(mod, self, [](const Def&) { return true; });
                if (v.empty()) { return prim(); }
                return refer(mod, self, r.pick(v));
            }
        }
    }

    void definition()
    {
        size_t mod = r.below(w.mods.size());
        if (r.chance(30)) { mod = 0; }
        Module& m = *w.mods[mod].real;
        long self = long(w.defs.size());
        Def d;
        d.mod = mod;
        d.index = size_t(self);
        d.name = def_name();
        if (mod && r.chance(shared_names))
        {
            d.shared = true;
            size_t o = shared.empty() ? 0 : r.pick(shared);
            if (!shared.empty() && r.chance(80) && !w.by_path.count(w.mods[mod].path + "::" + w.defs[o].name)) { d.name = w.defs[o].name; c.count("names.shared"); }
            shared.push_back(size_t(self));
        }
        d.path = w.mods[mod].path.empty() ? d.name : w.mods[mod].path + "::" + d.name;
        int k = r.weighted({35, 20, 15, 20, 10});
        static const char* const kinds[] = {"struct", "union", "enum", "typedef", "const"};
        d.kind = kinds[k];
        if (!d.shared) { w.by_name[d.name] = size_t(self); }
        w.by_path[d.path] = size_t(self);
        switch (k)
        {
            case 0:
            {
                std::unique_ptr<StructType> s;
                auto parents = usable(mod, self, [](const Def& x) { return x.kind == "struct"; });
                if (!parents.empty() && r.chance(25))
                {
                    auto p = refer(mod, self, r.pick(parents));
                    s.reset(new StructType(d.name, static_cast<const StructType*>(p.get())));
                }
                else { s.reset(new StructType(d.name)); }
                int n = r.range(s->has_parent() ? 0 : 1, 5);
                for (int i = 0; i < n; ++i) { s->add_member(cat("m", d.index, "_", i), *type(mod, self, 3)); }
                d.plain = copy(*s);
                w.defs.push_back(d);
                if (r.chance(50)) { m.structure(*s); } else { m.structure(std::move(*s)); }
                break;
            }
            case 1:
            {
                auto discs = usable(mod, self, [&](const Def& x) { return x.kind == "enum" || (x.kind == "typedef" && (unalias(*x.plain).is_primitive_type() || unalias(*x.plain).kind() == TypeKind::ENUMERATION_TYPE)
                        && !(TypeKind::FLOAT_32_TYPE == unalias(*x.plain).kind() || TypeKind::FLOAT_64_TYPE == unalias(*x.plain).kind() || TypeKind::FLOAT_128_TYPE == unalias(*x.plain).kind())); });
                std::shared_ptr<DynamicType> disc;
                if (!discs.empty() && r.chance(50)) { disc = refer(mod, self, r.pick(discs)); }
                else { static const K ks[] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC}; disc = copy(real(*mk_prim(ks[r.below(12)]))); }
                UnionType u(d.name, *disc);
                const DynamicType& base = unalias(*disc);
                std::set<int64_t> taken;
                std::vector<int64_t> pool;
                int n = r.range(1, 4);
                auto label = [&](int64_t& v)
                    {
                        for (int i = 0; i < 30; ++i)
                        {
                            switch (base.kind())
                            {
                                case TypeKind::BOOLEAN_TYPE: v = r.range(0, 1); break;
                                case TypeKind::CHAR_8_TYPE: v = "abcdefghijkXYZ0123456789_ '\\\"\n?:"[r.below(32)]; break;
                                case TypeKind::CHAR_16_TYPE: case TypeKind::WIDE_CHAR_TYPE:
                                    if (r.chance(60)) { v = "abcdefghijkXYZ0123456789_ '\\\"\n?:"[r.below(32)]; }
                                    else if (r.chance(50) || base.kind() == TypeKind::CHAR_16_TYPE) { v = r.chance(50) ? r.range(0xC0, 0x2FF) : r.range(0xE000, 0xFFFD); }
                                    else { v = r.range(0x10000, 0x10FFFF); }
                                    break;
                                case TypeKind::ENUMERATION_TYPE:
                                {
                                    auto& e = static_cast<const EnumerationType<uint32_t>&>(base).enumerators();
                                    auto it = e.begin(); std::advance(it, long(r.below(e.size())));
                                    v = it->second;
                                    break;
                                }
                                case TypeKind::INT_8_TYPE: v = int8_t(r.next()); break;
                                case TypeKind::UINT_8_TYPE: v = uint8_t(r.next()); break;
                                case TypeKind::INT_16_TYPE: v = int16_t(r.next()); break;
                                case TypeKind::UINT_16_TYPE: v = uint16_t(r.next()); break;
                                case TypeKind::INT_32_TYPE: v = int32_t(r.next()); break;
                                case TypeKind::UINT_32_TYPE: v = uint32_t(r.next()); break;
                                default: v = int64_t(r.next() >> r.below(64)); break;
                            }
                            if (v == (base.memory_size() == 1 ? INT8_MAX : base.memory_size() == 2 ? INT16_MAX : base.memory_size() == 4 ? INT32_MAX : INT64_MAX)) { continue; } // reserved for no member
                            if (taken.insert(v).second) { return true; }
                        }
                        return false;
                    };
                bool has_default = false;
                for (int i = 0; i < n; ++i)
                {
                    std::vector<int64_t> ls;
                    int q = r.range(1, 3);
                    for (int j = 0; j < q; ++j) { int64_t v; if (label(v)) { ls.push_back(v); } }
                    bool def = !has_default && i + 1 == n && r.chance(40);
                    if (def && r.chance(40)) { ls.clear(); }
                    if (ls.empty() && !def) { break; }
                    has_default |= def;
                    u.add_case_member(ls, Member(cat("u", d.index, "_", i), *type(mod, self, 2)), def);
                }
                d.plain = copy(u);
                w.defs.push_back(d);
                if (r.chance(50)) { m.union_switch(u); } else { m.union_switch(std::move(u)); }
                break;
            }
            case 2:
            {
                EnumerationType<uint32_t> e(d.name);
                int n = r.range(1, 6);
                uint32_t v = 0;
                for (int i = 0; i < n; ++i)
                {
                    std::string en = cat(r.chance(50) ? "E" : "zz", d.index, "_", r.range(0, 9), "_", i);
                    v += uint32_t(r.chance(70) ? 1 : r.range(1, 1000));
                    e.add_enumerator(en, v);
                }
                d.plain = copy(e);
                w.defs.push_back(d);
                m.enum_32(std::move(e));
                break;
            }
            case 3:
            {
                auto t = type(mod, self, 2);
                AliasType a(*t, d.name);
                d.plain = copy(a);
                w.defs.push_back(d);
                int form = r.range(0, 2);
                if (form == 0) { m.add_alias(a); }
                else if (form == 1) { m.add_alias(AliasType(*t, d.name)); }
                else { m.create_alias(DynamicType::Ptr(*t), d.name); }
                break;
            }
            default: constant(d, m, mod, self);
        }
        c.see(mon::hash_str(d.path) + uint64_t(k));
        c.count("definitions");
    }

    // a constant that is replaced afterwards: nothing of it can be left
    void stale_constant(const Def& d, Module& m)
    {
        if (!r.chance(25)) { return; }
        DynamicData v(primitive_type<int32_t>());
        v = int32_t(r.below(100));
        m.create_constant(d.name, v, false, r.chance(50));
    }

    void constant(Def& d, Module& m, size_t mod, long self)
    {
        auto enums = usable(mod, self, [](const Def& x) { return x.kind == "enum"; });
        if (!enums.empty() && r.chance(30))
        {
            auto t = refer(mod, self, r.pick(enums));
            auto& es = static_cast<const EnumerationType<uint32_t>&>(*t).enumerators();
            auto it = es.begin(); std::advance(it, long(r.below(es.size())));
            DynamicData v(*t);
            v = it->second;
            d.enum_value = it->second;
            stale_constant(d, m);
            m.create_constant(d.name, v, true);
            w.defs.push_back(d);
            return;
        }
        int k = int(r.below(WC + 4));
        K kind = k <= WC ? K(k) : k == WC + 1 ? STR : k == WC + 2 ? WSTR : STR16;
        d.vt = std::make_shared<TD>();
        d.vt->k = kind;
        static const char chars[] = "abcXYZ0189_ .,;:+-*/(){}[]<>=!?#%&@'\"\\\n\t\x01\x1f\r";
        auto ch = [&] { return chars[r.below(sizeof chars - 1)]; };
        auto wide = [&]() -> uint32_t { return r.chance(70) ? uint32_t(ch()) : r.chance(50) ? uint32_t(0xC0 + r.below(0x100)) : kind == WC || kind == WSTR ? uint32_t(0x10000 + r.below(0x100000)) : uint32_t(0x4E00 + r.below(0x1000)); };
        size_t len = r.below(20);
        if (kind == STR) { for (size_t i = 0; i < len; ++i) { d.value.s += ch(); } }
        else if (kind == WSTR) { for (size_t i = 0; i < len; ++i) { d.value.w += wchar_t(wide()); } }
        else if (kind == STR16) { for (size_t i = 0; i < len; ++i) { d.value.u += char16_t(wide()); } }
        else if (kind == C8) { d.value.set<char>(ch()); }
        else if (kind == C16) { d.value.set<char16_t>(char16_t(wide())); }
        else if (kind == WC) { d.value.set<wchar_t>(wchar_t(wide())); }
        else if (is_float(kind))
        {
            long double x = (long double)(int64_t(r.next()) >> r.range(0, 60)) / 64;
            if (r.chance(50)) { x = ldexpl(x, r.range(-60, 60)); }
            if (kind == F32) { d.value.set<float>(float(x)); } else if (kind == F64) { d.value.set<double>(double(x)); } else { d.value.set<long double>(x); }
        }
        else { d.value = gen_prim(r, kind, false); }
        DynamicData v(real(*d.vt));
        assign_leaf(v.ref(), *d.vt, d.value, r);
        d.fake = r.chance(10);
        stale_constant(d, m);
        m.create_constant(d.name, v, true, d.fake);
        w.defs.push_back(d);
    }
};

void check_text(Case& c, const World& w, const std::string& text, size_t root)
{
    Reader rd;
    if (root) { for (size_t q : w.chain(size_t(w.mods[root].outer))) { if (q) { rd.scope.push_back(w.mods[q].name); rd.symbols[w.mods[q].path] = "module"; } } }
    auto fail = [&](const char* key, const std::string& m) { c.die(key, cat(m, "\n", text.substr(0, 6000))); };
    try { rd.read(text); } catch (const Bad& b) { fail(b.what.find("not declared before") != std::string::npos ? "order" : b.what.find("twice") != std::string::npos ? "twice" : "syntax", b.what); }
    std::set<std::string> want;
    for (auto& d : w.defs)
    {
        auto ch = w.chain(d.mod);
        if (d.fake || std::find(ch.begin(), ch.end(), root) == ch.end()) { continue; }
        want.insert(d.path);
    }
    for (auto& d : rd.decls)
    {
        if (!want.erase(d.path)) { fail("extra", cat("'", d.path, "' is declared but not part of the module")); }
        const Def& def = w.defs[w.by_path.at(d.path)];
        std::string s = same_def(w, def, d);
        if (!s.empty()) { fail("content", cat(d.kind, " ", d.path, ": ", s)); }
        c.count("declarations.compared");
    }
    if (!want.empty()) { fail("missing", cat("'", *want.begin(), "' is not declared")); }
    for (size_t i = 1; i < w.mods.size(); ++i)
    {
        auto ch = w.chain(i);
        if (std::find(ch.begin(), ch.end(), root) == ch.end()) { continue; }
        if (!rd.symbols.count(w.mods[i].path)) { fail("missing-module", cat("module ", w.mods[i].path)); }
    }
}

} // namespace

MON_WORKLOAD(idl_modules)
{
    Rng& r = c.rng;
    World w;
    Gen g{c, r, w, {}};
    g.shared_names = r.chance(40) ? 40 : 0;
    g.modules();
    int n = r.range(1, r.chance(30) ? 25 : 12);
    for (int i = 0; i < n; ++i) { g.definition(); }
    for (auto& d : w.defs) { c.note(cat(d.kind, " ", d.path)); }
    std::string text = gen::module(w.root);
    check_text(c, w, text, 0);
    // the same text again, and with the table of pieces
    if (r.chance(30))
    {
        std::map<std::string, std::string> pieces;
        if (gen::module(w.root, r.chance(50) ? &pieces : nullptr) != text) { c.die("repeat", "generating again gives another text"); }
        check_text(c, w, text, 0);
    }
    // a module on its own when nothing outside is needed
    if (w.mods.size() > 1)
    {
        size_t m = 1 + r.below(w.mods.size() - 1);
        bool closed = true;
        for (size_t q : w.chain(m)) { if (q != m) { for (auto& e : w.edges[q]) { for (size_t x : w.chain(m)) { if (e.second == -1 - long(x)) { closed = false; } } } } }
        if (closed) { check_text(c, w, gen::module(*w.mods[m].real), m); c.count("modules.alone"); }
    }
    c.count("texts.read");
    c.nontrivial = w.defs.size() > 2;
}

// A structure on its own: the names are written as the types report them
MON_WORKLOAD(idl_struct)
{
    Rng& r = c.rng;
    World w;
    Gen g{c, r, w, {}};
    g.modules();
    int n = r.range(1, 8);
    for (int i = 0; i < n; ++i) { g.definition(); }
    for (auto& d : w.defs)
    {
        if (d.kind != "struct") { continue; }
        const StructType& t = static_cast<const StructType&>(real_of(w, d));
        std::string text = gen::structure(d.name, t);
        Reader rd;
        rd.lax = true;
        try { rd.read(text); } catch (const Bad& b) { c.die("syntax", cat(b.what, "\n", text)); }
        if (rd.decls.size() != 1 || rd.decls[0].kind != "struct" || rd.decls[0].path != d.name) { c.die("declaration", cat(d.name, "\n", text)); }
        Decl q = rd.decls[0];
        std::string parent = t.has_parent() ? t.parent().name() : "";
        if (q.parent != parent) { c.die("parent", cat("'", q.parent, "' instead of '", parent, "'\n", text)); }
        // names as written
        std::function<void(Expr&)> fix = [&](Expr& e)
            {
                if (e.k == "name")
                {
                    std::string p = e.path.compare(0, 2, "::") == 0 ? e.path.substr(2) : e.path;
                    if (!w.by_path.count(p)) { auto it = w.by_name.find(p); if (it != w.by_name.end()) { p = w.defs[it->second].path; } }
                    e.path = p;
                }
                for (auto& a : e.args) { fix(a); }
            };
        for (auto& f : q.fields) { fix(f.type); }
        std::string s = same_fields(w, t.members(), t.has_parent() ? t.parent().members().size() : 0, q);
        if (!s.empty()) { c.die("content", cat(d.path, ": ", s, "\n", text)); }
        c.count("structures.read");
        c.see(mon::hash_str(text));
    }
    c.nontrivial = true;
}
