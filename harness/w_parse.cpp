// IDL text read by the parser (C23, C24, C25): the types, constants and modules it describes are what is obtained.
#include "runner.hpp"
#include "utf.hpp"
#include <xtypes/xtypes.hpp>
#include <xtypes/idl/idl.hpp>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <memory>
#include <unistd.h>
using namespace eprosima::xtypes;
using eprosima::xtypes::idl::Module;
using eprosima::xtypes::idl::Context;
using eprosima::xtypes::idl::Parser;
using mon::cat;

namespace {

using I = __int128;
using Toks = std::vector<std::string>;

std::string last(const std::string& n) { size_t p = n.rfind("::"); return p == std::string::npos ? n : n.substr(p + 2); }
std::string show(I v) { if (v < 0) { return "-" + show(-v); } return v < 10 ? std::string(1, char('0' + int(v))) : show(v / 10) + char('0' + int(v % 10)); }
void add(Toks& a, const Toks& b) { a.insert(a.end(), b.begin(), b.end()); }

// ------------------------------------------------------------------ what was obtained
std::string describe(const DynamicType& t, int depth = 0);
std::string describe_labels(const UnionType& u, const std::string& m)
{
    std::vector<int64_t> l = u.get_labels(m);
    std::sort(l.begin(), l.end());
    std::string s;
    for (int64_t x : l) { s += std::to_string(x) + ","; }
    return s + (u.is_default(m) ? "*" : "");
}
std::string describe(const DynamicType& t, int depth)
{
    if (depth > 60) { return "..."; }
    switch (t.kind())
    {
        case TypeKind::STRING_TYPE: return cat("string<", static_cast<const StringType&>(t).bounds(), ">");
        case TypeKind::WSTRING_TYPE: return cat("wstring<", static_cast<const WStringType&>(t).bounds(), ">");
        case TypeKind::STRING16_TYPE: return cat("u16string<", static_cast<const String16Type&>(t).bounds(), ">");
        case TypeKind::SEQUENCE_TYPE: { auto& s = static_cast<const SequenceType&>(t); return cat("seq<", describe(s.content_type(), depth + 1), ",", s.bounds(), ">"); }
        case TypeKind::ARRAY_TYPE: { auto& s = static_cast<const ArrayType&>(t); return cat("arr<", describe(s.content_type(), depth + 1), ",", s.dimension(), ">"); }
        case TypeKind::MAP_TYPE:
        {
            auto& s = static_cast<const MapType&>(t);
            auto& p = static_cast<const PairType&>(s.content_type());
            return cat("map<", describe(p.first(), depth + 1), ",", describe(p.second(), depth + 1), ",", s.bounds(), ">");
        }
        case TypeKind::ALIAS_TYPE: { auto& a = static_cast<const AliasType&>(t); return cat("alias ", last(t.name()), "=", describe(a.get(), depth + 1)); }
        case TypeKind::ENUMERATION_TYPE:
        {
            std::string s = "enum " + last(t.name()) + "{";
            for (auto& e : static_cast<const EnumerationType<uint32_t>&>(t).enumerators()) { s += cat(e.first, "=", e.second, ","); }
            return s + "}";
        }
        case TypeKind::STRUCTURE_TYPE:
        {
            auto& st = static_cast<const StructType&>(t);
            std::string s = "struct " + last(t.name());
            size_t from = 0;
            if (st.has_parent()) { s += ":" + describe(st.parent(), depth + 1); from = st.parent().members().size(); }
            s += "{";
            for (size_t i = from; i < st.members().size(); ++i) { s += cat(st.member(i).name(), ":", describe(st.member(i).type(), depth + 1), ";"); }
            return s + "}";
        }
        case TypeKind::UNION_TYPE:
        {
            auto& u = static_cast<const UnionType&>(t);
            std::string s = "union " + last(t.name()) + "(" + describe(u.discriminator(), depth + 1) + "){";
            for (auto& m : u.get_case_members()) { s += cat("[", describe_labels(u, m), "]", m, ":", describe(u.member(m).type(), depth + 1), ";"); }
            return s + "}";
        }
        default: return t.name();
    }
}
template<typename T> std::string hexf(T v) { char b[80]; snprintf(b, sizeof b, "%La", static_cast<long double>(v)); return b; }
std::string bytes(const std::string& s) { std::string r; for (unsigned char c : s) { if (c >= 0x20 && c < 0x7f && c != '\\') { r += char(c); } else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
template<typename S> std::string units(const S& s) { std::string r; for (auto c : s) { r += cat(uint32_t(c), "."); } return r; }
std::string value_of(const DynamicData& d)
{
    switch (d.type().kind())
    {
        case TypeKind::BOOLEAN_TYPE: return d.value<bool>() ? "TRUE" : "FALSE";
        case TypeKind::INT_8_TYPE: return show(d.value<int8_t>());
        case TypeKind::UINT_8_TYPE: return show(d.value<uint8_t>());
        case TypeKind::INT_16_TYPE: return show(d.value<int16_t>());
        case TypeKind::UINT_16_TYPE: return show(d.value<uint16_t>());
        case TypeKind::INT_32_TYPE: return show(d.value<int32_t>());
        case TypeKind::UINT_32_TYPE: return show(d.value<uint32_t>());
        case TypeKind::INT_64_TYPE: return show(d.value<int64_t>());
        case TypeKind::UINT_64_TYPE: return show(d.value<uint64_t>());
        case TypeKind::FLOAT_32_TYPE: return hexf(d.value<float>());
        case TypeKind::FLOAT_64_TYPE: return hexf(d.value<double>());
        case TypeKind::FLOAT_128_TYPE: return hexf(d.value<long double>());
        case TypeKind::CHAR_8_TYPE: return bytes(std::string(1, d.value<char>()));
        case TypeKind::CHAR_16_TYPE: return cat(uint32_t(d.value<char16_t>()));
        case TypeKind::WIDE_CHAR_TYPE: return cat(uint32_t(d.value<wchar_t>()));
        case TypeKind::STRING_TYPE: return bytes(d.value<std::string>());
        case TypeKind::WSTRING_TYPE: return units(d.value<std::wstring>());
        case TypeKind::STRING16_TYPE: return units(d.value<std::u16string>());
        case TypeKind::ENUMERATION_TYPE: return show(d.value<uint32_t>());
        default: return "?" + d.type().name();
    }
}

// ------------------------------------------------------------------ the document
struct Mod;
struct Sym
{
    std::string name, kind, desc;       // kind: struct union enum alias const
    Mod* owner = nullptr;
    std::string target;                 // of a chain of aliases: the kind of what it stands for ("struct", "enum", "prim:int32_t"...)
    std::string value;                  // const
    I number = 0;
    std::vector<std::string> items;     // enumerators
    bool heavy = false;
};
struct Mod
{
    std::string name;
    Mod* outer = nullptr;
    std::vector<std::unique_ptr<Mod>> inner;
    std::map<std::string, Sym*> syms;
    std::map<std::string, Mod*> mods;
    std::vector<std::string> path() const { std::vector<std::string> p; if (outer) { p = outer->path(); p.push_back(name); } return p; }
};
struct IntKind { const char* type; std::vector<const char*> words; int bits; bool sign; };
const std::vector<IntKind> INTS = {
    {"int8_t", {"int8"}, 8, true}, {"uint8_t", {"uint8", "octet"}, 8, false}, {"int16_t", {"int16", "short"}, 16, true}, {"uint16_t", {"uint16", "unsigned short"}, 16, false},
    {"int32_t", {"int32", "long"}, 32, true}, {"uint32_t", {"uint32", "unsigned long"}, 32, false}, {"int64_t", {"int64", "long long"}, 64, true},
    {"uint64_t", {"uint64", "unsigned long long"}, 64, false}};
I lo(const IntKind& k) { return k.sign ? -(I(1) << (k.bits - 1)) : 0; }
I hi(const IntKind& k) { return (I(1) << (k.sign ? k.bits - 1 : k.bits)) - 1; }

struct Typed { Toks t; std::string desc, target; bool key = false; bool heavy = false; };

struct Doc
{
    mon::Case& c;
    mon::Rng& r;
    Mod root;
    Mod* at = &root;
    std::vector<std::unique_ptr<Sym>> syms;
    std::vector<std::unique_ptr<Sym>> consts;
    Toks out;
    int uid = 0;
    bool reopen = true;         // modules in several pieces
    bool clash = false;         // the same names in several modules
    bool expressions = true;
    bool annotations = false;
    bool wide_literals = true;
    bool escapes = false;
    bool char16 = false;
    Context::CharType chars = Context::CHAR;
    bool plain = false;         // nothing that the shell or the preprocessor could look at

    explicit Doc(mon::Case& cc) : c(cc), r(cc.rng) { clash = r.chance(30); annotations = r.chance(20); char16 = r.chance(25); escapes = r.chance(15); chars = r.chance(80) ? Context::CHAR : r.chance(50) ? Context::UINT8 : Context::INT8; }

    // ---- names
    std::string fresh(const char* base)
    {
        static const char* const pool[] = {"Alpha", "Beta", "Gamma", "Delta", "unix"};
        if (clash && r.chance(60))
        {
            std::string n = pool[r.below(5)];
            if (!at->syms.count(n) && !at->mods.count(n) && visible_free(n)) { return n; }
        }
        return plain_name(base);
    }
    std::string plain_name(const char* base)
    {
        static const char* const tricky[] = {"string", "long", "int_", "int8", "case_", "TRUE", "FALSE_", "struct", "module_", "L", "e", "x", "default", "map", "octet", "union_", "sequence", "linux", "unix",
            "boolean", "constant", "u", "TRUE_", "wstring"};
        if (r.chance(12)) { c.count("parse.name.tricky"); return cat(tricky[r.below(sizeof tricky / sizeof *tricky)], ++uid); }
        return cat(base, ++uid);
    }
    // an identifier may be written with an underscore before it
    std::string spell(const std::string& n) { if (!escapes || !r.chance(10)) { return n; } c.count("parse.name.escaped"); return "_" + n; }
    // a name that nothing in the module has (something in the modules around it may have it)
    bool visible_free(const std::string& n) const
    {
        return at->name != n && !at->syms.count(n) && !at->mods.count(n);
    }
    std::vector<std::string> path_of(const Sym& s) const { auto p = s.owner->path(); p.push_back(s.name); return p; }
    // what a name means here, as the specification says: the innermost scope that has its first part
    const void* resolve(const std::vector<std::string>& p, bool absolute) const
    {
        const Mod* m = absolute ? &root : at;
        for (;; m = m->outer)
        {
            if (m->mods.count(p[0]) || m->syms.count(p[0])) { break; }
            if (absolute || !m->outer) { return nullptr; }
        }
        for (size_t i = 0; i + 1 < p.size(); ++i)
        {
            auto it = m->mods.find(p[i]);
            if (it == m->mods.end()) { return nullptr; }
            m = it->second;
        }
        auto it = m->syms.find(p.back());
        return it == m->syms.end() ? nullptr : it->second;
    }
    static std::string text(const std::vector<std::string>& p, size_t from) { std::string s; for (size_t i = from; i < p.size(); ++i) { s += (i > from ? "::" : "") + p[i]; } return s; }
    std::string ref(const Sym& s)
    {
        auto p = path_of(s);
        std::vector<std::string> ways;
        if (resolve(p, true) == &s) { ways.push_back("::" + text(p, 0)); }
        for (size_t i = 0; i < p.size(); ++i)
        {
            std::vector<std::string> q(p.begin() + long(i), p.end());
            if (resolve(q, false) == &s) { ways.push_back(text(q, 0)); ways.push_back(ways.back()); }
        }
        if (ways.empty()) { c.count("parse.unreachable"); return ""; }
        std::string w = r.pick(ways);
        c.count(w.compare(0, 2, "::") == 0 ? "parse.ref.absolute" : w.find("::") != std::string::npos ? "parse.ref.scoped" : "parse.ref.bare");
        if (escapes && r.chance(10))
        {
            size_t at_ = w.rfind("::");
            w.insert(at_ == std::string::npos ? 0 : at_ + 2, "_");
            c.count("parse.ref.escaped");
        }
        return w;
    }
    Sym* declare(const std::string& name, const char* kind)
    {
        syms.emplace_back(new Sym);
        Sym* s = syms.back().get();
        s->name = name; s->kind = kind; s->owner = at;
        return s;
    }
    void drop(Sym* s) { s->owner->syms.erase(s->name); syms.pop_back(); }
    void publish(Sym* s) { s->owner->syms[s->name] = s; }

    // ---- literals
    std::string integer(I v) // not negative
    {
        int k = r.below(10);
        char b[40];
        if (k == 0 && v <= I(UINT64_MAX)) { snprintf(b, sizeof b, r.chance(50) ? "0x%llx" : "0X%llX", static_cast<unsigned long long>(v)); c.count("parse.literal.hex"); return b; }
        if (k == 1 && v > 0) { snprintf(b, sizeof b, "0%llo", static_cast<unsigned long long>(v)); c.count("parse.literal.oct"); return b; }
        return show(v);
    }
    struct Ex { Toks t; I v; int prec; };   // prec: 0 or, 1 xor, 2 and, 3 shift, 4 add, 5 mult, 6 unary, 7 primary
    Toks wrap(const Ex& e, int least)
    {
        if (e.prec >= least && !r.chance(8)) { return e.t; }
        Toks t{"("}; add(t, e.t); t.push_back(")");
        return t;
    }
    Ex expr(const IntKind& k, int depth)
    {
        for (int tries = 0; tries < 20; ++tries)
        {
            Ex e = expr_try(k, depth);
            if (e.v >= lo(k) && e.v <= hi(k) && !e.t.empty()) { return e; }
            if (depth > 0 && r.chance(20)) { --depth; }
        }
        return {{"1"}, 1, 7};
    }
    Ex expr_try(const IntKind& k, int depth)
    {
        if (depth <= 0 || r.chance(25))
        {
            std::vector<Sym*> same;
            for (auto& s : consts) { if (s->kind == "int" && s->number >= lo(k) && s->number <= hi(k)) { same.push_back(s.get()); } }
            if (!same.empty() && r.chance(35))
            {
                Sym* s = r.pick(same);
                std::string n = ref(*s);
                if (!n.empty()) { c.count("parse.expr.name"); return {{n}, s->number, 7}; }
            }
            if (k.sign && r.chance(6)) { c.count("parse.expr.minimum"); return {{"-", integer(-lo(k))}, lo(k), 6}; }
            I v = r.chance(75) ? I(r.below(20)) : r.chance(60) ? I(r.next()) & hi(k) : hi(k) - I(r.below(2));
            return {{integer(v & hi(k))}, v & hi(k), 7};
        }
        int op = r.below(11);
        if (op == 10)
        {
            Ex a = expr(k, depth - 1);
            int u = r.below(k.sign ? 3 : 2);
            Toks t{u == 0 ? "+" : u == 1 ? "~" : "-"};
            add(t, wrap(a, 7));
            if (u) { c.count(u == 1 ? "parse.expr.not" : "parse.expr.neg"); }
            return {t, u == 0 ? a.v : u == 1 ? (k.sign ? -a.v - 1 : hi(k) - a.v) : -a.v, 6};
        }
        static const char* const ops[] = {"|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%"};
        static const int precs[] = {0, 1, 2, 3, 3, 4, 4, 5, 5, 5};
        // a chain of operators of the same level: they are applied from the left
        Ex acc = expr(k, depth - 1);
        int p = precs[op];
        acc.t = wrap(acc, p);
        acc.prec = p;
        int n = r.chance(35) ? r.range(2, 3) : 1;
        for (int i = 0; i < n; ++i)
        {
            if (i) { do { op = int(r.below(10)); } while (precs[op] != p); c.count("parse.expr.chain"); }
            Ex b = (op == 3 || op == 4) ? Ex{{cat(r.below(uint64_t(std::min(k.bits - 1, 12))))}, 0, 7} : expr(k, depth - 1);
            if (op == 3 || op == 4) { b.v = I(std::stoi(b.t[0])); }
            I v = 0;
            switch (op)
            {
                case 0: v = acc.v | b.v; break;
                case 1: v = acc.v ^ b.v; break;
                case 2: v = acc.v & b.v; break;
                case 3: if (acc.v < 0) { return {{}, 0, 0}; } v = acc.v << int(b.v); break;
                case 4: if (acc.v < 0) { return {{}, 0, 0}; } v = acc.v >> int(b.v); break;
                case 5: v = acc.v + b.v; break;
                case 6: v = acc.v - b.v; break;
                case 7: if (__builtin_mul_overflow(acc.v, b.v, &v)) { return {{}, 0, 0}; } break;
                case 8: if (b.v == 0) { return {{}, 0, 0}; } v = acc.v / b.v; break;
                default: if (b.v == 0 || (b.v == -1 && acc.v == lo(k))) { return {{}, 0, 0}; } v = acc.v % b.v; break;
            }
            if (v < lo(k) || v > hi(k)) { return {{}, 0, 0}; }
            acc.t.push_back(ops[op]);
            add(acc.t, wrap(b, p + 1));
            acc.v = v;
            c.count(cat("parse.op.", ops[op]).c_str());
        }
        return acc;
    }
    // a positive size: literal or name of a constant
    Toks size(size_t max, size_t& v)
    {
        std::vector<Sym*> ok;
        for (auto& s : consts) { if (s->number > 0 && s->number <= I(max) && s->kind == "int") { ok.push_back(s.get()); } }
        if (!ok.empty() && r.chance(40))
        {
            std::vector<Sym*> big;
            for (auto s : ok) { if (s->number > 100) { big.push_back(s); } }
            Sym* s = !big.empty() && r.chance(60) ? r.pick(big) : r.pick(ok);
            std::string n = ref(*s);
            if (!n.empty()) { v = size_t(s->number); c.count("parse.size.name"); if (v > 100) { c.count(cat("parse.size.name.", s->desc).c_str()); } return {n}; }
        }
        v = 1 + r.below(max);
        if (v > 100) { c.count("parse.size.large"); }
        return {integer(I(v))};
    }
    // of a string or collection: it reserves nothing, so it may be any
    Toks bound(size_t& v)
    {
        static const size_t maxs[] = {200, 300, 70000, 0x7fffffff, 0xffffffffu};
        return size(r.chance(60) ? 40 : maxs[r.below(5)], v);
    }
    std::string chr(bool wide, char q, std::string& value, uint32_t& code)
    {
        // value: bytes of the character
        if (r.chance(70)) // plain
        {
            static const std::string set = "abcXYZ019 _-+*/%&|<>;:,.()[]{}#@!~^=$";
            char ch = set[r.below(set.size())];
            value = std::string(1, ch); code = uint32_t(ch);
            return value;
        }
        if (r.chance(70)) // escape
        {
            static const std::string names = "ntvbrfa\\?'\"", codes = "\n\t\v\b\r\f\a\\?'\"";
            size_t i = r.below(names.size() + 2);
            c.count("parse.escape");
            char b[12];
            if (i < names.size()) { value = std::string(1, codes[i]); code = static_cast<unsigned char>(codes[i]); return std::string("\\") + names[i]; }
            if (r.chance(40))
            {
                // codes out of ASCII
                if (wide || q == '"')
                {
                    if (r.chance(60))
                    {
                        code = r.chance(40) ? 0x80 + uint32_t(r.below(0x780)) : 0x800 + uint32_t(r.below(0xd000));
                        value = enc8({code});
                        snprintf(b, sizeof b, r.chance(50) ? "\\u%04x" : "\\u%04X", code);
                        c.count("parse.escape.unicode");
                        return b;
                    }
                }
                code = 0x80 + uint32_t(r.below(0x80));
                value = wide ? enc8({code}) : std::string(1, char(code));
                snprintf(b, sizeof b, r.chance(50) ? "\\%03o" : "\\x%02X", code);
                c.count("parse.escape.high");
                return b;
            }
            code = 1 + uint32_t(r.below(126));
            value = std::string(1, char(code));
            snprintf(b, sizeof b, i == names.size() ? "\\%03o" : "\\x%02x", code);
            return b;
        }
        if (!wide && q == '\'') { value = "z"; code = 'z'; return value; }
        static const uint32_t some[] = {0xe9, 0x3b1, 0x20ac, 0x4e2d};
        code = some[r.below(4)];
        value = enc8({code});
        c.count("parse.literal.utf8");
        return value;
    }
    const char* char_type() const { return chars == Context::CHAR ? "char" : chars == Context::UINT8 ? "uint8_t" : "int8_t"; }
    Typed prim_type()
    {
        Typed t;
        t.key = true;
        int k = int(r.below(13));
        if (k < 8)
        {
            auto& i = INTS[size_t(k)];
            t.t = words(i.words[r.below(i.words.size())]);
            t.desc = i.type;
        }
        else if (k == 8) { t.t = {"boolean"}; t.desc = "bool"; }
        else if (k == 9) { t.t = {"float"}; t.desc = "float"; }
        else if (k == 10) { t.t = {"double"}; t.desc = "double"; }
        else if (k == 11) { t.t = {"long", "double"}; t.desc = "long double"; t.key = false; }
        else if (r.chance(50)) { t.t = {"char"}; t.desc = char_type(); }
        else { t.t = {"wchar"}; t.desc = char16 ? "char16_t" : "wchar_t"; }
        t.target = "prim:" + t.desc;
        return t;
    }
    static Toks words(const std::string& s) { Toks t; std::istringstream is(s); std::string w; while (is >> w) { t.push_back(w); } return t; }
    Sym* some(bool (*ok)(const Sym&))
    {
        std::vector<Sym*> v;
        for (auto& s : syms) { if (!s->desc.empty() && ok(*s)) { v.push_back(s.get()); } }
        return v.empty() ? nullptr : r.pick(v);
    }
    Typed type(int depth, bool key = false)
    {
        Typed t;
        int k = r.weighted(key ? std::vector<int>{8, 4, 2, 0, 0, 4} : std::vector<int>{10, 4, 3, depth > 0 ? 4 : 0, depth > 0 ? 3 : 0, 9});
        if (k == 5)
        {
            Sym* s = key ? some([](const Sym& x) { return x.kind == "enum" || (x.kind == "alias" && (x.target == "enum" || x.target.compare(0, 5, "prim:") == 0)); })
                         : some([](const Sym& x) { return x.kind != "const" && !x.heavy; });
            if (s)
            {
                std::string n = ref(*s);
                if (!n.empty()) { t.t = {n}; t.desc = s->desc; t.target = s->kind == "alias" ? s->target : s->kind; t.heavy = s->desc.size() > 600; return t; }
            }
            k = 0;
        }
        if (k == 0) { return prim_type(); }
        if (k == 1 || k == 2)
        {
            bool wide = k == 2;
            t.t = {wide ? "wstring" : "string"};
            size_t b = 0;
            if (r.chance(50)) { t.t.push_back("<"); add(t.t, bound(b)); t.t.push_back(">"); c.count("parse.bound.string"); }
            t.desc = cat(wide ? (char16 ? "u16string<" : "wstring<") : "string<", b, ">");
            t.target = "string";
            return t;
        }
        size_t b = 0;
        if (k == 3)
        {
            Typed e = type(depth - 1);
            t.t = {"sequence", "<"}; add(t.t, e.t);
            if (r.chance(50)) { t.t.push_back(","); add(t.t, bound(b)); }
            t.t.push_back(">");
            t.desc = cat("seq<", e.desc, ",", b, ">");
        }
        else
        {
            Typed a = type(0, true), e = type(depth - 1);
            t.t = {"map", "<"}; add(t.t, a.t); t.t.push_back(","); add(t.t, e.t);
            if (r.chance(50)) { t.t.push_back(","); add(t.t, bound(b)); }
            t.t.push_back(">");
            t.desc = cat("map<", a.desc, ",", e.desc, ",", b, ">");
        }
        t.target = "collection";
        return t;
    }
    // the dimensions after a name
    Toks dims(const std::string& desc, std::string& result)
    {
        Toks t;
        result = desc;
        if (!r.chance(25)) { return t; }
        std::vector<size_t> d(size_t(r.range(1, 3)));
        for (auto& v : d) { t.push_back("["); add(t, size(5, v)); t.push_back("]"); }
        for (size_t i = d.size(); i-- > 0;) { result = cat("arr<", result, ",", d[i], ">"); }
        c.count("parse.array");
        return t;
    }
    Toks annotation()
    {
        if (!annotations || !r.chance(30)) { return {}; }
        c.count("parse.annotation");
        switch (r.below(4))
        {
            case 0: return {"@key"};
            case 1: return {"@id", "(", cat(r.below(100)), ")"};
            case 2: return {"@range", "(", "min", "=", "1", ",", "max", "=", "5", ")"};
            default: { Toks t = {"@id", "(", cat(r.below(100)), ")"}; t.push_back("@key"); return t; }
        }
    }

    // ---- definitions
    void def_const()
    {
        Toks t{"const"};
        consts.emplace_back(new Sym);
        Sym* s = consts.back().get();
        s->owner = at;
        std::string name = fresh("K");
        int k = r.weighted({14, 3, 3, 3, 2, 2, 2, 2, 2});
        Toks v;
        if (k == 0)
        {
            auto& i = INTS[r.below(INTS.size())];
            std::string an;
            Sym* al = nullptr;
            if (r.chance(15))
            {
                std::vector<Sym*> v;
                for (auto& x : syms) { if (x->kind == "alias" && x->target == cat("prim:", i.type)) { v.push_back(x.get()); } }
                if (!v.empty()) { al = r.pick(v); an = ref(*al); }
            }
            if (!an.empty()) { t.push_back(an); c.count("parse.const.alias"); }
            else { add(t, words(i.words[i.words.size() > 1 && std::string(i.words[1]) == "octet" ? 0 : r.below(i.words.size())])); }
            Ex e = expr(i, expressions ? r.range(0, 4) : 0);
            s->kind = "int"; s->desc = i.type; s->number = e.v; s->value = show(e.v);
            v = e.t;
        }
        else if (k == 1)
        {
            t.push_back("boolean");
            bool b = r.chance(50);
            s->kind = "bool"; s->desc = "bool"; s->value = b ? "TRUE" : "FALSE";
            v = {s->value};
        }
        else if (k == 2)
        {
            int w = int(r.below(3));
            add(t, w == 0 ? Toks{"float"} : w == 1 ? Toks{"double"} : Toks{"long", "double"});
            auto lit = [&]() { static const char* const f[] = {"1.5", "0.1", "3.0e5", "2.5E-3", ".25", "7.", "1e10", "123456.789", "0.0", "6.02e13", "3", "0", "17"}; return std::string(f[r.below(13)]); };
            std::string a = lit(), b = lit();
            int op = int(r.below(7));
            s->kind = "float"; s->desc = w == 0 ? "float" : w == 1 ? "double" : "long double";
            static const char* const ops[] = {"+", "-", "*"};
            if (op == 3) { v = {"-", a}; }
            else if (op < 3) { v = {a, ops[op], b}; }
            else { v = {a}; }
            auto eval = [&](auto z, auto conv)
            {
                using T = decltype(z);
                T x = conv(a.c_str()), y = conv(b.c_str());
                T res = op == 3 ? T(-x) : op == 0 ? T(x + y) : op == 1 ? T(x - y) : op == 2 ? T(x * y) : x;
                s->value = hexf(res);
            };
            if (w == 0) { eval(float(), [](const char* p) { return strtof(p, nullptr); }); }
            else if (w == 1) { eval(double(), [](const char* p) { return strtod(p, nullptr); }); }
            else { eval((long double)(0), [](const char* p) { return strtold(p, nullptr); }); }
        }
        else if (k == 3)
        {
            t.push_back("string");
            s->kind = "string"; s->desc = "string<0>";
            std::string all;
            for (int n = r.chance(75) ? 1 : r.range(2, 3); n-- > 0;)
            {
                std::string lit = "\"";
                for (int m = int(r.below(8)); m-- > 0;) { std::string b; uint32_t cd; lit += chr(false, '"', b, cd); all += b; }
                v.push_back(lit + "\"");
            }
            if (v.size() > 1) { c.count("parse.literal.concat"); }
            s->value = bytes(all);
        }
        else if (k == 4)
        {
            t.push_back("char");
            std::string b; uint32_t cd;
            std::string l = chr(false, '\'', b, cd);
            v = {"'" + l + "'"};
            s->kind = "char"; s->desc = char_type(); s->value = chars == Context::CHAR ? bytes(b) : show(chars == Context::UINT8 ? I(static_cast<unsigned char>(b[0])) : I(static_cast<signed char>(b[0])));
        }
        else if (k == 5 && wide_literals)
        {
            t.push_back("wchar");
            std::string b; uint32_t cd;
            std::string l = chr(true, '\'', b, cd);
            v = {"L'" + l + "'"};
            s->kind = "wchar"; s->desc = char16 ? "char16_t" : "wchar_t"; s->value = cat(cd);
        }
        else if (k == 6 && wide_literals)
        {
            t.push_back("wstring");
            std::string lit = "L\"";
            std::vector<uint32_t> all;
            for (int m = int(r.below(8)); m-- > 0;) { std::string b; uint32_t cd; lit += chr(true, '"', b, cd); all.push_back(cd); }
            v = {lit + "\""};
            s->kind = "wstring"; s->desc = char16 ? "u16string<0>" : "wstring<0>"; s->value = units(all);
        }
        else if (k == 8 && some([](const Sym& x) { return x.kind == "enum"; }))
        {
            Sym* e = some([](const Sym& x) { return x.kind == "enum"; });
            size_t i = r.below(e->items.size());
            Sym* it = nullptr;
            for (auto& q : consts) { if (q->name == e->items[i]) { it = q.get(); } }
            std::string en = ref(*e), vn = it ? ref(*it) : "";
            if (en.empty() || vn.empty()) { consts.pop_back(); return; }
            t.push_back(en); v = {vn};
            s->kind = "enumerator"; s->desc = e->desc; s->value = cat(i);
        }
        else
        {
            // another constant under a new name
            std::vector<Sym*> all;
            for (auto& x : consts) { if (x.get() != s && x->kind != "" && x->kind != "enumerator") { all.push_back(x.get()); } }
            Sym* o = all.empty() ? nullptr : r.pick(all);
            std::string n = o ? ref(*o) : "";
            static const std::map<std::string, std::string> word = {{"bool", "boolean"}, {"int8_t", "int8"}, {"uint8_t", "uint8"}, {"int16_t", "short"}, {"uint16_t", "uint16"},
                {"int32_t", "long"}, {"uint32_t", "unsigned long"}, {"int64_t", "int64"}, {"uint64_t", "uint64"}, {"float", "float"}, {"double", "double"},
                {"long double", "long double"}, {"string<0>", "string"}, {"char", "char"}, {"wchar_t", "wchar"}, {"char16_t", "wchar"}, {"wstring<0>", "wstring"}, {"u16string<0>", "wstring"}};
            if (n.empty()) { consts.pop_back(); return; }
            c.count("parse.const.copy");
            add(t, o->kind == "char" ? Toks{"char"} : words(word.at(o->desc)));
            v = {n};
            s->kind = o->kind; s->desc = o->desc; s->number = o->number; s->value = o->value;
            // an integer of another type
            if (o->kind == "int" && r.chance(50))
            {
                auto& i = INTS[r.below(INTS.size())];
                if (o->number >= lo(i) && o->number <= hi(i)) { t = {"const"}; add(t, words(i.words[0])); s->desc = i.type; c.count("parse.const.converted"); }
            }
        }
        s->name = name;
        t.push_back(spell(name)); t.push_back("="); add(t, v); t.push_back(";");
        add(out, t);
        at->syms[name] = s;
        c.count(cat("parse.const.", s->kind).c_str());
    }
    void def_enum()
    {
        std::string name = fresh("E");
        Sym* s = declare(name, "enum");
        Toks t = annotation();
        add(t, {"enum", spell(name), "{"});
        int n = r.range(1, 5);
        std::map<std::string, int> sorted;
        for (int i = 0; i < n; ++i)
        {
            std::string e = plain_name("V");
            add(t, annotation());
            t.push_back(spell(e));
            t.push_back(i + 1 < n ? "," : "}");
            s->items.push_back(e);
            sorted[e] = i;
        }
        t.push_back(";");
        std::string d = "enum " + name + "{";
        for (auto& e : sorted) { d += cat(e.first, "=", e.second, ","); }
        s->desc = d + "}";
        s->target = "enum";
        add(out, t);
        publish(s);
        for (int i = 0; i < n; ++i)
        {
            consts.emplace_back(new Sym);
            Sym* k = consts.back().get();
            k->owner = at; k->name = s->items[size_t(i)]; k->kind = "int"; k->desc = "uint32_t"; k->number = i; k->value = cat(i);
            at->syms[k->name] = k;
        }
        c.count("parse.enum");
    }
    void def_struct()
    {
        std::string name = fresh("S");
        Sym* s = declare(name, "struct");
        publish(s); // the name is known from here, although nothing can be made of it yet
        if (r.chance(12)) { add(out, {"struct", name, ";"}); c.count("parse.forward"); }
        Toks t = annotation();
        add(t, {"struct", spell(name)});
        std::string d = "struct " + name;
        if (r.chance(25))
        {
            Sym* p = some([](const Sym& x) { return x.kind == "struct" && !x.heavy; });
            std::string n = p ? ref(*p) : "";
            if (!n.empty()) { t.push_back(":"); t.push_back(n); d += ":" + p->desc; c.count("parse.inherit"); }
        }
        t.push_back("{");
        d += "{";
        for (int n = int(r.below(6)); n-- > 0;)
        {
            Typed ty = type(2);
            add(t, annotation());
            add(t, ty.t);
            int m = r.chance(80) ? 1 : r.range(2, 3);
            for (int i = 0; i < m; ++i)
            {
                std::string mn = plain_name("m"), md;
                if (i) { t.push_back(","); c.count("parse.declarators"); }
                t.push_back(spell(mn));
                add(t, dims(ty.desc, md));
                d += mn + ":" + md + ";";
            }
            t.push_back(";");
        }
        t.push_back("}"); t.push_back(";");
        s->desc = d + "}";
        s->heavy = s->desc.size() > 1500;
        s->target = "struct";
        add(out, t);
        publish(s);
        c.count("parse.struct");
    }
    void def_union()
    {
        std::string name = fresh("U");
        Sym* s = declare(name, "union");
        publish(s);
        Toks t = annotation();
        add(t, {"union", spell(name), "switch", "("});
        std::string disc, kind;
        Sym* e = nullptr;
        const IntKind* ik = nullptr;
        int k = r.weighted({8, 3, 2, 6, 2, 2});
        auto via = [&](const std::string& target) -> Sym*   // an alias of what the discriminator is
        {
            std::vector<Sym*> v;
            for (auto& x : syms) { if (x->kind == "alias" && !x->desc.empty() && x->target == target) { v.push_back(x.get()); } }
            return v.empty() || !r.chance(35) ? nullptr : r.pick(v);
        };
        if (k == 3) { e = some([](const Sym& x) { return x.kind == "enum"; }); if (!e) { k = 0; } }
                Sym* al = nullptr;
        std::string an;
        auto put = [&](const std::string& target, const Toks& w, const std::string& d)
        {
            al = via(target);
            an = al ? ref(*al) : "";
            if (an.empty()) { add(t, w); disc = d; } else { t.push_back(an); disc = al->desc; c.count("parse.disc.alias"); }
        };
        if (k == 0 || k == 5) { ik = &INTS[r.below(INTS.size())]; put(cat("prim:", ik->type), words(ik->words[r.below(ik->words.size())]), ik->type); kind = "int"; }
        else if (k == 1) { put(cat("prim:", char_type()), {"char"}, char_type()); kind = "char"; }
        else if (k == 2) { put("prim:bool", {"boolean"}, "bool"); kind = "bool"; }
        else if (k == 4 && wide_literals) { put(char16 ? "prim:char16_t" : "prim:wchar_t", {"wchar"}, char16 ? "char16_t" : "wchar_t"); kind = "wchar"; }
        else if (k == 4) { ik = &INTS[4]; add(t, {"long"}); disc = "int32_t"; kind = "int"; }
        else
        {
            std::string n = ref(*e);
            if (n.empty()) { drop(s); return; }
            t.push_back(n); disc = e->desc; kind = "enum";
        }
        add(t, {")", "{"});
        c.count(cat("parse.disc.", kind).c_str());
        std::string d = "union " + name + "(" + disc + "){";
        std::set<int64_t> used;
        bool has_default = false;
        int n = r.range(1, 4), made = 0;
        for (int i = 0; i < n; ++i)
        {
            std::vector<int64_t> labels;
            Toks lt;
            bool def = false;
            for (int m = r.chance(70) ? 1 : r.range(2, 3); m-- > 0;)
            {
                if (!has_default && r.chance(20)) { has_default = def = true; add(lt, {"default", ":"}); c.count("parse.label.default"); continue; }
                int64_t v = 0;
                Toks w;
                if (kind == "bool") { v = int64_t(r.below(2)); w = {v ? "TRUE" : "FALSE"}; }
                else if (kind == "char" || kind == "wchar")
                {
                    std::string b; uint32_t cd;
                    std::string l = chr(kind == "wchar", '\'', b, cd);
                    v = kind == "wchar" ? int64_t(cd) : chars == Context::UINT8 ? int64_t(uint8_t(cd)) : int64_t(int8_t(cd));
                    w = {(kind == "wchar" ? "L'" : "'") + l + "'"};
                }
                else if (kind == "enum")
                {
                    size_t x = r.below(e->items.size());
                    v = int64_t(x);
                    Sym* it = nullptr;
                    for (auto& q : consts) { if (q->name == e->items[x]) { it = q.get(); } }
                    std::string nm = ref(*it);
                    if (nm.empty()) { continue; }
                    w = {nm};
                }
                else
                {
                    std::vector<Sym*> same;
                    for (auto& q : consts) { if (q->kind == "int" && q->number >= lo(*ik) && q->number < hi(*ik) && q->number <= I(INT64_MAX)) { same.push_back(q.get()); } }
                    if (!same.empty() && r.chance(25))
                    {
                        Sym* q = r.pick(same);
                        std::string nm = ref(*q);
                        if (nm.empty()) { continue; }
                        v = int64_t(q->number); w = {nm};
                        c.count("parse.label.name");
                    }
                    else
                    {
                        v = int64_t(r.below(60));
                        if (ik->sign && r.chance(25)) { v = -v - 1; w = {"-", integer(I(-v))}; c.count("parse.label.negative"); }
                        else if (expressions && r.chance(15)) { int64_t a = int64_t(r.below(uint64_t(v) + 1)); w = {integer(I(a)), "+", integer(I(v - a))}; c.count("parse.label.expr"); }
                        else { w = {integer(I(v))}; }
                    }
                }
                if (kind == "int" && (v & int64_t((uint64_t(1) << (ik->bits - 1)) * 2 - 1)) == int64_t((uint64_t(1) << (ik->bits - 1)) - 1)) { continue; } // reserved by the library
                if (!used.insert(v).second) { continue; }
                labels.push_back(v);
                lt.push_back("case"); add(lt, w); lt.push_back(":");
            }
            if (lt.empty()) { continue; }
            Typed ty = type(2);
            std::string mn = plain_name("m"), md;
            add(t, lt);
            add(t, annotation());
            add(t, ty.t);
            t.push_back(spell(mn));
            add(t, dims(ty.desc, md));
            t.push_back(";");
            std::sort(labels.begin(), labels.end());
            d += "[";
            for (int64_t v : labels) { d += cat(v, ","); }
            d += (def ? "*]" : "]") + mn + ":" + md + ";";
            ++made;
        }
        if (!made) { drop(s); return; }
        add(t, {"}", ";"});
        s->desc = d + "}";
        s->heavy = s->desc.size() > 1500;
        s->target = "union";
        if (r.chance(12)) { add(out, {"union", name, ";"}); c.count("parse.forward.union"); }
        add(out, t);
        publish(s);
        c.count("parse.union");
        if (made == 1) { c.count("parse.union.single"); }
    }
    void def_alias()
    {
        Typed ty = r.chance(35) ? prim_type() : type(2);
        Toks t{"typedef"};
        add(t, ty.t);
        int m = r.chance(80) ? 1 : 2;
        std::set<std::string> names;
        for (int i = 0; i < m; ++i)
        {
            std::string name = fresh("T"), d;
            if (!names.insert(name).second) { name = plain_name("T"); }
            Sym* s = declare(name, "alias");
            if (i) { t.push_back(","); c.count("parse.alias.several"); }
            t.push_back(spell(name));
            Toks dt = dims(ty.desc, d);
            add(t, dt);
            s->target = dt.empty() ? ty.target : "collection";
            s->desc = "alias " + name + "=" + d;
            s->heavy = s->desc.size() > 1500;
            publish(s); // what follows sees it
        }
        t.push_back(";");
        add(out, t);
        c.count("parse.alias");
    }
    void def_module(int depth)
    {
        // a new one or one that exists
        Mod* m = nullptr;
        if (reopen && !at->inner.empty() && r.chance(40)) { m = r.pick(at->inner).get(); c.count("parse.module.reopened"); }
        else
        {
            std::string name = fresh("M");
            at->inner.emplace_back(new Mod);
            m = at->inner.back().get();
            m->name = name; m->outer = at;
            at->mods[name] = m;
        }
        add(out, {"module", spell(m->name), "{"});
        size_t before = out.size();
        at = m;
        definitions(r.range(1, 4), depth - 1);
        if (out.size() == before) { def_struct(); }
        at = m->outer;
        add(out, {"}", ";"});
        c.count("parse.module");
    }
    void definitions(int n, int depth)
    {
        for (; n-- > 0;)
        {
            switch (r.weighted({6, 3, 6, 4, 4, depth > 0 ? 4 : 0}))
            {
                case 0: def_const(); break;
                case 1: def_enum(); break;
                case 2: def_struct(); break;
                case 3: def_union(); break;
                case 4: def_alias(); break;
                default: def_module(depth);
            }
        }
    }

    // ---- layout
    std::string space(bool needed, bool rich)
    {
        if (!needed && r.chance(40)) { return ""; }
        if (rich && r.chance(12))
        {
            c.count("parse.comment");
            switch (r.below(6))
            {
                case 0: return " // it's; { a \"comment\n";
                case 1: return "/* ; } */";
                case 2: return "\t/* a * / \n b */ ";
                case 3: return "\n// one\n  // two\n";
                case 4: return " /**/ /* x */\n\t";
                default: return "\r\n// dos\r\n";
            }
        }
        static const char* const plain_[] = {" ", " ", " ", "\n", "  ", "\t", "\n    ", "\r\n", " \n\n "};
        return plain_[r.below(rich ? 9 : 7)];
    }
    std::string layout(const Toks& t, bool rich)
    {
        std::string s;
        auto word = [](char ch) { return isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '"' || ch == '\'' || ch == ':' || ch == '@' || ch == '.'; };
        for (size_t i = 0; i < t.size(); ++i)
        {
            if (i)
            {
                char a = t[i - 1].back(), b = t[i][0];
                bool need = (word(a) && word(b)) || (a == '<' && b == ':') || (a == '%' && b == ':') || /* digraphs */ (a == '<' && b == '<') || (a == '>' && b == '>');
                std::string sp = space(need, rich);
                if ((a == '/' || b == '/') && sp.find('/') != std::string::npos) { sp = " " + sp + " "; }
                s += sp;
            }
            s += t[i];
        }
        return s + (r.chance(50) ? "\n" : "");
    }
};

Context options(const Doc& d)
{
    Context ctx;
    ctx.preprocess = false;
    ctx.char_translation = d.chars;
    ctx.wchar_type = d.char16 ? Context::CHAR16_T : Context::WCHAR_T;
    ctx.log_level(idl::log::xERROR);
    return ctx;
}

void compare(mon::Case& c, const std::string& what, const std::string& expected, const std::string& got, const std::string& text)
{
    c.count("parse.compared");
    if (expected == got) { return; }
    size_t i = 0;
    while (i < expected.size() && i < got.size() && expected[i] == got[i]) { ++i; }
    size_t b = i > 60 ? i - 60 : 0;
    std::string kind = what.substr(0, what.find(' '));
    c.fail("parse." + kind, cat(what, " expected ...", expected.substr(b, 160), " obtained ...", got.substr(b, 160), " from\n", text));
}

// the contents of the modules: path -> description
using Table = std::map<std::string, std::string>;

void expect_module(const Doc& d, const Mod& m, Table& t)
{
    std::string p;
    for (auto& x : m.path()) { p += x + "::"; }
    for (auto& s : m.syms)
    {
        if (s.second->value.empty() && s.second->kind != "string" && s.second->kind != "wstring") { t["type " + p + s.first] = s.second->desc; }
        else { t["const " + p + s.first] = s.second->desc + " " + s.second->value; }
    }
    for (auto& i : m.inner) { t["module " + p + i->name] = ""; expect_module(d, *i, t); }
}

// what the modules have of what is in the table, by the lookups a user does; in addition the whole list of types
void obtain(Module& root, const Table& expected, Table& got, bool absolute)
{
    for (auto& e : expected)
    {
        std::string kind = e.first.substr(0, e.first.find(' ')), path = e.first.substr(kind.size() + 1);
        Module* m = &root;
        std::string rest = path;
        for (size_t p; !absolute && (p = rest.find("::")) != std::string::npos; rest = rest.substr(p + 2))
        {
            if (!m->has_submodule(rest.substr(0, p))) { m = nullptr; break; }
            m = &(*m)[rest.substr(0, p)];
        }
        if (!m) { got[e.first] = "its module is missing"; continue; }
        if (absolute) { rest = "::" + path; }
        if (kind == "module") { got[e.first] = absolute ? "" : m->has_submodule(rest) ? "" : "missing"; continue; }
        if (kind == "const")
        {
            if (!m->has_constant(rest)) { got[e.first] = "missing"; continue; }
            DynamicData k = m->constant(rest);
            got[e.first] = describe(k.type()) + " " + value_of(k);
            continue;
        }
        DynamicType::Ptr t = m->type(rest);
        std::string name = t.get() ? t->name() : "";
        if (name.compare(0, 2, "::") == 0) { name = name.substr(2); }
        got[e.first] = !t.get() ? "missing" : name != path ? cat(describe(*t), " named ", name) : describe(*t);
    }
}

std::map<std::string, std::string> listed(Module& root)
{
    std::map<std::string, std::string> r;
    for (auto& t : root.get_all_types(true)) { r[t.first] = t.second.get() ? describe(*t.second) : "null"; }
    return r;
}

void check_module(mon::Case& c, const Table& expected, Module& root, const std::string& text, const char* stage)
{
    for (int absolute = 0; absolute < 2; ++absolute)
    {
        Table got;
        obtain(root, expected, got, absolute);
        for (auto& e : expected) { compare(c, cat(e.first, absolute ? " by its absolute name" : "", stage), e.second, got[e.first], text); if (c.violations) { return; } }
    }
    // the list has what is declared and nothing else (of the kinds that it lists)
    std::map<std::string, std::string> want, all = listed(root);
    for (auto& e : expected)
    {
        if (e.first.compare(0, 5, "type ") == 0) { want[e.first.substr(5)] = e.second; }
    }
    for (auto& a : all)
    {
        std::string n = a.first.compare(0, 2, "::") == 0 ? a.first.substr(2) : a.first;
        auto it = want.find(n);
        if (it == want.end()) { c.fail("parse.list", cat("a type '", a.first, "' is listed that isn't declared", stage, ": ", a.second, " from\n", text)); return; }
        compare(c, "listed " + a.first + stage, it->second, a.second, text);
    }
    c.count("parse.listed", all.size());
}

bool parse_ok(mon::Case& c, const std::string& text, Context& ctx, const char* key)
{
    try
    {
        idl::parse(text, ctx);
    }
    catch (const std::exception& e)
    {
        c.fail(cat("parse.", key, ".rejected"), cat(e.what(), " for\n", text));
        return false;
    }
    if (!ctx.success) { c.fail(cat("parse.", key, ".syntax"), cat("valid text refused:\n", text)); return false; }
    return true;
}

} // namespace

// a directory of its own, with a name that a shell would look into
struct Scratch
{
    std::string base, dir;
    Scratch(mon::Rng& r)
    {
        char t[] = "/tmp/xtypes_mon_XXXXXX";
        if (!mkdtemp(t)) { throw std::runtime_error("mkdtemp"); }
        base = t;
        static const char* const names[] = {"plain", "with space", "it's", "a&b", "dollar$HOME", "semi;colon", "(paren)", "back`tick`", "double\"quote"};
        dir = base + "/" + names[r.below(9)];
        std::filesystem::create_directory(dir);
    }
    ~Scratch() { std::error_code e; std::filesystem::remove_all(base, e); }
    std::string write(const std::string& name, const std::string& text) const { std::ofstream f(dir + "/" + name); f << text; return dir + "/" + name; }
};

// where the library puts its temporary files: a directory of this process
struct Private
{
    std::string dir;
    pid_t owner = 0;
    Private()
    {
        char t[] = "/tmp/xtypes_mon_XXXXXX";
        if (!mkdtemp(t)) { return; }
        dir = t;
        owner = getpid();
        setenv("TMPDIR", t, 1);
    }
    size_t files() const { std::error_code e; size_t n = 0; for (auto& f : std::filesystem::directory_iterator(dir, e)) { (void)f; ++n; } return n; }
    ~Private() { std::error_code e; if (!dir.empty() && owner == getpid()) { std::filesystem::remove_all(dir, e); } }
} temporaries;

size_t open_files()
{
    size_t n = 0;
    std::error_code e;
    for (auto& f : std::filesystem::directory_iterator("/proc/self/fd", e)) { (void)f; ++n; }
    return n;
}

std::string one(mon::Rng& r, std::vector<std::string> v) { return r.pick(v); }

// nothing that the preprocessor needs remains
struct Leftovers
{
    size_t fds, files;
    Leftovers() { fds = open_files(); files = temporaries.files(); }
    bool check(mon::Case& c, const std::string& text) const
    {
        if (open_files() != fds) { c.fail("leftovers.descriptors", cat(open_files(), " open files instead of ", fds, " after\n", text.substr(0, 2000))); return false; }
        if (temporaries.files() != files) { c.fail("leftovers.files", cat(temporaries.files(), " temporary files instead of ", files, " after\n", text.substr(0, 2000))); return false; }
        c.count("preprocess.leftovers");
        return true;
    }
};

void prepare(Doc& d, int n, int depth)
{
    d.definitions(n, depth);
    if (d.out.empty()) { d.def_struct(); }
}

MON_WORKLOAD(idl_parse)
{
    Doc d(c);
    std::vector<size_t> cuts;
    prepare(d, c.rng.range(1, 8), 3);
    // what comes later may come in another call with the same context
    if (c.rng.chance(20)) { for (int i = c.rng.range(1, 2); i-- > 0;) { cuts.push_back(d.out.size()); d.definitions(c.rng.range(1, 3), 2); } }
    bool rich = c.rng.chance(50);
    std::vector<std::string> parts;
    size_t from = 0;
    for (size_t k : cuts) { if (k > from) { parts.push_back(d.layout(Toks(d.out.begin() + long(from), d.out.begin() + long(k)), rich)); from = k; } }
    if (from < d.out.size()) { parts.push_back(d.layout(Toks(d.out.begin() + long(from), d.out.end()), rich)); }
    std::string text;
    for (auto& p : parts) { text += p + "\n"; }
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    c.note(text.substr(0, 3000));
    Table expected;
    expect_module(d, d.root, expected);
    Context ctx = options(d);
    for (auto& p : parts) { if (!parse_ok(c, p, ctx, "document")) { return; } }
    c.count("parse.documents");
    if (parts.size() > 1) { c.count("parse.incremental"); }
    check_module(c, expected, ctx.module(), text, "");
}

// what is generated from the types gives the same types
MON_WORKLOAD(idl_roundtrip)
{
    Doc d(c);
    d.reopen = false; // the generator writes each module in one piece (known finding F-C18-1)
    prepare(d, c.rng.range(1, 8), 3);
    std::string text = d.layout(d.out, false);
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    c.note(text.substr(0, 2000));
    Table expected;
    expect_module(d, d.root, expected);
    Context ctx = options(d);
    if (!parse_ok(c, text, ctx, "document")) { return; }
    std::string made;
    try { made = idl::generate(ctx.module()); }
    catch (const std::exception& e) { c.fail("roundtrip.generate", cat(e.what(), " for\n", text)); return; }
    c.note(made.substr(0, 2000));
    c.count("roundtrip.documents");
    Context again = options(d);
    // the generator writes the kind of the characters that is used
    again.char_translation = Context::CHAR;
    if (!parse_ok(c, made, again, "generated")) { return; }
    check_module(c, expected, again.module(), made, " of the generated text");
    if (c.violations) { return; }
    std::string twice = idl::generate(again.module());
    if (twice != made) { c.fail("roundtrip.unstable", cat("generated\n", made, "\nand then\n", twice)); }
    c.count("roundtrip.compared", expected.size());
}

// through the preprocessor, from a text or from files
MON_WORKLOAD(idl_preprocess)
{
    Doc d(c);
    prepare(d, c.rng.range(1, 4), 2);
    size_t cut = d.out.size();
    d.definitions(c.rng.range(1, 4), 2);
    // macros, conditions and very long comments
    std::string defines;
    if (c.rng.chance(40))
    {
        for (size_t i = 0; i < d.out.size(); ++i)
        {
            const std::string& t = d.out[i];
            if (t.find_first_not_of("0123456789") == std::string::npos && c.rng.chance(30)) { std::string m = cat("MACRO_", i); defines += "#define " + m + " " + t + "\n"; d.out[i] = m; c.count("preprocess.macro"); }
        }
        defines += "#ifndef MON_GUARD\n#define MON_GUARD\n#endif\n#ifdef MON_GUARD\n#if 0\nthis isn't IDL\n#endif\n#else\nneither is this\n#endif\n";
    }
    if (c.rng.chance(6)) { defines += "/*" + std::string(size_t(c.rng.range(60000, 300000)), "'x\n "[c.rng.below(4)]) + "*/\n"; c.count("preprocess.long"); }
    std::string head = d.layout(Toks(d.out.begin(), d.out.begin() + long(cut)), c.rng.chance(50)), tail = d.layout(Toks(d.out.begin() + long(cut), d.out.end()), c.rng.chance(50));
    // lines longer than any buffer
    std::string contents;
    const bool long_line = c.rng.chance(30);
    if (long_line)
    {
        static const char alphabet[] = "#####ab c'{};<>=0(),.:\0";
        size_t n = size_t(c.rng.chance(20) ? c.rng.range(4000, 70000) : c.rng.range(150, 3000));
        for (size_t i = 0; i < n; ++i) { contents += alphabet[c.rng.below(sizeof(alphabet) - 2)]; }
        tail = "const string LongLine" + std::string(size_t(c.rng.below(300)), ' ') + "= \"" + contents + "\";" + tail;
        c.count("preprocess.line");
    }
    head = defines + head;
    std::string text = head + "\n" + tail;
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    c.note(text.substr(0, 3000));
    Table expected;
    expect_module(d, d.root, expected);
    Scratch dir(c.rng);
    Context ctx = options(d);
    ctx.preprocess = true;
    if (c.rng.chance(25)) { ctx.strategy = Context::preprocess_strategy::temporary_file; c.count("preprocess.temporary"); }
    const Leftovers leftovers;
    // options() of what parses without a context
    const bool plain = d.chars == Context::CHAR && !d.char16;
    int how = c.rng.below(plain ? 8 : 6);
    static const char* const names[] = {"inc.idl", "a b.idl", "it's.idl", "x&y;z.idl", "$(id).idl"};
    std::string inc = names[c.rng.below(5)];
    // the included file is the one of the first of the paths that has it
    std::vector<std::string> paths{dir.dir};
    auto around = [&]()
            {
                static const char* const others[] = {"aa", "z z", "it's too", "last&"};
                for (int i = c.rng.range(0, 4); i-- > 0;)
                {
                    std::string o = dir.base + "/" + others[i];
                    if (!std::filesystem::create_directory(o)) { continue; }
                    bool after = c.rng.chance(60);
                    if (after) { std::ofstream f(o + "/" + inc); f << "struct Another" << i << " { long of_another_file; };"; c.count("preprocess.include_order"); }
                    else if (c.rng.chance(70)) { std::ofstream f(o + "/unrelated.idl"); f << "struct Unrelated { long m; };"; c.count("preprocess.include_other"); }
                    paths.insert(after ? paths.end() : paths.begin(), o);
                }
            };
    bool ok = false;
    Context made;
    Context* used = &ctx;
    try
    {
        if (how == 0) { idl::parse(text, ctx); c.count("preprocess.text"); }
        else if (how == 1) { dir.write(inc, head); around(); ctx.include_paths = paths; idl::parse("#include \"" + inc + "\"\n" + tail, ctx); c.count("preprocess.include"); }
        else if (how == 2) { std::string f = dir.write("main's file.idl", text); idl::parse_file(f, ctx); c.count("preprocess.file"); }
        else if (how == 3)
        {
            dir.write(inc, head);
            std::string m = "#include \"" + inc + "\"\n#define NOTHING\n" + tail, f;
            if (c.rng.chance(50)) { f = dir.write("main.idl", m); }
            else
            {
                // the file that includes is in another place
                around();
                f = dir.base + "/main file.idl";
                std::ofstream(f) << m;
                ctx.include_paths = paths;
            }
            if (c.rng.chance(30))
            {
                std::string out = idl::preprocess(f, paths);
                ctx.preprocess = false;
                idl::parse(out, ctx);
                c.count("preprocess.alone");
            }
            else { idl::parse_file(f, ctx); }
            c.count("preprocess.file_include");
        }
        else if (how < 6) { ctx.preprocess = defines.find('#') != std::string::npos; std::string f = dir.write(inc, text); idl::parse_file(f, ctx); c.count("preprocess.raw_file"); }
        else
        {
            // the context is returned
            if (how == 6) { made = idl::parse(text); } else { made = idl::parse_file(dir.write(inc, text)); }
            used = &made;
            c.count("preprocess.returned");
        }
        ok = used->success;
    }
    catch (const std::exception& e) { c.fail("preprocess.rejected", cat(e.what(), " way ", how, " in '", dir.dir, "', '", inc, "' for\n", text)); return; }
    if (!leftovers.check(c, text)) { return; }
    if (!ok) { c.fail("preprocess.syntax", cat("valid text refused, way ", how, " in '", dir.dir, "', '", inc, "':\n", text)); return; }
    if (long_line)
    {
        std::string got = used->module().has_constant("LongLine") ? used->module().constant("LongLine").value<std::string>() : "nothing";
        if (got != contents) { c.fail("preprocess.line", cat("a text of ", contents.size(), " characters was read as one of ", got.size(), ": ", contents.substr(0, 300), " is ", got.substr(0, 300))); return; }
    }
    check_module(c, expected, used->module(), text, "");
}

// ------------------------------------------------------------------ texts that must be refused
MON_WORKLOAD(idl_reject)
{
    Doc d(c);
    auto& r = c.rng;
    prepare(d, r.range(1, 5), 2);
    std::string good = d.layout(d.out, false);
    Toks t = d.out;
    std::string what;
    int k = int(r.below(24));
    auto nested = [&](Toks x) { if (r.chance(40)) { Toks m{"module", "Wrapper"}; m.push_back("{"); add(m, x); add(m, {"}", ";"}); x = m; } if (r.chance(50)) { add(t, x); } else { add(x, t); t = x; } };
    switch (k)
    {
        case 0: case 1:
        {
            std::vector<size_t> at;
            for (size_t i = 0; i < t.size(); ++i) { if (t[i].size() == 1 && std::string(k ? "{}()[]<>" : ";").find(t[i]) != std::string::npos) { at.push_back(i); } }
            if (at.empty()) { return; }
            size_t i = r.pick(at);
            what = "without-" + t[i];
            t.erase(t.begin() + long(i));
            break;
        }
        case 2: what = "unknown-type"; nested({"struct", "Bad", "{", one(r, {"Undeclared", "::Undeclared", "Undeclared::Inner", "::Bad::Undeclared"}), "m", ";", "}", ";"}); break;
        case 3: what = "unknown-inner-type"; nested({"struct", "Bad", "{", one(r, {"sequence", "map"}), "<", "long", ",", "Undeclared", ">", "m", ";", "}", ";"});
            break;
        case 4: what = "repeated-member"; nested({"struct", "Bad", "{", "long", "same", ";", "string", r.chance(50) ? "same" : "other", ",", "same", ";", "}", ";"}); break;
        case 5: what = "unknown-parent"; nested({"struct", "Bad", ":", "Undeclared", "{", "long", "m", ";", "}", ";"}); break;
        case 6: what = "unknown-constant"; nested({"const", "long", "Bad", "=", "1", "+", "Undeclared", ";"}); break;
        case 7: what = "unknown-size"; nested(r.chance(50) ? Toks{"struct", "Bad", "{", "long", "m", "[", "Undeclared", "]", ";", "}", ";"} : Toks{"struct", "Bad", "{", r.chance(50) ? "string" : "wstring", "<", "Undeclared", ">", "m", ";", "}", ";"}); break;
        case 8: what = "repeated-struct"; nested({"struct", "Bad", "{", "long", "a", ";", "}", ";", "struct", "Bad", "{", "long", "b", ";", "}", ";"}); break;
        case 9: what = "repeated-label"; nested({"union", "Bad", "switch", "(", "long", ")", "{", "case", "1", ":", "long", "a", ";", "case", r.chance(50) ? "0x1" : "01", ":", "long", "b", ";", "}", ";"}); break;
        case 10: what = "negative-size"; nested({"const", "long", "Minus", "=", "-", "3", ";", "struct", "Bad", "{", "long", "m", "[", "Minus", "]", ";", "}", ";"}); break;
        case 11:
        {
            what = "keyword-name";
            std::string w = one(r, {"module", "long", "sequence", "union", "default", "struct", "octet", "enum", "const", "case", "typedef", "int8", "uint64", "wchar", "string", "map", "double"});
            int form = int(r.below(11));
            c.count(cat("reject.keyword.", form).c_str());
            switch (form)
            {
                case 0: nested({"struct", w, "{", "octet", "m", ";", "}", ";"}); break;
                case 1: nested({"union", w, "switch", "(", "octet", ")", "{", "case", "1", ":", "float", "a", ";", "}", ";"}); break;
                case 2: nested({"enum", w, "{", "E1", ",", "E2", "}", ";"}); break;
                case 3: nested({"enum", "Bad", "{", "E1", ",", w, "}", ";"}); break;
                case 4: nested({"typedef", "float", w, ";"}); break;
                case 5: nested({"const", "uint16", w, "=", "3", ";"}); break;
                case 6: nested({"module", w, "{", "struct", "Inner", "{", "float", "m", ";", "}", ";", "}", ";"}); break;
                case 7: nested({"struct", w, ";"}); break;
                case 8: nested({"union", "Bad", "switch", "(", "octet", ")", "{", "case", "1", ":", "float", w, ";", "}", ";"}); break;
                case 9: nested({"typedef", "float", w, "[", "3", "]", ";"}); break;
                default: nested({"struct", "Bad", "{", "float", "a", ",", w, ";", "}", ";"}); break;
            }
            break;
        }
        case 21:
        {
            what = "unknown-label";
            std::string disc = one(r, {"long", "octet", "uint16", "int64", "short", "uint8", "boolean", "char", "wchar", "Disc"});
            std::string label = one(r, {"Undeclared", "::Undeclared", "Bad::Undeclared"});
            Toks x;
            if (disc == "Disc") { x = {"enum", "Disc", "{", "D1", ",", "D2", "}", ";"}; }
            add(x, {"union", "Bad", "switch", "(", disc, ")", "{", "case", label, ":", "float", "m", ";", "}", ";"});
            nested(x);
            break;
        }
        case 22: case 23:
        {
            struct Limit { const char* type; std::vector<const char*> values; };
            static const Limit limits[] = {
                {"int8", {"128", "300", "0x100", "0400", "99999999999999999999"}}, {"uint8", {"256", "0x100", "0400", "70000"}},
                {"octet", {"256", "0x1FF", "01000"}},
                {"short", {"32768", "0x10000", "0200000"}}, {"unsigned short", {"65536", "0x10000", "4294967296"}},
                {"long", {"2147483648", "4294967296", "0x100000000", "040000000000"}}, {"unsigned long", {"4294967296", "0x100000000", "040000000000"}},
                {"int64", {"9223372036854775808", "0x10000000000000000"}}, {"unsigned long long", {"18446744073709551616", "0x10000000000000000", "99999999999999999999"}}};
            const Limit& l = limits[r.below(9)];
            Toks type;
            std::istringstream words(l.type);
            for (std::string w; words >> w;) { type.push_back(w); }
            std::string value = l.values[r.below(l.values.size())];
            const bool is_signed = type[0] != "unsigned" && type[0][0] != 'u' && type[0] != "octet";
            Toks lit{value};
            if (is_signed && value[0] != '0' && r.chance(30)) { lit = {"-", std::to_string(std::stoull(value.substr(0, 19)) + (value.size() < 19 ? 1 : 0))}; if (value.size() >= 19) { lit = {"-", "9223372036854775809"}; } }
            what = k == 22 || type[0] == "octet" ? "label-range" : "constant-range";
            Toks x;
            if (what == "label-range")
            {
                add(x, {"union", "Bad", "switch", "("}); add(x, type); add(x, {")", "{", "case"}); add(x, lit); add(x, {":", "float", "m", ";", "}", ";"});
            }
            else { add(x, {"const"}); add(x, type); add(x, {"Bad", "="}); add(x, lit); add(x, {";"}); }
            nested(x);
            break;
        }
        case 12:
        {
            what = "too-big-size";
            std::string big = one(r, {"4294967296", "4294967299", "0x100000002", "040000000001", "5000000000", "0x7fffffffffffffff"});
            Toks x;
            if (r.chance(50)) { x = {"const", one(r, {"uint64", "int64"}), "TooBig", "=", big, ";"}; big = "TooBig"; }
            add(x, {"struct", "Bad", "{"});
            int w = int(r.below(5));
            if (w == 0) { add(x, {"string", "<", big, ">", "m"}); }
            else if (w == 1) { add(x, {"wstring", "<", big, ">", "m"}); }
            else if (w == 2) { add(x, {"sequence", "<", "long", ",", big, ">", "m"}); }
            else if (w == 3) { add(x, {"map", "<", "long", ",", "octet", ",", big, ">", "m"}); }
            else { add(x, {"octet", "m", "[", big, "]"}); }
            add(x, {";", "}", ";"});
            nested(x);
            break;
        }
        case 13:
        {
            what = "not-a-size";
            Toks x;
            int w = int(r.below(5));
            if (w == 0) { x = {"const", "string", "NoSize", "=", "\"3\"", ";"}; }
            else if (w == 1) { x = {"const", one(r, {"float", "double"}), "NoSize", "=", "3.0", ";"}; }
            else if (w == 2) { x = {"const", "boolean", "NoSize", "=", "TRUE", ";"}; }
            else if (w == 3 && d.chars == Context::CHAR) { x = {"const", "char", "NoSize", "=", "'3'", ";"}; }
            else { x = {"struct", "NoSize", "{", "long", "m", ";", "}", ";"}; }
            add(x, {"struct", "Bad", "{", r.chance(50) ? "string" : "wstring", "<", "NoSize", ">", "m", ";", "}", ";"});
            nested(x);
            break;
        }
        case 14:
        {
            what = "repeated-name";
            auto def = [&](int w) -> Toks
                    {
                        switch (w)
                        {
                            case 0: return {"struct", "Bad", "{", "long", one(r, {"a", "b", "c"}), ";", "}", ";"};
                            case 1: return {"enum", "Bad", "{", one(r, {"E1", "E2"}), "}", ";"};
                            case 2: return {"union", "Bad", "switch", "(", "long", ")", "{", "case", one(r, {"1", "2", "3"}), ":", "long", one(r, {"a", "b", "c"}), ";", "}", ";"};
                            case 3: return {"typedef", "long", "Bad", ";"};
                            case 4: return {"const", "long", "Bad", "=", "1", ";"};
                            default: return {"module", "Bad", "{", "struct", "Inner", "{", "long", "m", ";", "}", ";", "}", ";"};
                        }
                    };
            Toks x = def(int(r.below(6)));
            add(x, def(int(r.below(5))));
            nested(x);
            break;
        }
        case 15: what = "bad-discriminator"; { Toks x{"struct", "Disc", "{", "long", "a", ";", "}", ";"}; add(x, {"union", "Bad", "switch", "(", one(r, {"string", "float", "Disc", "double", "wstring"}), ")", "{", "case", "1", ":", "long", "a", ";", "}", ";"}); nested(x); } break;
        case 16: what = "bad-parent"; { Toks x = one(r, {"a", "b", "c"}) == "a" ? Toks{"enum", "Par", "{", "E1", "}", ";"} : r.chance(50) ? Toks{"typedef", "long", "Par", ";"} : Toks{"union", "Par", "switch", "(", "long", ")", "{", "case", "1", ":", "long", "a", ";", "}", ";"}; add(x, {"struct", "Bad", ":", "Par", "{", "long", "m", ";", "}", ";"}); nested(x); } break;
        case 17: what = "repeated-union-member"; nested({"union", "Bad", "switch", "(", "long", ")", "{", "case", "1", ":", "long", "a", ";", one(r, {"default"}), ":", one(r, {"long", "octet"}), "a", ";", "}", ";"}); break;
        case 18: what = "two-defaults"; nested({"union", "Bad", "switch", "(", "long", ")", "{", "default", ":", "long", "a", ";", "case", "3", ":", "long", "b", ";", "default", ":", "octet", "c", ";", "}", ";"}); break;
        case 19: what = "repeated-enumerator"; nested({"enum", "Bad", "{", "E1", ",", "E2", ",", "E1", "}", ";"}); break;
        default: what = "division-by-zero"; nested({"const", one(r, {"long", "octet", "int64", "uint16"}), "Bad", "=", "4", r.chance(50) ? "/" : "%", "(", "2", "-", "2", ")", ";"}); break;
    }
    std::string text = d.layout(t, r.chance(40));
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    c.note(text.substr(0, 3000));
    c.count(cat("reject.", what.compare(0, 8, "without-") == 0 ? (what == "without-;" ? "semicolon" : "bracket") : what).c_str());
    {
        Context ctx = options(d);
        bool accepted = true;
        if (r.chance(40)) { if (!parse_ok(c, cat("module Before", ++d.uid, " { struct Inner { long m; }; };"), ctx, "before")) { return; } c.count("reject.used"); }
        try { idl::parse(text, ctx); accepted = ctx.success; }
        catch (const std::exception&) { accepted = false; if (ctx.success) { c.fail("reject.success", cat("an exception was thrown and the context says that the parsing succeeded, for\n", text)); return; } }
        if (accepted) { c.fail("reject." + what, cat("accepted:\n", text)); return; }
        c.count("reject.refused");
        listed(ctx.module()); // what was read until then can be looked at
    }
    // and nothing of it remains for the next one
    Context ctx = options(d);
    if (!parse_ok(c, good, ctx, "after")) { return; }
    Table expected;
    expect_module(d, d.root, expected);
    check_module(c, expected, ctx.module(), good, " after a refused text");
}

// ------------------------------------------------------------------ any text
MON_WORKLOAD(idl_fuzz)
{
    Doc d(c);
    auto& r = c.rng;
    prepare(d, r.range(1, 4), 2);
    std::string good = d.layout(d.out, false);
    static const std::vector<std::string> pool = {"struct", "union", "enum", "typedef", "const", "module", "switch", "case", "default", "sequence", "map", "string", "wstring", "long", "unsigned", "octet", "char", "wchar",
        "boolean", "float", "double", "any", "fixed", "native", "bitset", "bitmask", "bitfield", "@annotation", "@key", "{", "}", "(", ")", "[", "]", "<", ">", ";", ":", "::", ",", "=", "+", "-", "*", "/", "%", "~",
        "<<", ">>", "|", "&", "^", "0", "1", "-1", "0x", "0xFFFFFFFFFFFFFFFFFFFF", "99999999999999999999", "2147483648", "1.5e400", "1e", ".", "'a'", "''", "'\\'", "L'x'", "L''", "\"text\"", "L\"text\"", "\"", "'",
        "\"\\u12\"", "\"\\xff\"", "L\"\\ud800\"", "'\\777'", "TRUE", "FALSE", "_", "__", "_struct", "#pragma x", "#", "//", "/*", "*/", "\\", "\n", "\t", "$", "`", "\x01", "\xff", "\xc3", "X", "Alpha", "int8", "(((((", ")))))"};
    std::string text;
    if (r.chance(70))
    {
        Toks t = d.out;
        for (int n = r.range(1, 4); n-- > 0 && !t.empty();)
        {
            size_t i = r.below(t.size());
            switch (r.below(6))
            {
                case 0: t.erase(t.begin() + long(i)); break;
                case 1: t.insert(t.begin() + long(i), r.pick(pool)); break;
                case 2: t[i] = r.pick(pool); break;
                case 3: t[i] = t[r.below(t.size())]; break;
                case 4: { size_t j = i + r.below(std::min<size_t>(12, t.size() - i)) + 1; Toks part(t.begin() + long(i), t.begin() + long(j)); size_t k = r.below(t.size()); t.insert(t.begin() + long(k), part.begin(), part.end()); break; }
                default: t.resize(i); break;
            }
        }
        text = d.layout(t, r.chance(30));
        c.count("fuzz.tokens");
    }
    else if (r.chance(50))
    {
        text = good;
        for (int n = r.range(1, 6); n-- > 0 && !text.empty();)
        {
            size_t i = r.below(text.size());
            switch (r.below(4))
            {
                case 0: text[i] = char(r.below(256)); break;
                case 1: text.erase(i, 1 + r.below(4)); break;
                case 2: text.insert(i, 1, char(r.below(128))); break;
                default: text.insert(i, r.pick(pool)); break;
            }
        }
        c.count("fuzz.bytes");
    }
    else if (r.chance(50))
    {
        // operations of extreme values
        static const char* const types[] = {"int8", "uint8", "octet", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "boolean", "char", "wchar", "float", "double", "long double", "string", "wstring"};
        static const char* const vals[] = {"0", "1", "2", "-1", "127", "128", "255", "32767", "32768", "65535", "2147483647", "2147483648", "-2147483648", "4294967295", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615",
            "31", "32", "63", "64", "1.5", "1e400", "TRUE", "'x'", "L'x'", "\"s\"", "L\"s\"", "P", "Q", "X", "V"};
        static const char* const opers[] = {"+", "-", "*", "/", "%", "<<", ">>", "|", "&", "^"};
        auto some = [&]() { std::string e; int n = r.range(1, 4); for (int i = 0; i < n; ++i) { if (i) { e += std::string(" ") + opers[r.below(10)] + " "; } if (r.chance(25)) { e += r.chance(50) ? "~" : "- "; } bool p = r.chance(20); if (p) { e += "("; } e += vals[r.below(sizeof vals / sizeof *vals)]; if (p) { e += ")"; } } return e; };
        text = cat("enum X { V, W };\nconst ", types[r.below(17)], " P = ", some(), ";\nconst ", types[r.below(17)], " Q = ", some(), ";\n");
        if (r.chance(50)) { text += cat("struct S { sequence<long, ", some(), "> a; string<", some(), "> b; map<long, long, ", some(), "> c; long d[", some(), "]; };\n"); }
        if (r.chance(50)) { text += cat("union U switch (", types[r.below(12)], ") { case ", some(), ": long a; case ", some(), ": case ", some(), ": long b; };\n"); }
        c.count("fuzz.expressions");
    }
    else
    {
        Toks t;
        for (int n = r.range(1, 30); n-- > 0;) { t.push_back(r.pick(pool)); }
        text = d.layout(t, false);
        c.count("fuzz.soup");
    }
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    c.note(text.substr(0, 3000));
    {
        Context ctx = options(d);
        if (r.chance(20)) { ctx.allow_keyword_identifiers = true; }
        if (r.chance(20)) { ctx.ignore_redefinition = true; }
        if (r.chance(20)) { ctx.ignore_case = true; }
        if (r.chance(30)) { ctx.log_level(idl::log::xDEBUG); }
        try { idl::parse(text, ctx); c.count(ctx.success ? "fuzz.accepted" : "fuzz.syntax"); }
        catch (const std::exception&) { c.count("fuzz.rejected"); }
        // what there is can be looked at
        auto all = listed(ctx.module());
        c.count("fuzz.types", all.size());
        for (auto& e : ctx.log()) { (void)e.to_string(); }
    }
    Context ctx = options(d);
    if (!parse_ok(c, good, ctx, "after")) { return; }
    Table expected;
    expect_module(d, d.root, expected);
    check_module(c, expected, ctx.module(), good, " after another text");
}

// the parser is asked when the context of the last text doesn't exist
MON_WORKLOAD(idl_lifetime)
{
    Doc d(c);
    auto& r = c.rng;
    prepare(d, r.range(1, 4), 2);
    std::string text = d.layout(d.out, false);
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    Table expected;
    expect_module(d, d.root, expected);
    auto parser = Parser::instance();
    std::map<std::string, DynamicType::Ptr> kept;
    {
        std::unique_ptr<Context> ctx(new Context(options(d)));
        if (!parse_ok(c, text, *ctx, "document")) { return; }
        check_module(c, expected, ctx->module(), text, "");
        kept = ctx->get_all_scoped_types();
        std::map<std::string, DynamicType::Ptr> now;
        parser->get_all_types(now);
        c.count("lifetime.now", now.size());
        if (r.chance(50)) { Context copy(*ctx); ctx.reset(); check_module(c, expected, copy.module(), text, " in a copy of the context"); c.count("lifetime.copy"); }
    }
    std::map<std::string, DynamicType::Ptr> after;
    parser->get_all_types(after);
    c.count("lifetime.after");
    for (auto& t : after) { if (t.second.get()) { describe(*t.second); } }
    // the types outlive the context
    for (auto& t : kept)
    {
        auto it = expected.find("type " + (t.first.compare(0, 2, "::") == 0 ? t.first.substr(2) : t.first));
        if (it != expected.end()) { compare(c, "kept " + t.first, it->second, describe(*t.second), text); c.count("lifetime.kept"); }
    }
    if (r.chance(10)) { Parser::destroy(); c.count("lifetime.destroyed"); }
}

// ------------------------------------------------------------------ options and log (C26)
namespace {

using idl::log::LogEntry;
using idl::log::LogLevel;

std::string entry(const LogEntry& e) { return cat(int(e.level), "|", e.category, "|", e.line, ":", e.column, "|", e.message); }
std::string entries(const std::vector<LogEntry>& l) { std::string s; for (auto& e : l) { s += entry(e) + "\n"; } return s; }
std::vector<LogEntry> upto(const std::vector<LogEntry>& l, int level, bool strict)
{
    std::vector<LogEntry> r;
    for (auto& e : l) { if (strict ? int(e.level) == level : int(e.level) <= level) { r.push_back(e); } }
    return r;
}

// parses and says how it ended: 'yes', 'no', or what was thrown
std::string outcome(const std::string& text, Context& ctx, std::string* said = nullptr)
{
    try { idl::parse(text, ctx); }
    catch (const Parser::exception& e) { if (said) { *said = e.message(); } return std::string("parser exception ") + e.what(); }
    catch (const std::exception& e) { return std::string("exception ") + e.what(); }
    return ctx.success ? "yes" : "no";
}

struct Captured
{
    std::ostringstream os;
    std::streambuf* old;
    Captured() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Captured() { std::cout.rdbuf(old); }
};

} // namespace

// what the log has, at every level of detail
MON_WORKLOAD(idl_log)
{
    Doc d(c);
    auto& r = c.rng;
    d.escapes = r.chance(50);
    prepare(d, r.range(1, 4), 2);
    Toks t = d.out;
    bool valid = true;
    if (r.chance(60))
    {
        valid = false;
        switch (r.below(7))
        {
            case 0: add(t, {"struct", "Bad", "{", "Undeclared", "m", ";", "}", ";"}); break;
            case 1: add(t, {"const", "long", "Bad", "=", "Undeclared", ";"}); break;
            case 2: add(t, {"struct", "Bad", "{", "long", "a", ";", "}", ";", "struct", "Bad", "{", "long", "b", ";", "}", ";"}); break;
            case 3: add(t, {"struct", "Bad", "{", "long", "struct", ";", "}", ";"}); break;
            case 4: add(t, {"struct", "Bad", "{", "long", "a", ",", "a", ";", "}", ";"}); break;
            case 5: add(t, {"const", "boolean", "Odd", "=", "55", ";"}); break; // only a warning
            default: t[r.below(t.size())] = "}"; break;
        }
    }
    std::string text = d.layout(t, r.chance(30));
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    c.note(text.substr(0, 3000));
    Context all = options(d);
    all.log_level(LogLevel::xDEBUG);
    std::string said;
    const std::string how = outcome(text, all, &said);
    const std::vector<LogEntry> full = all.log();
    c.count("log.entries", full.size());
    if (full.empty()) { c.fail("log.nothing", cat("parsing a text left nothing in the log at the level of debug:\n", text)); return; }
    if (valid && how != "yes") { c.fail("log.refused", cat(how, " for\n", text)); return; }
    if (valid) { auto e = upto(full, LogLevel::xERROR, true); if (!e.empty()) { c.fail("log.error-in-valid", cat(entries(e), "in the log of a valid text:\n", text)); return; } c.count("log.valid"); }
    if (how.compare(0, 6, "parser") == 0)
    {
        bool there = false;
        for (auto& e : full) { there = there || (e.level == LogLevel::xERROR && e.message == said); }
        if (!there) { c.fail("log.error-missing", cat("the log doesn't have the error thrown, '", said, "', for\n", text)); return; }
        c.count("log.errors");
    }
    if (how == "no")
    {
        bool there = false;
        for (auto& e : full) { there = there || e.category == "PEGLIB_PARSER"; }
        if (!there) { c.fail("log.syntax-missing", cat("the log doesn't tell the syntax error of\n", text)); return; }
        c.count("log.syntax");
    }
    // what a context keeps is what its level lets pass
    int level = int(r.below(4));
    Context some = options(d);
    some.log_level(LogLevel(level));
    if (some.log_level() != LogLevel(level)) { c.fail("log.level", cat("level ", int(some.log_level()), " after setting ", level)); return; }
    const bool print = r.chance(30);
    some.print_log(print);
    std::string printed;
    {
        Captured out;
        const std::string again = outcome(text, some);
        printed = out.os.str();
        if (again != how) { c.fail("log.outcome", cat("'", how, "' with all the log and '", again, "' at the level ", level, " for\n", text)); return; }
    }
    if (entries(some.log()) != entries(upto(full, level, false))) { c.fail("log.kept", cat("at the level ", level, " the log has\n", entries(some.log()), "instead of\n", entries(upto(full, level, false)), "for\n", text)); return; }
    std::string want;
    if (print) { for (auto& e : some.log()) { want += e.to_string() + "\n"; } }
    if (printed != want) { c.fail("log.printed", cat("printed\n", printed, "instead of\n", want)); return; }
    if (print) { c.count("log.printed"); }
    for (int l = 0; l < 4; ++l)
    {
        for (int strict = 0; strict < 2; ++strict)
        {
            if (entries(all.log(LogLevel(l), strict)) != entries(upto(full, l, strict))) { c.fail("log.filtered", cat("log(", l, ",", strict, ") isn't the part of the log with that severity, for\n", text)); return; }
            c.count("log.filtered");
        }
    }
    static const char* const names[] = {"[ERROR] ", "[WARNING] ", "[INFO] ", "[DEBUG] "};
    for (auto& e : full)
    {
        if (e.category == "RESOLVE_IDENTIFIER")
        {
            if (e.message.empty() || e.message.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_") != std::string::npos) { c.fail("log.identifier", cat("the entry of an identifier says '", e.message, "'")); return; }
            c.count("log.identifier");
        }
    }
    for (auto& e : full) { if (e.to_string() != cat(names[int(e.level)], e.category, ": ", e.message)) { c.fail("log.text", e.to_string()); return; } c.count(cat("log.level", int(e.level)).c_str()); }
}

// a preprocessor that fails is told
MON_WORKLOAD(idl_failed)
{
    Doc d(c);
    auto& r = c.rng;
    prepare(d, r.range(1, 3), 2);
    std::string text = d.layout(d.out, false);
    static const std::vector<std::string> wrong = {"#include \"it_isnt_there.idl\"\n", "#error stop here\n", "#if 1\n", "#include <it_isnt/there.idl>\n", "#endif\n", "#if (1\n#endif\n"};
    Context ctx = options(d);
    ctx.preprocess = true;
    ctx.log_level(LogLevel(r.below(4)));
    if (r.chance(40)) { ctx.strategy = Context::preprocess_strategy::temporary_file; }
    const int k = int(r.below(4));
    if (k == 0) { text = text + "\n" + r.pick(wrong) + "\n"; }
    else if (k == 1) { ctx.preprocessor_exec = one(r, {"false", "/it_isnt/there", "cat /it_isnt/there", "cat; exit 3;"}); }
    const bool fails = k < 2;
    if (k == 3) { text = r.chance(50) ? "#warning be careful\n" + text : "#pragma whatever\n" + text; }
    if (r.chance(15)) { text += "\n/*" + std::string(70000, 'x') + "*/\n"; }
    c.note(cat(ctx.preprocessor_exec, "\n", text.substr(0, 3000)));
    c.see(mon::hash_str(text));
    c.nontrivial = true;
    const Leftovers leftovers;
    std::string how;
    const bool file = r.chance(40);
    try
    {
        if (file) { Scratch dir(r); idl::parse_file(dir.write("main.idl", text), ctx); }
        else { idl::parse(text, ctx); }
        how = ctx.success ? "yes" : "no";
    }
    catch (const std::exception& e) { how = e.what(); }
    if (!leftovers.check(c, text)) { return; }
    size_t errors = upto(ctx.log(), LogLevel::xERROR, true).size();
    if (!fails && (how != "yes" || errors)) { c.fail("failed.unexpected", cat(how, ", and\n", entries(ctx.log()), "for\n", text)); return; }
    if (fails && how == "yes" && !errors) { c.fail("failed.silent", cat("the preprocessor failed and nothing tells it: ", ctx.preprocessor_exec, file ? " on a file with\n" : " on\n", text)); return; }
    c.count(fails ? "log.failed" : "log.preprocessed");
}

// what each option lets pass
MON_WORKLOAD(idl_options)
{
    Doc d(c);
    auto& r = c.rng;
    prepare(d, r.range(1, 5), 2);
    static const std::vector<std::string> keywords = {"const", "module", "sequence", "string", "wstring", "fixed", "union", "struct", "enum", "switch", "case", "default", "native", "typedef", "any", "map", "bitset", "bitfield", "bitmask",
        "short", "int16", "long", "int32", "int64", "uint16", "uint32", "uint64", "int8", "uint8", "char", "wchar", "boolean", "octet", "float", "double"};
    Table expected;
    expect_module(d, d.root, expected);
    Context ctx = options(d);
    int k = int(r.below(6));
    Toks t = d.out;
    auto capital = [&](std::string s) { size_t n = 0; for (auto& ch : s) { if (r.chance(50) && islower(ch)) { ch = char(toupper(ch)); ++n; } } if (!n) { s[0] = char(toupper(s[0])); } return s; };
    auto alone = [&](const Toks& x, const std::string& what)
            {
                // refused without the option
                Context plain = options(d);
                Toks u = d.out;
                add(u, x);
                std::string text = d.layout(u, false), how = outcome(text, plain);
                if (how == "yes") { c.fail("options." + what + ".accepted", cat("accepted without the option:\n", text)); return false; }
                c.count("options.refused");
                return true;
            };
    std::string what;
    bool refused = false;
    if (k == 0)
    {
        // the first definition remains
        what = "redefinition";
        std::string n = cat("Twice", ++d.uid);
        Toks first, second;
        switch (r.below(6))
        {
            case 3: first = {"enum", n, "{", "First1", ",", "First2", "}", ";"}; second = {"enum", n, "{", "Second1", r.chance(50) ? "," : "}", "Second2", "}", ";"}; if (second[4] == "}") { second = {"enum", n, "{", "Second1", "}", ";"}; } break;
            case 4: first = {"const", "long", n, "=", "5", ";"}; second = {"const", one(r, {"long", "uint8", "double"}), n, "=", "7", ";"}; break;
            case 5:
            {
                auto def = [&](int w) -> Toks
                        {
                            if (w == 0) { return {"struct", n, "{", "long", "a", ";", "string", "b", ";", "}", ";"}; }
                            if (w == 1) { return {"union", n, "switch", "(", "long", ")", "{", "case", "1", ":", "long", "a", ";", "}", ";"}; }
                            if (w == 2) { return {"enum", n, "{", "Other1", "}", ";"}; }
                            if (w == 3) { return {"const", "long", n, "=", "9", ";"}; }
                            return {"typedef", "long", n, ";"};
                        };
                int w = int(r.below(4));
                second = def(w);
                first = def((w + 1 + int(r.below(4))) % 5);
                c.count("options.redefinition.kind");
                break;
            }
            case 0:
                first = {"struct", n, "{", "long", "a", ";", "string", "b", ";", "}", ";"};
                second = {"struct", n, "{", "double", r.chance(50) ? "a" : "z", ";", "octet", "c", "[", "3", "]", ";", "}", ";"};
                break;
            case 1:
                first = {"union", n, "switch", "(", "long", ")", "{", "case", "1", ":", "long", "a", ";", "}", ";"};
                second = {"union", n, "switch", "(", r.chance(50) ? "char" : "long", ")", "{", "case", "2", ":", "double", "c", ";", "default", ":", "string", "e", ";", "}", ";"};
                if (second[4] == "char") { second[8] = "'x'"; }
                break;
            default:
                first = {"typedef", "long", n, ";"};
                second = {"typedef", r.chance(50) ? "string" : "double", n, ";"};
                break;
        }
        Toks one_def = d.out;
        add(one_def, first);
        Context ref = options(d);
        std::string how = outcome(d.layout(one_def, false), ref);
        if (how != "yes") { c.fail("options.reference", how); return; }
        auto want = listed(ref.module());
        Toks both = first;
        add(both, second);
        if (!alone(both, what)) { return; }
        add(t, both);
        ctx.ignore_redefinition = true;
        std::string text = d.layout(t, r.chance(30));
        c.note(text);
        c.see(mon::hash_str(text)); c.nontrivial = true;
        how = outcome(text, ctx);
        if (how != "yes") { c.fail("options.redefinition.refused", cat(how, " for\n", text)); return; }
        auto got = listed(ctx.module());
        if (got != want)
        {
            for (auto& w : want) { if (got[w.first] != w.second) { c.fail("options.redefinition", cat(w.first, " is ", got[w.first], " instead of ", w.second, " for\n", text)); return; } }
            c.fail("options.redefinition", cat("more types than expected for\n", text)); return;
        }
        c.count("options.redefinition");
        return;
    }
    std::string kw = r.pick(keywords), extra;
    std::string desc;
    std::string n = cat("Kw", ++d.uid);
    if (k == 1 || k == 2)
    {
        what = "keyword";
        ctx.allow_keyword_identifiers = true;
        if (r.chance(40))
        {
            // the name of what is declared
            Toks x;
            int form = int(r.below(7));
            switch (form)
            {
                case 0: x = {"struct", kw, "{", "octet", "m", ";", "}", ";"}; break;
                case 1: x = {"union", kw, "switch", "(", "octet", ")", "{", "case", "1", ":", "float", "a", ";", "}", ";"}; break;
                case 2: x = {"enum", kw, "{", "OfKeyword", "}", ";"}; break;
                case 3: x = {"enum", n, "{", "OfKeyword", ",", kw, "}", ";"}; break;
                case 4: x = {"typedef", "float", kw, ";"}; break;
                case 5: x = {"const", "uint16", kw, "=", "3", ";"}; break;
                default: x = {"module", kw, "{", "struct", "Inner", "{", "float", "m", ";", "}", ";", "}", ";"}; break;
            }
            if (!alone(x, what)) { return; }
            add(t, x);
            std::string text = d.layout(t, r.chance(30));
            c.note(text);
            c.see(mon::hash_str(text)); c.nontrivial = true;
            std::string how = outcome(text, ctx);
            if (how != "yes") { c.fail("options.keyword.refused", cat(how, " for\n", text)); return; }
            Module& m = ctx.module();
            bool there = form == 0 ? m.has_structure(kw) : form == 1 ? m.has_union(kw) : form == 2 ? m.has_enum_32(kw) : form == 3 ? m.has_constant(kw) && m.enum_32(n).enumerators().count(kw) == 1
                : form == 4 ? m.has_alias(kw) : form == 5 ? m.has_constant(kw) && m.constant(kw).value<uint16_t>() == 3 : m.has_submodule(kw) && m.submodule(kw)->has_structure("Inner");
            if (!there) { c.fail("options.keyword", cat("what is named ", kw, " is missing for\n", text)); return; }
            c.count(cat("options.keyword.", form).c_str());
            return;
        }
        Toks x{"struct", n, "{", "short", kw, ";", "string", "other", ";", "sequence", "<", "double", ">", kw == "map" ? "string" : "map", ";", "}", ";"};
        if (!alone(x, what)) { return; }
        add(t, x);
        extra = n;
        desc = kw;
    }
    else if (k == 3)
    {
        // a keyword in capitals is a name, unless the case is ignored
        what = "case";
        std::string up = capital(kw);
        Toks x{"struct", n, "{", "short", up, ";", "string", "other", ";", "}", ";"};
        add(t, x);
        refused = ctx.ignore_case = r.chance(50);
        extra = n;
        desc = up;
    }
    else if (k == 4)
    {
        // what isn't a keyword isn't affected by the options
        what = "nothing";
        ctx.ignore_case = r.chance(50);
        ctx.allow_keyword_identifiers = r.chance(50);
        ctx.ignore_redefinition = r.chance(50);
        ctx.clear = r.chance(50);
    }
    else
    {
        // another preprocessor
        what = "preprocessor";
        if (!r.chance(20)) { return; }
        ctx.preprocess = true;
        ctx.preprocessor_exec = r.chance(50) ? "sed -e s/MON_LONG/short/g" : "cat";
        bool sed = ctx.preprocessor_exec != "cat";
        if (r.chance(50)) { ctx.strategy = Context::preprocess_strategy::temporary_file; }
        Toks x{"struct", n, "{", sed ? "MON_LONG" : "short", "only", ";", "}", ";"};
        add(t, x);
        extra = n;
        desc = "only";
    }
    std::string text = d.layout(t, r.chance(30));
    c.note(text);
    c.see(mon::hash_str(text)); c.nontrivial = true;
    std::string how;
    if (k == 5 || !r.chance(4)) { how = outcome(text, ctx); }
    else
    {
        // from a file
        Scratch dir(r);
        std::string f = dir.write("file.idl", text);
        try { idl::parse_file(f, ctx); how = ctx.success ? "yes" : "no"; }
        catch (const std::exception& e) { how = e.what(); }
        std::string pre = idl::preprocess(f, {});
        Context other = options(d);
        other.allow_keyword_identifiers = ctx.allow_keyword_identifiers;
        other.ignore_case = ctx.ignore_case;
        std::string how2 = outcome(pre, other);
        if ((how2 == "yes") != (how == "yes")) { c.fail("options.preprocess", cat("'", how2, "' once preprocessed and '", how, "' otherwise for\n", text)); return; }
        if (how2 == "yes" && listed(other.module()) != listed(ctx.module())) { c.fail("options.preprocess", cat("other types once preprocessed, for\n", text)); return; }
        c.count("options.file");
    }
    if (refused)
    {
        if (how == "yes") { c.fail("options.case.accepted", cat("a keyword in other case was accepted while the case is ignored:\n", text)); return; }
        c.count("options.refused");
        return;
    }
    if (how != "yes") { c.fail("options." + what + ".refused", cat(how, " for\n", text)); return; }
    if (!extra.empty())
    {
        if (!ctx.module().has_structure(extra)) { c.fail("options." + what, cat("the structure ", extra, " is missing for\n", text)); return; }
        const StructType& s = ctx.module().structure(extra);
        if (!s.has_member(desc) || s.member(0).name() != desc || s.member(0).type().kind() != TypeKind::INT_16_TYPE) { c.fail("options." + what, cat("the member ", desc, " is missing for\n", text)); return; }
        expected["type " + extra] = describe(s);
    }
    check_module(c, expected, ctx.module(), text, " with options");
    if (ctx.get_all_scoped_types().size() != ctx.module().get_all_types(true).size() || ctx.get_all_types().size() != ctx.module().get_all_types(false).size()) { c.fail("options.types", "the context doesn't list the types of its module"); return; }
    c.count(("options." + what).c_str());
}

// the results of a parse are cleaned up by the following one
MON_PROBE(c26_clear)
{
    Context ctx;
    ctx.preprocess = false;
    idl::parse("struct First { long m; };", ctx);
    idl::parse("struct Second { long m; };", ctx);
    if (ctx.clear && ctx.module().has_structure("First")) { c.fail("not-cleaned", "with the option 'clear' (the default), the results of the previous parse remain in the context"); }
    c.count("probe.clear");
}

// keywords in any case
MON_PROBE(c26_case)
{
    Context ctx;
    ctx.preprocess = false;
    ctx.ignore_case = true;
    std::string how = outcome("STRUCT First { Long m; };", ctx);
    if (how != "yes") { c.fail("keywords-with-case", "with the option 'ignore_case', the keywords are case sensitive: 'STRUCT First { Long m; };' isn't accepted (" + how + ")"); }
    c.count("probe.case");
}
