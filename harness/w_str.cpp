// Textual rendering and casts (C16).
#include "model.hpp"
#include "typecheck.hpp"
#include "utf.hpp"
#include "walk.hpp"
#include <cmath>
#include <limits>
#include <sstream>
using namespace mdl;

namespace {

std::string leaf(const TD& t, const V& v)
{
    std::ostringstream os;
    switch (t.k)
    {
        case BOOL: os << (v.get<bool>() ? 1 : 0); break;
        case I8: os << int(v.get<int8_t>()); break;
        case U8: case E8: os << unsigned(v.get<uint8_t>()); break;
        case I16: os << v.get<int16_t>(); break;
        case U16: case E16: os << v.get<uint16_t>(); break;
        case I32: os << v.get<int32_t>(); break;
        case U32: case E32: os << v.get<uint32_t>(); break;
        case I64: os << v.get<int64_t>(); break;
        case U64: os << v.get<uint64_t>(); break;
        case F32: os << v.get<float>(); break;
        case F64: os << v.get<double>(); break;
        case F128: os << v.get<long double>(); break;
        case C8: os << v.get<char>(); break;
        case C16: os << enc8({uint32_t(v.get<char16_t>())}); break;
        case WC: os << enc8({uint32_t(v.get<wchar_t>())}); break;
        case STR: os << v.s; break;
        case STR16: { Points p; dec16(v.u, p); os << enc8(p); break; }
        case WSTR: { Points p; for (wchar_t w : v.w) { p.push_back(uint32_t(w)); } os << enc8(p); break; }
        default: break;
    }
    return os.str();
}

// Reads the rendering against the expected nodes. Aggregations without a line of their own in the format only need their type.
std::string compare(const std::string& text, const std::vector<Node>& nodes)
{
    size_t pos = 0;
    for (size_t i = 0; i < nodes.size(); ++i)
    {
        const Node& n = nodes[i];
        std::string line(n.depth * 4, ' ');
        if (n.parent >= 0)
        {
            const Node& up = nodes[size_t(n.parent)];
            bool aggregation = up.kind == TypeKind::STRUCTURE_TYPE || up.kind == TypeKind::UNION_TYPE;
            line += "[" + (aggregation ? n.member : std::to_string(n.index)) + "] ";
        }
        std::string where = cat(at(nodes, i), ": ");
        if (n.t == nullptr || n.t->k == PAIR || n.t->k == UNION)
        {
            size_t end = text.find('\n', pos);
            if (end == std::string::npos) { return where + "no line"; }
            std::string got = text.substr(pos, end - pos);
            if (got.compare(0, line.size(), line) != 0) { return cat(where, "\"", got, "\" does not start with \"", line, "\""); }
            if (got.find(n.type_name, line.size()) == std::string::npos) { return cat(where, "\"", got, "\" does not name its type"); }
            pos = end + 1;
            continue;
        }
        switch (n.t->k)
        {
            case STRUCT: line += "Structure: <" + n.type_name + ">"; break;
            case ARR: line += "<" + n.type_name + ">"; break;
            case SEQ: line += "<" + n.type_name + "[" + std::to_string(n.v->e.size()) + "]>"; break;
            case MAP: line += "<" + n.type_name + "[" + std::to_string(n.v->m.size()) + "]>"; break;
            case E8: case E16: case E32: line += "Enumeration: <" + n.type_name + ">  " + leaf(*n.t, *n.v); break;
            default: line += "<" + n.type_name + ">  " + leaf(*n.t, *n.v);
        }
        line += "\n";
        if (text.compare(pos, line.size(), line) != 0) { return cat(where, "\"", text.substr(pos, line.size() + 10), "\" instead of \"", line, "\""); }
        pos += line.size();
    }
    if (pos != text.size()) { return cat("text after the last node: \"", text.substr(pos, 200), "\""); }
    return "";
}

} // namespace

MON_WORKLOAD(str_render)
{
    Rng& r = c.rng;
    GenOpt o = trav_opts(r);
    TDp t = gen_type(r, o);
    V v = gen_value(r, *t, o, r.chance(80) ? 85 : 40);
    select_all(r, *t, v, o);
    mend(r, *t, v);
    c.see(sig(*t));
    c.note("type " + show(*t));
    c.note("value " + show(*t, v));
    std::unique_ptr<DynamicData> d(mk(*t, v, r));
    std::string e = check(*d, *t, v, r);
    if (!e.empty()) { c.die("setup", e); }
    Expect x;
    x.add(*d, *t, v, -1, 0, 0, ~0ull, "", nullptr, false, r);
    std::string text = d->to_string();
    e = compare(text, x.nodes);
    if (!e.empty()) { c.die("line", cat(e, "   ", show(*t))); }
    std::ostringstream os;
    os << *d;
    if (os.str() != text) { c.die("stream", "the data sent to a stream is not its rendering"); }
    // a part renders as the data it would be on its own
    GenOpt lo;
    for (int i = 0; i < 2 && !x.nodes.empty(); ++i)
    {
        std::unique_ptr<DynamicData> copy(new DynamicData(*d));
        WritableDynamicDataRef ref = *copy;
        V vv = v;
        descend(ref, *t, vv, r, 40, [&](WritableDynamicDataRef place, const TD& pt, V& pv)
            {
                Expect y;
                y.add(place, pt, pv, -1, 0, 0, ~0ull, "", nullptr, false, r);
                std::string q = compare(place.to_string(), y.nodes);
                if (!q.empty()) { c.die("part-line", cat(q, "   ", show(*t))); }
                c.count("parts.rendered");
            }, [](const TD&) { return true; });
    }
    e = check(*d, *t, v, r);
    if (!e.empty()) { c.die("changed", cat("rendering changed the data: ", e)); }
    c.count("lines.compared", x.nodes.size());
    c.nontrivial = x.nodes.size() > 1;
}

namespace {

template<class S, class T> bool defined(S s)
{
    if constexpr (std::is_same<T, bool>::value) { return true; }
    else if constexpr (std::is_floating_point<S>::value && !std::is_floating_point<T>::value)
    {
        if (!(s == s) || std::isinf((long double)s)) { return false; }
        long double q = std::trunc((long double)s);
        return q >= (long double)std::numeric_limits<T>::lowest() && q <= (long double)std::numeric_limits<T>::max();
    }
    else { return true; }
}
template<class T> bool equal(T a, T b)
{
    if constexpr (std::is_floating_point<T>::value) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
    else { return a == b; }
}
template<class T> std::string num(T x) { std::ostringstream os; os.precision(21); if constexpr (std::is_floating_point<T>::value) { os << x; } else { os << (__int128(x) < 0 ? "-" : "") << (unsigned long long)(__int128(x) < 0 ? -__int128(x) : __int128(x)); } return os.str(); }

template<class T, class S> void cast_one(Case& c, const ReadableDynamicDataRef& ref, S s, const char* from, const char* to)
{
    if (!defined<S, T>(s)) { return; }
    T want = static_cast<T>(s);
    T got = ref.cast<T>();
    if (!equal(got, want)) { c.die(cat("cast:", from, ":", to), cat("cast from ", from, " ", num(s), " to ", to, " gives ", num(got), " instead of ", num(want))); }
    c.count("casts.compared");
}
template<class S> void cast_all(Case& c, const ReadableDynamicDataRef& ref, S s, K k)
{
    const char* f = kname(k);
    for (int i = 0; i <= WC; ++i)
    {
        with_prim(K(i), [&](auto tag) { cast_one<typename decltype(tag)::type>(c, ref, s, f, kname(K(i))); });
    }
    cast_one<long long>(c, ref, s, f, "long long");
    cast_one<unsigned long long>(c, ref, s, f, "unsigned long long");
    cast_one<unsigned char>(c, ref, s, f, "unsigned char");
    cast_one<signed char>(c, ref, s, f, "signed char");
    cast_one<char32_t>(c, ref, s, f, "char32_t");
    cast_one<size_t>(c, ref, s, f, "size_t");
    char b[6000];
    if constexpr (std::is_same<S, long double>::value) { snprintf(b, sizeof b, "%Lf", s); }
    else if constexpr (std::is_floating_point<S>::value) { snprintf(b, sizeof b, "%f", double(s)); }
    else if constexpr (std::is_signed<S>::value) { snprintf(b, sizeof b, "%lld", (long long)s); }
    else { snprintf(b, sizeof b, "%llu", (unsigned long long)s); }
    std::string got = ref.cast<std::string>();
    if (got != b) { c.die(cat("cast:", f, ":string"), cat("cast from ", f, " to string gives \"", got, "\" instead of \"", b, "\"")); }
    c.count("casts.compared");
}

} // namespace

MON_WORKLOAD(str_casts)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = 0;
    K k = K(r.below(E32 + 1));
    o.root = k;
    TDp t = is_enum(k) ? gen_type(r, o) : mk_prim(k);
    k = t->res().k;
    const DynamicType& type = real(*t);
    c.see(uint64_t(k));
    AliasType alias(type, "Alias");
    StructType st("Host");
    st.add_member("a", primitive_type<char>());
    st.add_member("v", type);
    st.add_member("w", alias);
    ArrayType arr(type, 3);
    UnionType u("Sel", primitive_type<int32_t>());
    u.add_case_member<int32_t>({1}, Member("x", primitive_type<double>()));
    u.add_case_member<int32_t>({2}, Member("v", type));
    DynamicData host(st), alone(type), aliased(alias), array(arr), un(u);
    for (int i = 0; i < 6; ++i)
    {
        V v;
        if (is_enum(k)) { v = gen_enum(r, *t); }
        else
        {
            v = gen_prim(r, k, true);
            if (is_float(k) && r.chance(60))
            {
                long double x = (long double)(int64_t(r.next()) >> r.below(64)) / (long double)(1ull << r.below(20));
                if (k == F32) { v.set<float>(float(x)); } else if (k == F64) { v.set<double>(double(x)); } else { v.set<long double>(x); }
            }
        }
        int where = r.range(0, 5);
        WritableDynamicDataRef ref = where == 0 ? alone.ref() : where == 1 ? aliased.ref() : where == 2 ? host["v"] : where == 3 ? host["w"] : where == 4 ? array[size_t(r.below(3))] : un["v"];
        assign_leaf(ref, *t, v, r);
        c.note(cat("cast ", show(*t, v)));
        with_prim(k, [&](auto tag)
            {
                using S = typename decltype(tag)::type;
                cast_all<S>(c, ref, v.get<S>(), k);
            });
        std::string e = check(ref, *t, v, r);
        if (!e.empty()) { c.die("changed", cat("casting changed the data: ", e)); }
    }
    c.nontrivial = true;
}

MON_WORKLOAD(str_refused)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = 2;
    static const int kinds[] = {STR, WSTR, STR16, ARR, SEQ, MAP, STRUCT, UNION};
    o.root = kinds[r.below(8)];
    TDp t = gen_type(r, o);
    V v = gen_value(r, *t, o);
    mend(r, *t, v);
    c.see(sig(*t));
    std::unique_ptr<DynamicData> d(mk(*t, v, r));
    const TD& rt = t->res();
    auto refused = [&](auto&& f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    K k = K(r.below(WC + 1));
    bool no = with_prim(k, [&](auto tag) { return refused([&] { (void)d->cast<typename decltype(tag)::type>(); }); });
    if (!no) { c.die(cat("not-refused:", kname(rt.k)), cat("the cast of ", show(*t), " to ", kname(k), " is not refused")); }
    if (is_string(rt.k))
    {
        if (d->cast<std::string>() != leaf(rt, v)) { c.die(cat("cast:", kname(rt.k), ":string"), cat("\"", d->cast<std::string>(), "\" instead of \"", leaf(rt, v), "\"")); }
    }
    else if (!refused([&] { (void)d->cast<std::string>(); })) { c.die(cat("not-refused:", kname(rt.k)), cat("the cast of ", show(*t), " to string is not refused")); }
    std::string e = check(*d, *t, v, r);
    if (!e.empty()) { c.die("changed", cat("a refused cast changed the data: ", e)); }
    c.count("casts.refused");
    c.nontrivial = true;
}
