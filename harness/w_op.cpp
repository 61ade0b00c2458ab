// DynamicData operators against the C++ operators on the same values (C14).
#include "model.hpp"
#include <cmath>
#include <deque>
#include <limits>
#include <type_traits>
using namespace mdl;

namespace {

enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, XOR, OR, LAND, LOR, LT, GT, LE, GE, NOPS };
const char* const NAMES[] = {"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|", "&&", "||", "<", ">", "<=", ">="};

template<class T> constexpr bool num_int = std::is_integral<T>::value && !std::is_same<T, bool>::value && !std::is_same<T, char>::value
    && !std::is_same<T, wchar_t>::value && !std::is_same<T, char16_t>::value;
template<class T> constexpr bool num = num_int<T> || std::is_floating_point<T>::value;

template<class T> bool has(int op)
{
    if (op >= LAND) { return true; }
    if (op <= DIV) { return num<T>; }
    return num_int<T>;
}

enum class Eval { DEFINED, UNDEFINED, ABSENT };

// C++ result of a OP b as a value of T
template<class T> Eval eval(int op, T a, T b, T& res, bool& truth)
{
    switch (op)
    {
        case LAND: truth = a && b; return Eval::DEFINED;
        case LOR: truth = a || b; return Eval::DEFINED;
        case LT: truth = a < b; return Eval::DEFINED;
        case GT: truth = a > b; return Eval::DEFINED;
        case LE: truth = a <= b; return Eval::DEFINED;
        case GE: truth = a >= b; return Eval::DEFINED;
    }
    if constexpr (std::is_floating_point<T>::value)
    {
        switch (op)
        {
            case ADD: res = a + b; return Eval::DEFINED;
            case SUB: res = a - b; return Eval::DEFINED;
            case MUL: res = a * b; return Eval::DEFINED;
            case DIV: if (b == 0) { return Eval::UNDEFINED; } res = a / b; return Eval::DEFINED;
        }
        return Eval::ABSENT;
    }
    else if constexpr (num_int<T>)
    {
        using P = decltype(a + b);
        const P x = a, y = b;
        P z = 0;
        bool bad = false;
        switch (op)
        {
            case ADD: if (std::is_signed<P>::value) { bad = __builtin_add_overflow(x, y, &z); } else { z = x + y; } break;
            case SUB: if (std::is_signed<P>::value) { bad = __builtin_sub_overflow(x, y, &z); } else { z = x - y; } break;
            case MUL: if (std::is_signed<P>::value) { bad = __builtin_mul_overflow(x, y, &z); } else { z = x * y; } break;
            case DIV: case MOD:
                bad = y == 0 || (std::is_signed<P>::value && x == std::numeric_limits<P>::min() && y == P(-1));
                if (!bad) { z = op == DIV ? x / y : x % y; }
                break;
            case SHL: case SHR:
                bad = (std::is_signed<P>::value && y < 0) || uint64_t(y) >= sizeof(P) * 8;
                if (!bad && op == SHL && std::is_signed<P>::value)
                {
                    // defined when the mathematical result fits the unsigned type
                    using U = std::make_unsigned_t<P>;
                    bad = x < 0 || (y > 0 && (U(x) >> (sizeof(P) * 8 - uint64_t(y))) != 0);
                }
                if (!bad) { z = op == SHL ? P(x << y) : P(x >> y); }
                break;
            case AND: z = x & y; break;
            case XOR: z = x ^ y; break;
            case OR: z = x | y; break;
        }
        if (bad) { return Eval::UNDEFINED; }
        res = static_cast<T>(z);
        return Eval::DEFINED;
    }
    return Eval::ABSENT;
}

DynamicData apply(int op, const DynamicData& a, const ReadableDynamicDataRef& b)
{
    switch (op)
    {
        case ADD: return a + b;
        case SUB: return a - b;
        case MUL: return a * b;
        case DIV: return a / b;
        case MOD: return a % b;
        case SHL: return a << b;
        case SHR: return a >> b;
        case AND: return a & b;
        case XOR: return a ^ b;
        default: return a | b;
    }
}
bool apply_truth(int op, const DynamicData& a, const ReadableDynamicDataRef& b)
{
    switch (op)
    {
        case LAND: return a && b;
        case LOR: return a || b;
        case LT: return a < b;
        case GT: return a > b;
        case LE: return a <= b;
        default: return a >= b;
    }
}
DynamicData& apply_assign(int op, DynamicData& a, const ReadableDynamicDataRef& b)
{
    switch (op)
    {
        case ADD: return a += b;
        case SUB: return a -= b;
        case MUL: return a *= b;
        case DIV: return a /= b;
        case MOD: return a %= b;
        case SHL: return a <<= b;
        case SHR: return a >>= b;
        case AND: return a &= b;
        case XOR: return a ^= b;
        default: return a |= b;
    }
}
template<class T> DynamicData& apply_assign_value(int op, DynamicData& a, const T& b)
{
    if constexpr (!std::is_floating_point<T>::value)
    {
        switch (op)
        {
            case MOD: return a %= b;
            case SHL: return a <<= b;
            case SHR: return a >>= b;
            case AND: return a &= b;
            case XOR: return a ^= b;
            case OR: return a |= b;
        }
    }
    switch (op)
    {
        case ADD: return a += b;
        case SUB: return a -= b;
        case MUL: return a *= b;
        default: return a /= b;
    }
}

template<class T> T gen(Rng& r, K k)
{
    T t{};
    switch (r.range(0, 9))
    {
        case 0: t = T(0); break;
        case 1: t = T(1); break;
        case 2: t = std::numeric_limits<T>::max(); break;
        case 3: t = std::numeric_limits<T>::lowest(); break;
        case 4: t = T(r.range(0, 31)); break;
        case 5: if constexpr (num_int<T>) { t = T(uint64_t(1) << r.below(sizeof(T) * 8)); break; } [[fallthrough]];
        case 6: t = gen_prim(r, k, true).get<T>(); break;
        case 7: t = std::is_signed<T>::value ? T(-1) : T(r.range(0, 255)); break;
        default: t = T(r.range(0, 100)); break;
    }
    if constexpr (std::is_same<T, bool>::value) { t = r.chance(50); }
    return t;
}

template<class T> bool same_value(T a, T b)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        if (a != a || b != b) { return a != a && b != b; }
        return a == b && std::signbit(a) == std::signbit(b);
    }
    return a == b;
}
template<class T> std::string txt(T a)
{
    if constexpr (std::is_floating_point<T>::value) { char b[64]; snprintf(b, sizeof b, "%La", (long double)a); return b; }
    else if constexpr (std::is_signed<T>::value) { return std::to_string((long long)a); }
    else { return std::to_string((unsigned long long)a); }
}

template<class T> DynamicData make(K k, T v)
{
    V m; m.set<T>(v);
    TDp t = mk_prim(k);
    DynamicData d(real(t));
    d.ref().value<T>(v);
    return d;
}

// A pool of native values and the data that shadow them; some of the data are members of a structure or elements of an array.
template<class T> struct Pool
{
    K k;
    std::deque<T> v;
    std::vector<std::unique_ptr<DynamicData>> d;
    std::vector<std::unique_ptr<DynamicData>> hosts;
    std::vector<WritableDynamicDataRef> refs;       // right operands held by other data

    void check(Case& c, const std::string& what)
    {
        for (size_t i = 0; i < v.size(); ++i)
        {
            T got = i < d.size() ? T(d[i]->template value<T>()) : T(refs[i - d.size()].template value<T>());
            if (!same_value(got, v[i]))
            {
                c.die("operand", cat("after ", what, " the ", kname(k), i < d.size() ? " data " : " member ", i, " is ", txt(got), " instead of ", txt(v[i])));
            }
        }
        c.count("operands.checked", v.size());
    }
};

template<class T> void program(Case& c, K k)
{
    Rng& r = c.rng;
    Pool<T> p;
    p.k = k;
    TDp t = mk_prim(k);
    const DynamicType& type = real(t);
    // data of the type, in part declared through an alias
    AliasType alias(type, "Alias");
    AliasType alias2(alias, "Alias2");
    size_t n = size_t(r.range(2, 4));
    for (size_t i = 0; i < n; ++i)
    {
        int how = r.range(0, 5);
        p.d.emplace_back(new DynamicData(how == 0 ? static_cast<const DynamicType&>(alias) : how == 1 ? static_cast<const DynamicType&>(alias2) : type));
        p.v.push_back(gen<T>(r, k));
        p.d.back()->ref().template value<T>(p.v.back());
    }
    StructType st("Host");
    st.add_member("x", primitive_type<int16_t>());
    st.add_member("v", type);
    st.add_member("w", alias);
    SequenceType sq(type, 3);
    p.hosts.emplace_back(new DynamicData(st));
    p.hosts.emplace_back(new DynamicData(sq));
    p.hosts[1]->resize(2);
    p.refs.push_back((*p.hosts[0])["v"]);
    p.refs.push_back((*p.hosts[0])["w"]);
    p.refs.push_back((*p.hosts[1])[size_t(1)]);
    for (auto& ref : p.refs) { p.v.push_back(gen<T>(r, k)); ref.template value<T>(p.v.back()); }
    p.check(c, "creation");

    int steps = r.range(6, 14);
    c.see(uint64_t(k));
    for (int s = 0; s < steps; ++s)
    {
        size_t a = r.below(n), b = r.chance(10) ? a : r.below(p.v.size());
        if (r.chance(25)) { p.v[a] = gen<T>(r, k); p.d[a]->ref().template value<T>(p.v[a]); }
        ReadableDynamicDataRef rb = b < n ? ReadableDynamicDataRef(*p.d[b]) : ReadableDynamicDataRef(p.refs[b - n]);
        int form = r.weighted({40, 20, 15, 20, 8});
        std::string what;
        auto wrong = [&](const char* key, const std::string& detail)
        {
            c.die(cat(key, ":", what, ":", kname(k)), cat(what, " on ", kname(k), " with ", txt(p.v[a]), " and ", txt(p.v[b]), ": ", detail));
        };
        auto refused = [&](auto&& f) { try { f(); } catch (const std::exception&) { return true; } return false; };
        T res{}; bool truth = false;
        if (form == 0)          // a OP b
        {
            int op = int(r.below(NOPS));
            what = NAMES[op];
            c.note(cat(what, " ", txt(p.v[a]), " ", txt(p.v[b])));
            c.see(uint64_t(op) * 3);
            Eval e = eval<T>(op, p.v[a], p.v[b], res, truth);
            if (e == Eval::UNDEFINED) { continue; }
            if (e == Eval::ABSENT)
            {
                if (!refused([&] { apply(op, *p.d[a], rb); })) { wrong("not-refused", "the operator does not exist for this type and is not refused"); }
                c.count("operators.refused");
            }
            else if (op >= LAND)
            {
                bool got = apply_truth(op, *p.d[a], rb);
                if (got != truth) { wrong("result", cat("gives ", got, " instead of ", truth)); }
                c.count("operators.compared");
            }
            else
            {
                DynamicData got = apply(op, *p.d[a], rb);
                if (got.type().kind() != type.kind()) { wrong("result-type", cat("gives a ", got.type().name())); }
                if (!same_value(T(got.template value<T>()), res)) { wrong("result", cat("gives ", txt(T(got.template value<T>())), " instead of ", txt(res))); }
                if (r.chance(20))
                {
                    // the result is a value of its own
                    T other = gen<T>(r, k);
                    got.ref().template value<T>(other);
                }
                c.count("operators.compared");
            }
        }
        else if (form == 1)     // a OP= b
        {
            int op = int(r.below(LAND));
            what = cat(NAMES[op], "=");
            c.note(cat(what, " ", txt(p.v[a]), " ", txt(p.v[b])));
            c.see(uint64_t(op) * 5 + 1);
            Eval e = eval<T>(op, p.v[a], p.v[b], res, truth);
            if (e == Eval::UNDEFINED) { continue; }
            if (e == Eval::ABSENT)
            {
                if (!refused([&] { apply_assign(op, *p.d[a], rb); })) { wrong("not-refused", "the operator does not exist for this type and is not refused"); }
                c.count("operators.refused");
            }
            else
            {
                DynamicData& back = apply_assign(op, *p.d[a], rb);
                if (&back != p.d[a].get()) { wrong("result-type", "does not give its left operand"); }
                p.v[a] = res;
                c.count("operators.compared");
            }
        }
        else if (form == 2)     // a OP= native value
        {
            int op = int(r.below(std::is_floating_point<T>::value ? MOD : LAND));
            T y = gen<T>(r, k);
            what = cat(NAMES[op], "= value");
            c.note(cat(what, " ", txt(p.v[a]), " ", txt(y)));
            c.see(uint64_t(op) * 7 + 2);
            if constexpr (num<T>)
            {
                Eval e = eval<T>(op, p.v[a], y, res, truth);
                if (e != Eval::DEFINED) { continue; }
                DynamicData& back = apply_assign_value<T>(op, *p.d[a], y);
                if (&back != p.d[a].get()) { wrong("result-type", "does not give its left operand"); }
                p.v[a] = res;
                c.count("operators.compared");
            }
            else
            {
                T old = p.v[a];
                (void)old;
                if (op == SHL && std::is_same<T, bool>::value) { continue; }
                if (!refused([&] { apply_assign_value<T>(op, *p.d[a], y); })) { wrong("not-refused", "the operator does not exist for this type and is not refused"); }
                c.count("operators.refused");
            }
        }
        else if (form == 3)     // unary
        {
            int u = int(r.below(7));
            static const char* const un[] = {"unary -", "~", "!", "++x", "x++", "--x", "x--"};
            what = un[u];
            c.note(cat(what, " ", txt(p.v[a])));
            c.see(uint64_t(u) * 11 + 3);
            DynamicData& x = *p.d[a];
            const T v = p.v[a];
            if (u == 2)
            {
                if constexpr (std::is_floating_point<T>::value)
                {
                    if (!refused([&] { (void)!x; })) { wrong("not-refused", "the operator does not exist for this type and is not refused"); }
                    c.count("operators.refused");
                }
                else
                {
                    bool got = !x;
                    if (got != !v) { wrong("result", cat("gives ", got)); }
                    c.count("operators.compared");
                }
            }
            else if (u < 2)
            {
                bool exists = num<T> && std::is_signed<T>::value && (u == 0 || num_int<T>);
                if (!exists)
                {
                    if (!refused([&] { if (u == 0) { (void)-x; } else { (void)~x; } })) { wrong("not-refused", "the operator does not exist for this type and is not refused"); }
                    c.count("operators.refused");
                }
                else
                {
                    if constexpr (num_int<T> && std::is_signed<T>::value)
                    {
                        using P = decltype(-v);
                        if (u == 0 && P(v) == std::numeric_limits<P>::min()) { continue; }
                        res = u == 0 ? T(-P(v)) : T(~P(v));
                    }
                    else if constexpr (std::is_floating_point<T>::value) { res = -v; }
                    DynamicData got = u == 0 ? -x : ~x;
                    if (got.type().kind() != type.kind()) { wrong("result-type", cat("gives a ", got.type().name())); }
                    if (!same_value(T(got.template value<T>()), res)) { wrong("result", cat("gives ", txt(T(got.template value<T>())), " instead of ", txt(res))); }
                    c.count("operators.compared");
                }
            }
            else
            {
                bool up = u == 3 || u == 4, post = u == 4 || u == 6;
                if constexpr (num_int<T>)
                {
                    Eval e = eval<T>(up ? ADD : SUB, v, T(1), res, truth);
                    if (e == Eval::UNDEFINED) { continue; }
                    if (post)
                    {
                        // documented to give the incremented data
                        DynamicData got = up ? x++ : x--;
                        if (got.type().kind() != type.kind()) { wrong("result-type", cat("gives a ", got.type().name())); }
                        if (!same_value(T(got.template value<T>()), res)) { wrong("result", cat("gives ", txt(T(got.template value<T>())), " instead of ", txt(res))); }
                    }
                    else
                    {
                        DynamicData& got = up ? ++x : --x;
                        if (&got != &x) { wrong("result-type", "does not give its operand"); }
                    }
                    p.v[a] = res;
                    c.count("operators.compared");
                }
                else
                {
                    if (!refused([&] { if (u == 3) { ++x; } else if (u == 4) { x++; } else if (u == 5) { --x; } else { x--; } }))
                    {
                        wrong("not-refused", "the operator does not exist for this type and is not refused");
                    }
                    c.count("operators.refused");
                }
            }
        }
        else                    // right operand of another kind
        {
            K k2 = K(r.below(WC + 1));
            int op = int(r.below(NOPS));
            if (k2 == k || !has<T>(op)) { continue; }
            bool assign = op < LAND && r.chance(50);
            what = cat(NAMES[op], assign ? "=" : "");
            c.see(uint64_t(op) * 13 + uint64_t(k2) * 29 + 4);
            with_prim(k2, [&](auto tag)
            {
                using T2 = typename decltype(tag)::type;
                T2 y = gen<T2>(r, k2);
                c.note(cat(what, " ", txt(p.v[a]), " of ", kname(k2), " ", txt(y)));
                DynamicData o = make<T2>(k2, y);
                bool no = refused([&]
                {
                    if (op >= LAND) { apply_truth(op, *p.d[a], o); }
                    else if (assign) { apply_assign(op, *p.d[a], o); }
                    else { apply(op, *p.d[a], o); }
                });
                // && and || may not look at the right operand
                bool lazy = (op == LAND && !p.v[a]) || (op == LOR && p.v[a]);
                if (!no && !lazy) { wrong("mixed", cat("is applied to a ", kname(k2), " without being refused")); }
                T2 left = o.value<T2>();
                if (!same_value(left, y)) { wrong("mixed", "changes its right operand"); }
            });
            c.count("operators.refused");
        }
        p.check(c, what);
        for (size_t i = 0; i < n; ++i)
        {
            if (p.d[i]->type().kind() != type.kind()) { c.die("operand-type", cat("after ", what, " the type of an operand is ", p.d[i]->type().name())); }
        }
    }
    c.nontrivial = true;
}

} // namespace

MON_WORKLOAD(op_program)
{
    K k = K(c.rng.below(WC + 1));
    with_prim(k, [&](auto tag) { program<typename decltype(tag)::type>(c, k); });
}

// Types without operators: strings (only !), enumerations, collections and aggregations.
MON_WORKLOAD(op_others)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = 2;
    static const int kinds[] = {E8, E16, E32, STR, WSTR, STR16, ARR, SEQ, MAP, STRUCT, UNION};
    K k = K(kinds[r.below(11)]);
    o.root = k;
    TDp t = gen_type(r, o);
    V v = gen_value(r, *t, o);
    std::unique_ptr<DynamicData> d(mk(*t, v, r)), e(mk(*t, v, r));
    c.see(sig(*t));
    const TD& rt = t->res();
    for (int s = 0; s < 8; ++s)
    {
        int op = int(r.below(NOPS + 7));
        bool no = false;
        bool got = false;
        const char* what = op < NOPS ? NAMES[op] : "unary";
        c.note(cat(what, " on ", kname(rt.k)));
        bool assign = op < LAND && r.chance(50);
        bool value = op < NOPS && r.chance(15);
        bool neg = op == NOPS + 2;
        try
        {
            if (op < NOPS && value)
            {
                if (op >= LAND) { continue; }
                apply_assign_value<uint64_t>(op, *d, uint64_t(3));
            }
            else if (op < NOPS)
            {
                if (op >= LAND) { apply_truth(op, *d, *e); }
                else if (assign) { apply_assign(op, *d, *e); }
                else { apply(op, *d, *e); }
            }
            else
            {
                switch (op - NOPS)
                {
                    case 0: (void)-*d; break;
                    case 1: (void)~*d; break;
                    case 2: got = !*d; break;
                    case 3: ++*d; break;
                    case 4: (*d)++; break;
                    case 5: --*d; break;
                    default: (*d)--; break;
                }
            }
        }
        catch (const std::exception&) { no = true; }
        if (neg && is_string(rt.k))
        {
            bool empty = rt.k == STR ? v.s.empty() : rt.k == WSTR ? v.w.empty() : v.u.empty();
            if (no || got != empty) { c.die(cat("not:", kname(rt.k)), cat("! on ", show(*t, v), no ? " is refused" : " is wrong")); }
            c.count("operators.compared");
        }
        else
        {
            if (!no) { c.die(cat("not-refused:", what, ":", kname(rt.k)), cat(what, assign ? "=" : "", " is not refused for ", show(*t))); }
            c.count("operators.refused");
        }
        std::string bad = check(*d, *t, v, r);
        if (bad.empty()) { bad = check(*e, *t, v, r); }
        if (!bad.empty()) { c.die(cat("operand:", what, ":", kname(rt.k)), cat("changed by a refused ", what, ": ", bad)); }
    }
    c.nontrivial = true;
}
