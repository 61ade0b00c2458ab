#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <cassert>
#include <limits>

namespace mdl {

const char* kname(K k)
{
    static const char* n[] = {"bool","i8","u8","i16","u16","i32","u32","i64","u64","f32","f64","f128","c8","c16","wc",
        "enum8","enum16","enum32","string","wstring","string16","array","sequence","map","struct","union","alias","pair"};
    return n[k];
}

std::vector<const Mem*> TD::all() const
{
    std::vector<const Mem*> r;
    if (parent) { r = parent->res().all(); }
    for (auto& m : mem) { r.push_back(&m); }
    return r;
}

// ------------------------------------------------------------------ building real types
static const DynamicType& prim_type(K k)
{
    return *with_prim(k, [](auto tag) -> const DynamicType*
            { return &primitive_type<typename decltype(tag)::type>(); });
}

template<class E>
static std::shared_ptr<DynamicType> build_enum(const TD& t)
{
    auto p = std::make_shared<EnumerationType<E>>(t.name);
    for (size_t i = 0; i < t.enums.size(); ++i)
    {
        if (i < t.enum_implicit.size() && t.enum_implicit[i]) { p->add_enumerator(t.enums[i].first); }
        else { p->add_enumerator(t.enums[i].first, E(t.enums[i].second)); }
    }
    return p;
}

// calls f with a temporary copy of the type as an object of its class; false: there is none
template<class F>
static bool as_temporary(const TD& t, F f)
{
    const DynamicType* p = t.k == STRUCT || t.k == UNION || t.k == SEQ || t.k == ARR || t.k == MAP || t.k == ALIAS ? &real(t) : nullptr;
    switch (t.k)
    {
        case STR: f(StringType(int(t.n))); return true;
        case WSTR: f(WStringType(int(t.n))); return true;
        case STR16: f(String16Type(int(t.n))); return true;
        case STRUCT: f(StructType(static_cast<const StructType&>(*p))); return true;
        case UNION: f(UnionType(static_cast<const UnionType&>(*p))); return true;
        case SEQ: f(SequenceType(static_cast<const SequenceType&>(*p))); return true;
        case ARR: f(ArrayType(static_cast<const ArrayType&>(*p))); return true;
        case MAP: f(MapType(static_cast<const MapType&>(*p))); return true;
        default: return false;
    }
}

// the same type can be built in several ways: with temporaries, with all the dimensions at once
static bool other_way(const TD& t, uint64_t salt) { return (mon::mix64(sig(t), salt) >> 7) % 2 == 0; }

static std::shared_ptr<DynamicType> build_otherwise(const TD& t)
{
    std::shared_ptr<DynamicType> p;
    switch (t.k)
    {
        case ARR:
        {
            if (t.a->k == ARR && other_way(t, 3))
            {
                std::vector<uint32_t> dims;
                const TD* q = &t;
                while (q->k == ARR) { dims.push_back(q->n); q = q->a.get(); }
                p = std::make_shared<ArrayType>(real(*q), dims);
                break;
            }
            if (other_way(t, 5) && (t.a->k != ARR)) { p = std::make_shared<ArrayType>(real(*t.a), std::vector<uint32_t>{t.n}); break; }
            as_temporary(*t.a, [&](auto&& x) { p = std::make_shared<ArrayType>(std::move(x), t.n); });
            break;
        }
        case SEQ: as_temporary(*t.a, [&](auto&& x) { p = std::make_shared<SequenceType>(std::move(x), t.n); }); break;
        case MAP:
            if (t.a->k == STR && t.b->k == STR) { p = std::make_shared<MapType>(StringType(int(t.a->n)), StringType(int(t.b->n)), t.n); }
            break;
        default: break;
    }
    return p;
}

std::shared_ptr<DynamicType> build_fresh(const TD& t)
{
    if (other_way(t, 1)) { if (auto p = build_otherwise(t)) { return p; } }
    switch (t.k)
    {
        case E8: return build_enum<uint8_t>(t);
        case E16: return build_enum<uint16_t>(t);
        case E32: return build_enum<uint32_t>(t);
        case STR: return std::make_shared<StringType>(t.n);
        case WSTR: return std::make_shared<WStringType>(t.n);
        case STR16: return std::make_shared<String16Type>(t.n);
        case ARR: return std::make_shared<ArrayType>(real(t.a), t.n);
        case SEQ: return t.n ? std::make_shared<SequenceType>(real(t.a), t.n) : std::make_shared<SequenceType>(real(t.a));
        case MAP: return t.n ? std::make_shared<MapType>(real(t.a), real(t.b), t.n) : std::make_shared<MapType>(real(t.a), real(t.b));
        case PAIR: return std::make_shared<PairType>(real(t.a), real(t.b));
        case ALIAS: return std::make_shared<AliasType>(real(t.a), t.name);
        case STRUCT:
        {
            std::shared_ptr<StructType> s;
            if (t.parent) { s = std::make_shared<StructType>(t.name, static_cast<const StructType*>(&real(t.parent))); }
            else { s = std::make_shared<StructType>(t.name); }
            for (auto& m : t.mem)
            {
                const bool temp = other_way(*m.type, 9);
                if (m.id < 0 && !m.key && !m.opt)
                {
                    if (!temp || !as_temporary(*m.type, [&](auto&& x) { s->add_member(m.name, std::move(x)); })) { s->add_member(m.name, real(m.type)); }
                    continue;
                }
                auto marked = [&](Member&& mm)
                    {
                        if (m.id >= 0) { mm.id(m.id); }
                        if (m.key) { mm.key(); }
                        if (m.opt) { mm.optional(); }
                        s->add_member(mm);
                    };
                if (!temp || !as_temporary(*m.type, [&](auto&& x) { marked(Member(m.name, std::move(x))); })) { marked(Member(m.name, real(m.type))); }
            }
            return s;
        }
        case UNION:
        {
            auto u = std::make_shared<UnionType>(t.name, real(t.a));
            K dk = t.a->res().k;
            for (auto& m : t.mem)
            {
                if (m.id < 0 && dk != BOOL && other_way(*m.type, 11))
                {
                    if (!as_temporary(*m.type, [&](auto&& x) { u->add_case_member(m.labels, m.name, std::move(x), m.is_default); })) { u->add_case_member(m.labels, m.name, real(m.type), m.is_default); }
                    continue;
                }
                Member mm(m.name, real(m.type));
                if (m.id >= 0) { mm.id(m.id); }
                if (dk == BOOL)
                {
                    std::vector<bool> l(m.labels.begin(), m.labels.end());
                    u->add_case_member<bool>(l, mm, m.is_default);
                }
                else { u->add_case_member<int64_t>(m.labels, mm, m.is_default); }
            }
            return u;
        }
        default: abort();
    }
}

const DynamicType& real(const TD& t)
{
    if (is_prim(t.k)) { return prim_type(t.k); }
    if (!t.dt)
    {
        auto p = build_fresh(t);
        TD& mt = const_cast<TD&>(t);
        if (t.pooled) { mt.dt = p; }
        else
        {
            // object not managed by a shared_ptr of its own kind: shared_from_this() fails, the library must clone
            switch (t.k)
            {
#define PLAIN(CLS) { CLS* q = new CLS(static_cast<const CLS&>(*p)); mt.dt = std::shared_ptr<DynamicType>(std::make_shared<std::unique_ptr<CLS>>(q), q); break; }
                case STRUCT: PLAIN(StructType)
                case UNION: PLAIN(UnionType)
                case SEQ: PLAIN(SequenceType)
                case ARR: PLAIN(ArrayType)
                case MAP: PLAIN(MapType)
                case STR: PLAIN(StringType)
                default: mt.dt = p; break;
            }
        }
    }
    return *t.dt;
}
const DynamicType& real(const TDp& t) { return real(*t); }

TDp clone_desc(const TDp& t)
{
    if (!t) { return nullptr; }
    auto n = std::make_shared<TD>(*t);
    n->dt.reset();
    n->a = clone_desc(t->a); n->b = clone_desc(t->b); n->parent = clone_desc(t->parent);
    for (auto& m : n->mem) { m.type = clone_desc(m.type); }
    return n;
}

std::string show(const TD& t)
{
    if (is_prim(t.k)) { return kname(t.k); }
    std::ostringstream o;
    o << kname(t.k);
    if (is_enum(t.k))
    {
        o << " " << t.name << "{";
        for (auto& e : t.enums) { o << e.first << "=" << e.second << ","; }
        o << "}";
        return o.str();
    }
    if (is_string(t.k)) { if (t.n) { o << "<" << t.n << ">"; } return o.str(); }
    switch (t.k)
    {
        case ARR: o << "[" << t.n << "](" << show(*t.a) << ")"; break;
        case SEQ: o << "<" << t.n << ">(" << show(*t.a) << ")"; break;
        case MAP: o << "<" << t.n << ">(" << show(*t.a) << "," << show(*t.b) << ")"; break;
        case PAIR: o << "(" << show(*t.a) << "," << show(*t.b) << ")"; break;
        case ALIAS: o << " " << t.name << "=(" << show(*t.a) << ")"; break;
        case STRUCT:
            o << " " << t.name;
            if (t.parent) { o << ":" << show(*t.parent); }
            o << "{";
            for (auto& m : t.mem) { o << m.name << ":" << show(*m.type) << ";"; }
            o << "}";
            break;
        case UNION:
            o << " " << t.name << "(" << show(*t.a) << "){";
            for (auto& m : t.mem)
            {
                for (auto l : m.labels) { o << l << ","; }
                if (m.is_default) { o << "default"; }
                o << "->" << m.name << ":" << show(*m.type) << ";";
            }
            o << "}";
            break;
        default: break;
    }
    return o.str();
}

uint64_t sig(const TD& t)
{
    uint64_t h = mon::mix64(uint64_t(t.k) + 1, t.n);
    if (t.a) { h = mon::mix64(h, sig(*t.a)); }
    if (t.b) { h = mon::mix64(h, sig(*t.b)); }
    if (t.parent) { h = mon::mix64(h, sig(*t.parent)); }
    for (auto& m : t.mem) { h = mon::mix64(h, sig(*m.type) + m.labels.size()); }
    return mon::mix64(h, t.enums.size());
}

size_t ref_size(const TD& t)
{
    if (is_flat(t.k)) { return with_prim(t.k, [](auto tag) { return sizeof(typename decltype(tag)::type); }); }
    switch (t.k)
    {
        case STR: return sizeof(std::string);
        case WSTR: return sizeof(std::wstring);
        case STR16: return sizeof(std::u16string);
        case ARR: return t.n * ref_size(*t.a);
        case ALIAS: return ref_size(*t.a);
        case PAIR: return ref_size(*t.a) + ref_size(*t.b);
        case SEQ: return real(t).memory_size();
        case MAP: return real(t).memory_size();
        case STRUCT: { size_t n = 0; for (auto m : t.all()) { n += ref_size(*m->type); } return n; }
        case UNION: { size_t n = 0; for (auto& m : t.mem) { n = std::max(n, ref_size(*m.type)); } return n + ref_size(*t.a); }
        default: return 0;
    }
}

// ------------------------------------------------------------------ values
V default_value(const TD& t0)
{
    const TD& t = t0.res();
    V v;
    switch (t.k)
    {
        case ARR: v.e.assign(t.n, default_value(*t.a)); break;
        case STRUCT: for (auto m : t.all()) { v.e.push_back(default_value(*m->type)); } break;
        case PAIR: v.e.push_back(default_value(*t.a)); v.e.push_back(default_value(*t.b)); break;
        case UNION:
            for (size_t i = 0; i < t.mem.size(); ++i)
            {
                if (t.mem[i].is_default)
                {
                    v.active = int(i);
                    v.e.push_back(default_value(*t.mem[i].type));
                }
            }
            break;
        default: break;
    }
    return v;
}

std::string ser(const TD& t0, const V& v)
{
    const TD& t = t0.res();
    std::string o;
    auto num = [&](uint64_t n) { o.append(reinterpret_cast<const char*>(&n), 8); };
    if (is_flat(t.k)) { o.assign(reinterpret_cast<const char*>(v.raw), 16); return o; }
    switch (t.k)
    {
        case STR: num(v.s.size()); o += v.s; break;
        case WSTR: num(v.w.size()); o.append(reinterpret_cast<const char*>(v.w.data()), v.w.size() * sizeof(wchar_t)); break;
        case STR16: num(v.u.size()); o.append(reinterpret_cast<const char*>(v.u.data()), v.u.size() * 2); break;
        case ARR: case SEQ: num(v.e.size()); for (auto& x : v.e) { o += ser(*t.a, x); } break;
        case PAIR: o += ser(*t.a, v.e[0]); o += ser(*t.b, v.e[1]); break;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { o += ser(*ms[i]->type, v.e[i]); } break; }
        case MAP:
        {
            std::map<std::string, std::string> s;
            for (auto& p : v.m) { s[ser(*t.a, p.first)] = ser(*t.b, p.second); }
            num(s.size());
            for (auto& p : s) { o += p.first; o += p.second; }
            break;
        }
        case UNION:
            num(uint64_t(v.active));
            if (v.active >= 0) { if (v.label_known) { num(uint64_t(v.label)); } o += ser(*t.mem[size_t(v.active)].type, v.e[0]); }
            break;
        default: break;
    }
    return o;
}
bool same(const TD& t, const V& a, const V& b) { return ser(t, a) == ser(t, b); }

std::string show(const TD& t0, const V& v)
{
    const TD& t = t0.res();
    std::ostringstream o;
    if (is_flat(t.k))
    {
        with_prim(t.k, [&](auto tag)
            {
                using T = typename decltype(tag)::type;
                if constexpr (std::is_floating_point<T>::value) { o << v.get<T>(); }
                else if constexpr (std::is_signed<T>::value) { o << int64_t(v.get<T>()); }
                else { o << uint64_t(v.get<T>()); }
            });
        return o.str();
    }
    switch (t.k)
    {
        case STR: o << '"'; for (unsigned char c : v.s) { if (c >= 32 && c < 127) o << char(c); else o << "\\x" << std::hex << int(c) << std::dec; } o << '"'; break;
        case WSTR: o << "L["; for (auto c : v.w) { o << std::hex << uint32_t(c) << std::dec << " "; } o << "]"; break;
        case STR16: o << "u["; for (auto c : v.u) { o << std::hex << uint32_t(c) << std::dec << " "; } o << "]"; break;
        case ARR: case SEQ: o << "["; for (auto& x : v.e) { o << show(*t.a, x) << ","; } o << "]"; break;
        case PAIR: o << "(" << show(*t.a, v.e[0]) << "," << show(*t.b, v.e[1]) << ")"; break;
        case STRUCT: { o << "{"; auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { o << show(*ms[i]->type, v.e[i]) << ","; } o << "}"; break; }
        case MAP: o << "{"; for (auto& p : v.m) { o << show(*t.a, p.first) << ":" << show(*t.b, p.second) << ","; } o << "}"; break;
        case UNION: o << "<" << v.active; if (v.label_known) { o << "@" << v.label; } if (v.active >= 0) { o << ":" << show(*t.mem[size_t(v.active)].type, v.e[0]); } o << ">"; break;
        default: break;
    }
    std::string s = o.str();
    if (s.size() > 600) { s = s.substr(0, 600) + "..."; }
    return s;
}

size_t count_leaves(const TD& t0, const V& v)
{
    const TD& t = t0.res();
    size_t n = 0;
    switch (t.k)
    {
        case ARR: case SEQ: for (auto& x : v.e) { n += count_leaves(*t.a, x); } return n;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { n += count_leaves(*ms[i]->type, v.e[i]); } return n; }
        case MAP: for (auto& p : v.m) { n += count_leaves(*t.a, p.first) + count_leaves(*t.b, p.second); } return n;
        case UNION: return v.active < 0 ? 0 : count_leaves(*t.mem[size_t(v.active)].type, v.e[0]);
        default: return 1;
    }
}

V clip_text(const TD& t0, V v)
{
    const TD& t = t0.res();
    if (t.n)
    {
        if (v.s.size() > t.n) { v.s.resize(t.n); }
        if (v.w.size() > t.n) { v.w.resize(t.n); }
        if (v.u.size() > t.n) { v.u.resize(t.n); }
    }
    return v;
}

// ------------------------------------------------------------------ generation
std::string fresh_name(Rng& r, const char* prefix)
{
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    std::string s = prefix;
    int n = r.chance(10) ? 20 : 4;
    for (int i = 0; i < n; ++i) { s += al[r.below(sizeof al - 1)]; }
    return s;
}
TDp mk_prim(K k) { auto t = std::make_shared<TD>(); t->k = k; return t; }

V gen_prim(Rng& r, K k, bool fpspecial)
{
    V v;
    with_prim(k, [&](auto tag)
        {
            using T = typename decltype(tag)::type;
            if constexpr (std::is_same<T, bool>::value) { v.set<bool>(r.chance(50)); }
            else if constexpr (std::is_floating_point<T>::value)
            {
                switch (r.below(fpspecial ? 9 : 6))
                {
                    case 0: v.set<T>(T(r.range(-100, 100)) / T(4) + T(0)); break;
                    case 1: v.set<T>(std::numeric_limits<T>::max()); break;
                    case 2: v.set<T>(std::numeric_limits<T>::lowest()); break;
                    case 3: v.set<T>(T(int64_t(r.next())) / T(3)); break;
                    case 4: v.set<T>(std::numeric_limits<T>::min()); break;
                    case 5: v.set<T>(T(1) + std::numeric_limits<T>::epsilon()); break;
                    case 6: v.set<T>(-T(0)); break;
                    case 7: v.set<T>(std::numeric_limits<T>::quiet_NaN()); break;
                    case 8: v.set<T>(-std::numeric_limits<T>::infinity()); break;
                }
            }
            else
            {
                switch (r.below(6))
                {
                    case 0: v.set<T>(std::numeric_limits<T>::max()); break;
                    case 1: v.set<T>(std::numeric_limits<T>::min()); break;
                    case 2: v.set<T>(T(-1)); break;
                    case 3: v.set<T>(T(r.below(5))); break;
                    default: v.set<T>(T(r.next())); break;
                }
            }
        });
    return v;
}

V gen_enum(Rng& r, const TD& t)
{
    V v;
    if (t.enums.empty()) { return v; }
    uint32_t x = t.enums[r.below(t.enums.size())].second;
    if (t.k == E8) { v.set<uint8_t>(uint8_t(x)); }
    else if (t.k == E16) { v.set<uint16_t>(uint16_t(x)); }
    else { v.set<uint32_t>(x); }
    return v;
}

V gen_text(Rng& r, const TD& t0, size_t max_len)
{
    const TD& t = t0.res();
    V v;
    size_t len;
    switch (r.below(7))
    {
        case 0: len = 0; break;
        case 1: len = t.n ? t.n : 15; break;
        case 2: len = t.n ? t.n + 1 : 16; break;
        case 3: len = t.n ? t.n - 1 : 14; break;
        case 4: len = t.n ? t.n + r.below(30) : 30 + r.below(10); break;
        default: len = r.below(max_len); break;
    }
    for (size_t i = 0; i < len; ++i)
    {
        uint64_t x = r.next();
        int cls = int(r.below(12));
        uint32_t c = cls == 0 ? 0 : cls < 9 ? uint32_t('a' + x % 26) : uint32_t(x);
        if (t.k == STR) { v.s += char(c); }
        else if (t.k == WSTR) { v.w += wchar_t(c); }
        else { v.u += char16_t(c); }
    }
    return v;
}

int64_t disc_default(const TD& disc)
{
    switch (ref_size(disc.res()))
    {
        case 1: return 0x7f;
        case 2: return 0x7fff;
        case 4: return 0x7fffffff;
        default: return 0x7fffffffffffffffLL;
    }
}

static TDp gen_enum_type(Rng& r)
{
    auto t = std::make_shared<TD>();
    t->k = K(E8 + r.below(3));
    t->name = fresh_name(r, "E");
    int n = r.range(1, 6);
    uint32_t next = 0;
    uint32_t top = t->k == E8 ? 0xff : t->k == E16 ? 0xffff : 0xffffffffu;
    for (int i = 0; i < n; ++i)
    {
        bool imp = r.chance(50);
        uint32_t val = next;
        if (!imp)
        {
            if (r.chance(25)) { val += uint32_t(r.below((uint64_t(top) - val + 1) >> r.below(3))); }
            else if (r.chance(4)) { val = top; }
            else { val = uint32_t(std::min<uint64_t>(top, uint64_t(val) + r.below(5))); }
        }
        t->enums.push_back({fresh_name(r, "e") + std::to_string(i), val});
        t->enum_implicit.push_back(imp);
        if (val >= top) { break; }
        next = val + 1;
    }
    return t;
}

static K gen_prim_kind(Rng& r, const GenOpt& o)
{
    for (;;)
    {
        K k = K(r.below(WC + 1));
        if (k == F128 && !o.f128) { continue; }
        return k;
    }
}

static TDp gen(Rng& r, const GenOpt& o, int depth, int force = -1);

static std::string ident(Rng& r, std::set<std::string>& used)
{
    for (;;)
    {
        std::string s = fresh_name(r, r.chance(20) ? "_" : "m");
        if (used.insert(s).second) { return s; }
    }
}

static int64_t gen_label(Rng& r, const TD& d)
{
    if (is_enum(d.k)) { return int64_t(d.enums[r.below(d.enums.size())].second); }
    switch (d.k)
    {
        case BOOL: return int64_t(r.below(2));
        case I8: return r.chance(60) ? r.range(-4, 4) : int8_t(r.next());
        case U8: return r.chance(60) ? r.range(0, 6) : uint8_t(r.next());
        case C8: return r.chance(70) ? r.range('a', 'z') : int64_t(char(r.next()));
        case I16: return r.chance(60) ? r.range(-4, 4) : int16_t(r.next());
        case U16: return r.chance(60) ? r.range(0, 6) : uint16_t(r.next());
        case C16: return r.chance(50) ? r.range(0, 6) : r.chance(50) ? r.range(' ', '~') : uint16_t(r.next());
        case WC: return r.chance(40) ? r.range(-4, 4) : r.chance(60) ? r.range(' ', r.chance(50) ? '~' : 0x10FFFF) : int32_t(r.next());
        case I32: return r.chance(60) ? r.range(-4, 4) : int32_t(r.next());
        case U32: return r.chance(60) ? r.range(0, 6) : int64_t(uint32_t(r.next()));
        case I64: return r.chance(60) ? r.range(-4, 4) : int64_t(r.next());
        case U64: return r.chance(60) ? r.range(0, 6) : int64_t(r.next());
        default: return 0;
    }
}

static TDp gen_union(Rng& r, const GenOpt& o, int depth)
{
    auto t = std::make_shared<TD>();
    t->k = UNION;
    t->name = fresh_name(r, "U");
    static const K ds[] = {BOOL, I8, U8, I16, U16, I32, U32, I64, U64, C8, C16, WC};
    if (o.enm && r.chance(20)) { t->a = gen_enum_type(r); }
    else
    {
        K k;
        do { k = ds[r.below(12)]; } while (k == BOOL && !o.bool_union);
        t->a = mk_prim(k);
    }
    if (o.alias && r.chance(20))
    {
        auto al = std::make_shared<TD>();
        al->k = ALIAS; al->name = fresh_name(r, "Al"); al->a = t->a;
        t->a = al;
        if (r.chance(30))
        {
            auto again = std::make_shared<TD>();
            again->k = ALIAS; again->name = fresh_name(r, "Al"); again->a = t->a;
            t->a = again;
        }
    }
    const TD& d = t->a->res();
    std::set<int64_t> used;
    used.insert(disc_default(d));
    used.insert(disc_default(d) - 1);
    std::set<std::string> names;
    int n = r.range(1, o.max_members);
    bool has_default = false;
    for (int i = 0; i < n; ++i)
    {
        Mem m;
        m.name = ident(r, names);
        m.type = gen(r, o, depth - 1);
        int nl = r.range(1, 3);
        for (int j = 0; j < nl; ++j)
        {
            int64_t l = gen_label(r, d);
            if (used.insert(l).second) { m.labels.push_back(l); }
        }
        if (!has_default && r.chance(d.k == BOOL ? 0 : 25)) { m.is_default = true; has_default = true; }
        if (m.labels.empty() && !m.is_default)
        {
            if (!has_default && d.k != BOOL) { m.is_default = true; has_default = true; }
            else { continue; }
        }
        if (r.chance(10)) { m.id = r.range(0, 1000); }
        if (m.is_default && r.chance(40)) { for (auto l : m.labels) { used.erase(l); } m.labels.clear(); }
        t->mem.push_back(m);
    }
    if (t->mem.empty())
    {
        Mem m; m.name = "only"; m.type = mk_prim(I32); m.labels = {int64_t(d.k == BOOL ? 1 : 'b')};
        if (is_enum(d.k)) { m.labels.clear(); m.is_default = true; }
        t->mem.push_back(m);
    }
    return t;
}

static TDp gen_struct(Rng& r, const GenOpt& o, int depth, bool allow_parent = true)
{
    auto t = std::make_shared<TD>();
    t->k = STRUCT;
    t->name = fresh_name(r, "S");
    std::set<std::string> names;
    if (allow_parent && o.inherit && r.chance(15))
    {
        t->parent = gen_struct(r, o, depth - 1, r.chance(40));
        for (auto m : t->parent->all()) { names.insert(m->name); }
    }
    int n = r.range(t->parent ? 0 : 1, o.max_members);
    for (int i = 0; i < n; ++i)
    {
        Mem m;
        m.name = ident(r, names);
        m.type = gen(r, o, depth - 1);
        if (r.chance(15)) { m.id = r.range(0, 100000); }
        m.key = r.chance(10);
        m.opt = r.chance(10);
        t->mem.push_back(m);
    }
    return t;
}

TDp gen_key_type(Rng& r, const GenOpt& o)
{
    GenOpt q = o;
    q.depth = 1; q.fpspecial = false; q.map = false; q.max_members = 3; q.max_dim = 3;
    switch (r.below(12))
    {
        case 0: case 1: case 2: { auto t = std::make_shared<TD>(); t->k = K(STR + r.below(3)); t->n = r.chance(50) ? 0 : uint32_t(r.range(3, 12)); if (!o.str) { t->k = I32; t->n = 0; } return t; }
        case 3: if (o.enm) { return gen_enum_type(r); } break;
        case 4: if (o.stru) { return gen(r, q, 2, STRUCT); } break;
        case 5: if (o.arr) { return gen(r, q, 2, ARR); } break;
        case 6: if (o.seq) { return gen(r, q, 2, SEQ); } break;
        case 7: if (o.uni) { return gen(r, q, 2, UNION); } break;
        case 8: if (o.alias) { auto t = std::make_shared<TD>(); t->k = ALIAS; t->name = fresh_name(r, "KA"); t->a = gen_key_type(r, o); return t; } break;
        default: break;
    }
    K k;
    do { k = gen_prim_kind(r, o); } while (k == BOOL && r.chance(80));
    return mk_prim(k);
}

static TDp gen(Rng& r, const GenOpt& o, int depth, int force)
{
    int k = force;
    if (k < 0)
    {
        if (depth <= 0)
        {
            int w = int(r.below(10));
            if (w < 2 && o.str) { k = STR + int(r.below(3)); }
            else if (w < 3 && o.enm) { k = E32; }
            else { k = gen_prim_kind(r, o); }
        }
        else
        {
            std::vector<int> w = {30, o.enm ? 6 : 0, o.str ? 14 : 0, o.arr ? 11 : 0, o.seq ? 13 : 0, o.map ? 9 : 0, o.stru ? 15 : 0, o.uni ? 11 : 0, o.alias ? 8 : 0, o.pair ? 4 : 0};
            static const int ks[] = {I32, E32, STR, ARR, SEQ, MAP, STRUCT, UNION, ALIAS, PAIR};
            int i = r.weighted(w);
            k = ks[i];
            if (i == 0) { k = gen_prim_kind(r, o); }
            if (i == 2) { k = STR + int(r.below(3)); }
        }
    }
    if (is_prim(K(k))) { return mk_prim(K(k)); }
    TDp t;
    switch (k)
    {
        case E8: case E16: case E32: t = gen_enum_type(r); break;
        case STRUCT: t = gen_struct(r, o, depth); break;
        case UNION: t = gen_union(r, o, depth); break;
        default:
            t = std::make_shared<TD>();
            t->k = K(k);
            switch (k)
            {
                case STR: case WSTR: case STR16: t->n = r.chance(45) ? 0 : r.chance(20) ? uint32_t(r.range(15, 40)) : uint32_t(r.range(1, int(o.max_bound))); break;
                case ARR: t->n = uint32_t(r.range(1, int(o.max_dim))); t->a = gen(r, o, depth - 1); break;
                case SEQ: t->n = r.chance(50) ? 0 : uint32_t(r.range(1, int(o.max_bound))); t->a = gen(r, o, depth - 1); break;
                case MAP: t->n = r.chance(55) ? 0 : uint32_t(r.range(1, int(o.max_bound))); t->a = gen_key_type(r, o); t->b = gen(r, o, depth - 1); break;
                case ALIAS: t->name = fresh_name(r, "Al"); t->a = gen(r, o, depth - 1); break;
                case PAIR: t->a = gen_key_type(r, o); t->b = gen(r, o, depth - 1); break;
            }
    }
    t->pooled = r.chance(60);
    return t;
}

TDp gen_type(Rng& r, const GenOpt& o) { return gen(r, o, o.depth, o.root); }

V gen_value(Rng& r, const TD& t0, const GenOpt& o, int fillp)
{
    const TD& t = t0.res();
    V v = default_value(t);
    if (is_prim(t.k)) { return r.chance(fillp) ? gen_prim(r, t.k, o.fpspecial) : v; }
    if (is_enum(t.k)) { return r.chance(fillp) ? gen_enum(r, t) : v; }
    if (is_string(t.k)) { return r.chance(fillp) ? clip_text(t, gen_text(r, t)) : v; }
    switch (t.k)
    {
        case ARR: for (auto& x : v.e) { x = gen_value(r, *t.a, o, fillp); } break;
        case PAIR: v.e[0] = gen_value(r, *t.a, o, fillp); v.e[1] = gen_value(r, *t.b, o, fillp); break;
        case SEQ:
        {
            int mx = o.max_elems; if (o.big && r.chance(10)) { mx = 40; }
            if (t.n) { mx = std::min<int>(mx, int(t.n)); }
            int n = r.chance(fillp) ? r.range(0, mx) : 0;
            if (t.n && r.chance(15) && t.n < 12) { n = int(t.n); }
            for (int i = 0; i < n; ++i) { v.e.push_back(gen_value(r, *t.a, o, fillp)); }
            break;
        }
        case MAP:
        {
            int mx = o.max_elems; if (o.big && r.chance(10)) { mx = 30; }
            if (t.n) { mx = std::min<int>(mx, int(t.n)); }
            int n = r.chance(fillp) ? r.range(0, mx) : 0;
            if (t.n && r.chance(15) && t.n < 12) { n = int(t.n); }
            std::set<std::string> seen;
            GenOpt ko = o; ko.fpspecial = false;
            for (int i = 0; i < n; ++i)
            {
                V k = gen_value(r, *t.a, ko, 90);
                if (seen.insert(ser(*t.a, k)).second) { v.m.push_back({k, gen_value(r, *t.b, o, fillp)}); }
            }
            break;
        }
        case STRUCT:
        {
            auto ms = t.all();
            for (size_t i = 0; i < ms.size(); ++i) { v.e[i] = gen_value(r, *ms[i]->type, o, fillp); }
            break;
        }
        case UNION:
            if (r.chance(85))
            {
                v.active = int(r.below(t.mem.size()));
                v.e.assign(1, gen_value(r, *t.mem[size_t(v.active)].type, o, fillp));
                const Mem& m = t.mem[size_t(v.active)];
                if (!m.labels.empty()) { v.label_known = true; v.label = m.labels[r.below(m.labels.size())]; }
                else { v.label_known = true; v.label = disc_default(*t.a); }
            }
            else if (v.active >= 0 && !v.label_known)   // selected by default
            {
                const Mem& m = t.mem[size_t(v.active)];
                v.e.assign(1, gen_value(r, *m.type, o, fillp)); // without unknown labels inside
                v.label_known = true;
                v.label = m.labels.empty() ? disc_default(*t.a) : m.labels[r.below(m.labels.size())];
            }
            break;
        default: break;
    }
    return v;
}

// ------------------------------------------------------------------ real data access
int64_t disc_value(ReadableDynamicDataRef r, const TD& disc)
{
    K k = disc.res().k;
    return with_prim(k, [&](auto tag) -> int64_t
        {
            using T = typename decltype(tag)::type;
            if constexpr (std::is_floating_point<T>::value) { return 0; }
            else { return int64_t(r.value<T>()); }
        });
}

DynamicData mk_disc(const TD& disc, int64_t value)
{
    DynamicData d(real(disc));
    K k = disc.res().k;
    with_prim(k, [&](auto tag)
        {
            using T = typename decltype(tag)::type;
            if constexpr (!std::is_floating_point<T>::value) { d.value<T>(T(value)); }
        });
    return d;
}

void set_disc(WritableDynamicDataRef r, const TD& disc, int64_t value, Rng& rng)
{
    if (rng.chance(50) || is_enum(disc.res().k)) { r.d(value); }
    else
    {
        DynamicData d = mk_disc(disc, value);
        r.d(d);
    }
}

void assign_leaf(WritableDynamicDataRef ref, const TD& t0, const V& v, Rng& r)
{
    const TD& t = t0.res();
    if (is_prim(t.k))
    {
        with_prim(t.k, [&](auto tag)
            {
                using T = typename decltype(tag)::type;
                T x = v.get<T>();
                switch (r.below(3))
                {
                    case 0: ref = x; break;
                    case 1: ref.value<T>(x); break;
                    case 2: { DynamicData tmp(primitive_type<T>()); tmp = x; ref = tmp.ref(); break; }
                }
            });
        return;
    }
    if (is_enum(t.k))
    {
        with_prim(t.k, [&](auto tag)
            {
                using T = typename decltype(tag)::type;
                if constexpr (std::is_same<T, uint8_t>::value || std::is_same<T, uint16_t>::value || std::is_same<T, uint32_t>::value)
                {
                    T x = v.get<T>();
                    switch (r.below(3))
                    {
                        case 0: ref = x; break;
                        case 1: ref.value<T>(x); break;
                        case 2: { DynamicData tmp(real(t)); tmp = x; ref = tmp.ref(); break; }
                    }
                }
            });
        return;
    }
    switch (t.k)
    {
        case STR:
            if (r.chance(50)) { ref = v.s; } else { ref.value<std::string>(v.s); }
            break;
        case WSTR:
            if (r.chance(50)) { ref = v.w; } else { ref.value<std::wstring>(v.w); }
            break;
        case STR16:
            if (r.chance(50)) { ref = v.u; } else { ref.value<std::u16string>(v.u); }
            break;
        default: abort();
    }
}

template<class T> static void push_prim(WritableDynamicDataRef& s, const V& v) { s.push<T>(v.get<T>()); }

void fill(WritableDynamicDataRef ref, const TD& t0, const V& v, Rng& r)
{
    const TD& t = t0.res();
    if (is_enum(t.k))
    {
        bool declared = false;
        uint32_t x = t.k == E8 ? v.get<uint8_t>() : t.k == E16 ? v.get<uint16_t>() : v.get<uint32_t>();
        for (auto& e : t.enums) { declared |= e.second == x; }
        if (declared) { assign_leaf(ref, t, v, r); }
        return;
    }
    if (is_flat(t.k) || is_string(t.k)) { assign_leaf(ref, t, v, r); return; }
    switch (t.k)
    {
        case ARR: for (uint32_t i = 0; i < t.n; ++i) { fill(ref[i], *t.a, v.e[i], r); } break;
        case PAIR: fill(ref[0], *t.a, v.e[0], r); fill(ref[1], *t.b, v.e[1], r); break;
        case STRUCT:
        {
            auto ms = t.all();
            for (size_t i = 0; i < ms.size(); ++i)
            {
                if (r.chance(50)) { fill(ref[ms[i]->name], *ms[i]->type, v.e[i], r); }
                else { fill(ref[i], *ms[i]->type, v.e[i], r); }
            }
            break;
        }
        case SEQ:
            if (r.chance(30))
            {
                ref.resize(v.e.size());
                for (size_t i = 0; i < v.e.size(); ++i) { fill(ref[i], *t.a, v.e[i], r); }
            }
            else
            {
                K ck = t.a->res().k;
                // the typed push needs the element kind itself (aliases are compared by kind)
                bool direct = t.a->k != ALIAS && (is_prim(ck) || is_string(ck));
                for (auto& x : v.e)
                {
                    if (direct && r.chance(70))
                    {
                        if (is_prim(ck)) { with_prim(ck, [&](auto tag) { push_prim<typename decltype(tag)::type>(ref, x); }); }
                        else if (ck == STR) { ref.push<std::string>(x.s); }
                        else if (ck == WSTR) { ref.push<std::wstring>(x.w); }
                        else { ref.push<std::u16string>(x.u); }
                    }
                    else
                    {
                        DynamicData* d = mk(*t.a, x, r);
                        ref.push(*d);
                        delete d;
                    }
                }
            }
            break;
        case MAP:
            for (auto& p : v.m)
            {
                std::unique_ptr<DynamicData> key(mk(*t.a, p.first, r));
                fill(ref[*key], *t.b, p.second, r);
            }
            break;
        case UNION:
            if (v.active >= 0)
            {
                const Mem& m = t.mem[size_t(v.active)];
                fill(ref[m.name], *m.type, v.e[0], r);
                if (v.label_known && (!m.labels.empty() || m.is_default))
                {
                    bool is_label = std::find(m.labels.begin(), m.labels.end(), v.label) != m.labels.end();
                    if (is_label) { set_disc(ref, *t.a, v.label, r); }
                }
            }
            break;
        default: abort();
    }
}

DynamicData* mk(const TD& t, const V& v, Rng& r)
{
    std::unique_ptr<DynamicData> d(new DynamicData(real(t)));
    fill(d->ref(), t, v, r);
    return d.release();
}

template<class T, class S>
static std::string cmp_str(const ReadableDynamicDataRef& ref, const S& s, const TD& t, Rng& r, const std::string& path)
{
    const S& got = ref.value<S>();
    if (got != s) { return cat(path, ": string content differs, size ", got.size(), " expected ", s.size()); }
    if (ref.size() != s.size()) { return cat(path, ": size() ", ref.size(), " expected ", s.size()); }
    if (ref.bounds() != t.n) { return cat(path, ": bounds() ", ref.bounds()); }
    if (!s.empty())
    {
        size_t i = r.below(s.size());
        if (ref[i].template value<T>() != s[i]) { return cat(path, ": character ", i, " differs"); }
        if (r.chance(20))
        {
            size_t n = 0;
            for (auto&& c : ref) { if (c.template value<T>() != s[n++]) { return cat(path, ": iterated character differs"); } }
            if (n != s.size()) { return cat(path, ": iteration count"); }
        }
    }
    return "";
}

template<class T>
static std::string cmp_vector(const ReadableDynamicDataRef& ref, const V& v, const std::string& path)
{
    std::vector<T> x = ref.as_vector<T>();
    if (x.size() != v.e.size()) { return cat(path, ": as_vector size"); }
    for (size_t i = 0; i < x.size(); ++i)
    {
        if constexpr (std::is_same<T, bool>::value) { if (bool(x[i]) != v.e[i].get<bool>()) return cat(path, ": as_vector[", i, "]"); }
        else { T e = v.e[i].get<T>(); if (memcmp(&x[i], &e, std::is_same<T, long double>::value ? 10 : sizeof(T)) != 0) return cat(path, ": as_vector[", i, "]"); }
    }
    return "";
}

std::string check(const ReadableDynamicDataRef& ref, const TD& t0, V& v, Rng& r, const std::string& path)
{
    const TD& t = t0.res();
    std::string e;
    if (is_flat(t.k))
    {
        with_prim(t.k, [&](auto tag)
            {
                using T = typename decltype(tag)::type;
                T got;
                if (r.chance(50)) { got = ref.value<T>(); } else { T x = ref; got = x; }
                T exp = v.get<T>();
                if (memcmp(&got, &exp, std::is_same<T, long double>::value ? 10 : sizeof(T)) != 0)
                {
                    V gv; gv.set<T>(got);
                    e = cat(path, " (", kname(t.k), "): read ", show(t, gv), " expected ", show(t, v));
                }
            });
        return e;
    }
    switch (t.k)
    {
        case STR: return cmp_str<char>(ref, v.s, t, r, path);
        case WSTR: return cmp_str<wchar_t>(ref, v.w, t, r, path);
        case STR16: return cmp_str<char16_t>(ref, v.u, t, r, path);
        case PAIR:
            if (!(e = check(ref[0], *t.a, v.e[0], r, path + ".first")).empty()) { return e; }
            return check(ref[1], *t.b, v.e[1], r, path + ".second");
        case ARR: case SEQ:
        {
            if (ref.size() != v.e.size()) { return cat(path, ": size() ", ref.size(), " expected ", v.e.size()); }
            if (ref.bounds() != t.n) { return cat(path, ": bounds() ", ref.bounds(), " expected ", t.n); }
            if (r.chance(70))
            {
                for (size_t i = 0; i < v.e.size(); ++i)
                {
                    if (!(e = check(ref[i], *t.a, v.e[i], r, cat(path, "[", i, "]"))).empty()) { return e; }
                }
            }
            else
            {
                size_t i = 0;
                for (auto&& x : ref)
                {
                    if (i >= v.e.size()) { return cat(path, ": iteration too long"); }
                    if (!(e = check(x, *t.a, v.e[i], r, cat(path, "{", i, "}"))).empty()) { return e; }
                    ++i;
                }
                if (i != v.e.size()) { return cat(path, ": iteration visited ", i, " of ", v.e.size()); }
            }
            if (is_prim(t.a->k) && r.chance(30))
            {
                with_prim(t.a->k, [&](auto tag) { e = cmp_vector<typename decltype(tag)::type>(ref, v, path); });
                if (!e.empty()) { return e; }
            }
            if (t.a->k == STR && r.chance(30))
            {
                std::vector<std::string> x = ref.as_vector<std::string>();
                if (x.size() != v.e.size()) { return cat(path, ": as_vector<string> size"); }
                for (size_t i = 0; i < x.size(); ++i) { if (x[i] != v.e[i].s) { return cat(path, ": as_vector<string> content"); } }
            }
            return "";
        }
        case STRUCT:
        {
            auto ms = t.all();
            if (ref.size() != ms.size()) { return cat(path, ": struct size() ", ref.size(), " expected ", ms.size()); }
            if (r.chance(75))
            {
                for (size_t i = 0; i < ms.size(); ++i)
                {
                    if (r.chance(60)) { e = check(ref[ms[i]->name], *ms[i]->type, v.e[i], r, path + "." + ms[i]->name); }
                    else { e = check(ref[i], *ms[i]->type, v.e[i], r, cat(path, ".#", i)); }
                    if (!e.empty()) { return e; }
                }
            }
            else
            {
                size_t i = 0;
                for (auto&& p : ref.items())
                {
                    if (i >= ms.size()) { return cat(path, ": items() too long"); }
                    if (p.member().name() != ms[i]->name) { return cat(path, ": items() member ", i, " is ", p.member().name()); }
                    if (!(e = check(p.data(), *ms[i]->type, v.e[i], r, cat(path, ".items", i))).empty()) { return e; }
                    ++i;
                }
                if (i != ms.size()) { return cat(path, ": items() visited ", i, " of ", ms.size()); }
            }
            return "";
        }
        case MAP:
        {
            if (ref.size() != v.m.size()) { return cat(path, ": map size() ", ref.size(), " expected ", v.m.size()); }
            if (ref.bounds() != t.n) { return cat(path, ": bounds() ", ref.bounds(), " expected ", t.n); }
            for (size_t i = 0; i < v.m.size(); ++i)
            {
                std::unique_ptr<DynamicData> key(mk(*t.a, v.m[i].first, r));
                if (!(e = check(*key, *t.a, v.m[i].first, r, path + "<key>")).empty()) { return e; }
                try
                {
                    if (!(e = check(ref.at(*key), *t.b, v.m[i].second, r, cat(path, "<", show(*t.a, v.m[i].first), ">"))).empty()) { return e; }
                }
                catch (const std::runtime_error& x)
                {
                    return cat(path, ": stored key ", show(*t.a, v.m[i].first), " not found: ", x.what());
                }
            }
            // iteration visits exactly the stored pairs
            std::multiset<size_t> seen;
            size_t n = 0;
            for (auto&& p : ref)
            {
                ++n;
                bool found = false;
                for (size_t i = 0; i < v.m.size() && !found; ++i)
                {
                    if (seen.count(i)) { continue; }
                    V k = v.m[i].first;
                    if (check(p[0], *t.a, k, r, "").empty())
                    {
                        found = true; seen.insert(i);
                        if (!(e = check(p[1], *t.b, v.m[i].second, r, cat(path, "<pair ", i, ">"))).empty()) { return e; }
                    }
                }
                if (!found) { return cat(path, ": iteration yields a key that was never stored (or twice)"); }
            }
            if (n != v.m.size()) { return cat(path, ": iteration visited ", n, " of ", v.m.size()); }
            return "";
        }
        case UNION:
        {
            if (v.active < 0)
            {
                try { std::string c = ref.current_case().name(); return cat(path, ": union without selection reports case ", c); }
                catch (const std::runtime_error&) { }
                return "";
            }
            const Mem& m = t.mem[size_t(v.active)];
            std::string c;
            try { c = ref.current_case().name(); }
            catch (const std::runtime_error& x) { return cat(path, ": union lost its selection (expected ", m.name, "): ", x.what()); }
            if (c != m.name) { return cat(path, ": union case ", c, " expected ", m.name); }
            int64_t d = disc_value(ref.d(), *t.a);
            bool ok = std::find(m.labels.begin(), m.labels.end(), d) != m.labels.end();
            if (m.is_default && m.labels.empty()) { ok = d == disc_default(*t.a); }
            if (!ok) { return cat(path, ": discriminator ", d, " is no label of the selected member ", m.name); }
            if (v.label_known && v.label != d) { return cat(path, ": discriminator ", d, " expected ", v.label); }
            v.label = d; v.label_known = true;
            if (!(e = check(ref[m.name], *m.type, v.e[0], r, path + "." + m.name)).empty()) { return e; }
            int64_t d2 = disc_value(ref.d(), *t.a);
            if (d2 != d) { return cat(path, ": reading changed the discriminator from ", d, " to ", d2); }
            if (t.mem.size() > 1)
            {
                size_t o = r.below(t.mem.size());
                if (int(o) != v.active)
                {
                    try { auto x = ref[t.mem[o].name]; (void)x; return cat(path, ": inactive member ", t.mem[o].name, " readable"); }
                    catch (const std::runtime_error&) { }
                }
            }
            return "";
        }
        default: return "bad kind";
    }
}

void descend(WritableDynamicDataRef ref, const TD& t0, V& v, Rng& r, int stop, const LocFn& f, const std::function<bool(const TD&)>& want)
{
    const TD& t = t0.res();
    bool composite = !(is_flat(t.k) || is_string(t.k));
    if (!composite || (want(t) && r.chance(stop))) { f(ref, t, v); return; }
    switch (t.k)
    {
        case ARR: case SEQ:
            if (!v.e.empty()) { size_t i = r.below(v.e.size()); descend(ref[i], *t.a, v.e[i], r, stop, f, want); return; }
            break;
        case STRUCT:
        {
            auto ms = t.all();
            if (!ms.empty())
            {
                size_t i = r.below(ms.size());
                if (r.chance(50)) { descend(ref[ms[i]->name], *ms[i]->type, v.e[i], r, stop, f, want); }
                else { descend(ref[i], *ms[i]->type, v.e[i], r, stop, f, want); }
                return;
            }
            break;
        }
        case PAIR: { size_t i = r.below(2); if (i == 1) { descend(ref[1], *t.b, v.e[1], r, stop, f, want); return; } break; }
        case MAP:
            if (!v.m.empty())
            {
                size_t i = r.below(v.m.size());
                std::unique_ptr<DynamicData> key(mk(*t.a, v.m[i].first, r));
                if (r.chance(50)) { descend(ref[*key], *t.b, v.m[i].second, r, stop, f, want); }
                else { descend(ref.at(*key), *t.b, v.m[i].second, r, stop, f, want); }
                return;
            }
            break;
        case UNION:
            if (v.active >= 0)
            {
                const Mem& m = t.mem[size_t(v.active)];
                descend(ref[m.name], *m.type, v.e[0], r, stop, f, want);
                return;
            }
            break;
        default: break;
    }
    f(ref, t, v);
}

} // namespace mdl
