// Type consistency (C09) and conversion between compatible types (C10).
#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
using namespace mdl;

namespace {

enum : int { F_SIGN = 1, F_WIDTH = 2, F_SEQ = 4, F_ARR = 8, F_STR = 16, F_NAMES = 32, F_MEMBERS = 64, F_MAP = 128, F_NONE = ~0 };

size_t width(K k) { return with_prim(k, [](auto tag) { return sizeof(typename decltype(tag)::type); }); }
bool is_unsigned(K k) { return k == U8 || k == U16 || k == U32 || k == U64; }

bool one(const TD& t) { return t.k == STRUCT && t.all().size() == 1; }

int members(const std::vector<std::pair<std::string, const TD*>>& a, const std::vector<std::pair<std::string, const TD*>>& b);

// Reference comparison of two types.
int compat(const TD& a0, const TD& b0)
{
    const TD& a = a0.res();
    const TD& b = b0.res();
    if (one(a) && one(b)) { return compat(*a.all()[0]->type, *b.all()[0]->type); }
    if (one(a) && b.k != STRUCT) { return compat(*a.all()[0]->type, b); }
    if (one(b) && a.k != STRUCT) { return compat(a, *b.all()[0]->type); }
    if (is_prim(a.k) && is_prim(b.k))
    {
        if (a.k == b.k) { return 0; }
        return (width(a.k) != width(b.k) ? F_WIDTH : 0) | (is_unsigned(a.k) != is_unsigned(b.k) ? F_SIGN : 0);
    }
    if (is_enum(a.k) && is_enum(b.k)) { return width(a.k) != width(b.k) ? F_WIDTH : 0; }
    if (is_enum(a.k) && is_prim(b.k)) { return (width(a.k) != width(b.k) ? F_WIDTH : 0) | (!is_unsigned(b.k) ? F_SIGN : 0); }
    if (is_enum(b.k) && is_prim(a.k)) { return compat(b, a); }
    if (a.k != b.k) { return F_NONE; }
    switch (a.k)
    {
        case STR: case WSTR: case STR16: return a.n != b.n ? F_STR : 0;
        case ARR: return (a.n != b.n ? F_ARR : 0) | compat(*a.a, *b.a);
        case SEQ: return (a.n != b.n ? F_SEQ : 0) | compat(*a.a, *b.a);
        case MAP: return (a.n != b.n ? F_MAP : 0) | compat(*a.a, *b.a) | compat(*a.b, *b.b);
        case PAIR: return compat(*a.a, *b.a) | compat(*a.b, *b.b);
        case STRUCT:
        {
            std::vector<std::pair<std::string, const TD*>> x, y;
            for (auto m : a.all()) { x.push_back({m->name, m->type.get()}); }
            for (auto m : b.all()) { y.push_back({m->name, m->type.get()}); }
            return members(x, y);
        }
        case UNION:
        {
            std::vector<std::pair<std::string, const TD*>> x, y;
            x.push_back({"", a.a.get()}); y.push_back({"", b.a.get()});
            for (auto& m : a.mem) { x.push_back({m.name, m.type.get()}); }
            for (auto& m : b.mem) { y.push_back({m.name, m.type.get()}); }
            return members(x, y);
        }
        default: abort();
    }
}

int members(const std::vector<std::pair<std::string, const TD*>>& a, const std::vector<std::pair<std::string, const TD*>>& b)
{
    int f = a.size() != b.size() ? F_MEMBERS : 0;
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
    {
        int q = compat(*a[i].second, *b[i].second);
        if (q == F_NONE) { return F_NONE; }
        f |= q | (a[i].first != b[i].first ? F_NAMES : 0);
    }
    return f;
}

// ------------------------------------------------------------------ derived types
std::string another_name(Rng& r, const std::vector<Mem>& own, const TD& t)
{
    for (;;)
    {
        std::string n = fresh_name(r, "n");
        bool used = false;
        for (auto& m : own) { used |= m.name == n; }
        if (t.k == STRUCT) { for (auto m : t.all()) { used |= m->name == n; } }
        if (!used) { return n; }
    }
}

void collect(const TDp& t, std::vector<TDp>& out)
{
    out.push_back(t);
    if (t->a && t->k != UNION) { collect(t->a, out); }
    if (t->b) { collect(t->b, out); }
    if (t->parent) { collect(t->parent, out); }
    for (auto& m : t->mem) { collect(m.type, out); }
}

// wraps the type in place (the node becomes the wrapper)
void wrap_in_place(const TDp& t, K k, Rng& r)
{
    auto inner = std::make_shared<TD>(*t);
    *t = TD();
    t->k = k;
    if (k == ALIAS) { t->name = fresh_name(r, "Al"); t->a = inner; }
    else { t->name = fresh_name(r, "S"); Mem m; m.name = fresh_name(r, "m"); m.type = inner; t->mem.push_back(m); }
}

std::string edit(Rng& r, const TDp& root, const GenOpt& o, bool rough)
{
    std::vector<TDp> nodes;
    collect(root, nodes);
    for (int tries = 0; tries < 20; ++tries)
    {
        TDp t = nodes[r.below(nodes.size())];
        bool is_parent = false;     // a parent must stay a structure
        for (auto& n : nodes) { is_parent |= n->parent == t; }
        if (!is_parent)
        {
            if (r.chance(12)) { wrap_in_place(t, ALIAS, r); return "alias"; }
            if (r.chance(10)) { wrap_in_place(t, STRUCT, r); return "one-member structure"; }
            if (one(*t) && !t->parent && r.chance(60)) { TD inner = *t->mem[0].type; *t = inner; return "unwrapped"; }
            if (t->k == ALIAS && r.chance(40)) { TD inner = *t->a; *t = inner; return "unaliased"; }
            if (rough && r.chance(25)) { GenOpt q = o; q.depth = 1; q.root = -1; *t = *gen_type(r, q); return "another type"; }
        }
        if (is_prim(t->k)) { t->k = K(r.below(WC + 1)); return "primitive"; }
        if (is_enum(t->k))
        {
            if (r.chance(40)) { K k = K(r.below(WC + 1)); *t = TD(); t->k = k; return "enumeration to primitive"; }
            if (t->k != E32) { t->k = r.chance(50) ? E32 : K(t->k + 1); return "enumeration width"; }
            if (t->enums.back().second > 0xfffffff0u) { return "same enumeration"; }
            t->enums.push_back({fresh_name(r, "x"), t->enums.back().second + 1 + uint32_t(r.below(3))});
            t->enum_implicit.push_back(0);
            return "enumerator";
        }
        switch (t->k)
        {
            case STR: case WSTR: case STR16:
                if (rough && r.chance(30)) { t->k = K(STR + r.below(3)); return "text kind"; }
                t->n = r.chance(30) ? 0 : uint32_t(r.range(1, 12));
                return "text bound";
            case ARR: t->n = uint32_t(r.range(1, int(o.max_dim))); return "dimension";
            case SEQ: case MAP: t->n = r.chance(30) ? 0 : uint32_t(r.range(1, int(o.max_bound))); return "bound";
            case STRUCT:
                switch (r.below(6))
                {
                    case 0: if (!t->mem.empty() && !is_parent) { t->mem[r.below(t->mem.size())].name = another_name(r, t->mem, *t); return "member name"; } break;
                    case 1: if (!is_parent) { Mem m; m.name = another_name(r, t->mem, *t); GenOpt q = o; q.depth = 1; q.root = -1; m.type = gen_type(r, q); t->mem.push_back(m); return "one more member"; } break;
                    case 2: if (t->mem.size() > 1) { t->mem.pop_back(); return "one member less"; } break;
                    case 3: if (t->mem.size() > 1 && rough) { t->mem.erase(t->mem.begin() + long(r.below(t->mem.size()))); return "a member removed"; } break;
                    case 4: if (t->mem.size() > 1 && rough) { std::swap(t->mem[0], t->mem[r.below(t->mem.size())]); return "members swapped"; } break;
                    case 5:
                        if (t->parent)  // declare the inherited members directly
                        {
                            std::vector<Mem> all;
                            for (auto m : t->all()) { all.push_back(*m); }
                            t->parent.reset();
                            t->mem = all;
                            return "inheritance flattened";
                        }
                        if (!is_parent) { t->name = fresh_name(r, "S"); return "type name"; }
                        break;
                }
                break;
            case UNION:
                switch (r.below(5))
                {
                    case 0: t->mem[r.below(t->mem.size())].name = another_name(r, t->mem, *t); return "case name";
                    case 1: if (t->mem.size() > 1) { t->mem.pop_back(); return "one case less"; } break;
                    case 2:
                    {
                        // labels rotated among the members
                        if (t->mem.size() > 1)
                        {
                            auto& x = t->mem[0]; auto& y = t->mem[t->mem.size() - 1];
                            if (!x.is_default && !y.is_default && r.chance(70)) { std::swap(x.labels, y.labels); return "labels swapped"; }
                        }
                        break;
                    }
                    case 3:
                    {
                        // a wider discriminator (the labels stay)
                        const TD& d = t->a->res();
                        if (d.k == I8 || d.k == I16) { t->a = mk_prim(r.chance(50) ? I32 : I64); return "discriminator width"; }
                        if (d.k == U8 || d.k == U16) { t->a = mk_prim(r.chance(50) ? U32 : U64); return "discriminator width"; }
                        if (d.k == I32) { t->a = mk_prim(I64); return "discriminator width"; }
                        if (d.k == U32) { t->a = mk_prim(U64); return "discriminator width"; }
                        break;
                    }
                    case 4:
                        for (auto& m : t->mem) { if (m.labels.size() > 1) { std::swap(m.labels[0], m.labels[1]); m.labels.pop_back(); return "one label less"; } }
                        break;
                }
                break;
            default: break;
        }
    }
    return "";
}

// labels valid for the (perhaps edited) discriminators, enumeration labels declared...
bool valid(const TD& t, int depth = 0)
{
    if (t.k == UNION)
    {
        const TD& d = t.a->res();
        for (auto& m : t.mem)
        {
            if (m.labels.empty() && !m.is_default) { return false; }
            for (auto l : m.labels) { if (l == disc_default(d) || l == disc_default(d) - 1) { return false; } }
        }
    }
    if (is_enum(t.k))
    {
        uint32_t top = t.k == E8 ? 200 : t.k == E16 ? 60000 : 4000000000u;
        for (auto& e : t.enums) { if (e.second > top) { return false; } }
    }
    if (t.a && !valid(*t.a, depth + 1)) { return false; }
    if (t.b && !valid(*t.b, depth + 1)) { return false; }
    if (t.parent && !valid(*t.parent, depth + 1)) { return false; }
    for (auto& m : t.mem) { if (!valid(*m.type, depth + 1)) { return false; } }
    // unbounded size: arrays of arrays of bounded collections reserve their memory
    return depth > 0 || ref_size(t) < 200000;
}

double weight(const TD& t)  // elements reserved when the data is created
{
    switch (t.k)
    {
        case ARR: return t.n * weight(*t.a);
        case SEQ: return 1 + t.n * weight(*t.a);
        case MAP: return 1 + t.n * (weight(*t.a) + weight(*t.b));
        case PAIR: return weight(*t.a) + weight(*t.b);
        case ALIAS: return weight(*t.a);
        case STRUCT: { double w = 0; for (auto m : t.all()) { w += weight(*m->type); } return w; }
        case UNION: { double w = 1; for (auto& m : t.mem) { w = std::max(w, weight(*m.type)); } return w; }
        default: return 1;
    }
}

// ------------------------------------------------------------------ reference conversion
struct Rejected { const TD* at; };   // the library must refuse (documented restriction of maps)
struct Unspecified {};      // not defined by the property: the case is skipped

int64_t enum_value(const TD& t, const V& v) { return t.k == E8 ? v.get<uint8_t>() : t.k == E16 ? v.get<uint16_t>() : int64_t(v.get<uint32_t>()); }
bool declared(const TD& t, uint32_t x) { for (auto& e : t.enums) { if (e.second == x) { return true; } } return false; }

template<class To, class From>
bool representable(From x)
{
    if constexpr (std::is_floating_point<From>::value && !std::is_floating_point<To>::value && !std::is_same<To, bool>::value)
    {
        long double y = std::trunc((long double)(x));
        return y >= (long double)(std::numeric_limits<To>::min()) && y <= (long double)(std::numeric_limits<To>::max());
    }
    return true;
}

// Converts; source leaves whose conversion is not defined by C++ are replaced (in v) by ones that convert.
V conv(Rng& r, const TD& to0, const TD& from0, V& v, bool in_key = false)
{
    const TD& to = to0.res();
    const TD& from = from0.res();
    if (one(to) && from.k != STRUCT)
    {
        V x = default_value(to);
        x.e[0] = conv(r, *to.all()[0]->type, from, v, in_key);
        return x;
    }
    if (to.k != STRUCT && one(from)) { return conv(r, to, *from.all()[0]->type, v.e[0], in_key); }
    V x = default_value(to);
    if (is_flat(to.k))
    {
        K tk = is_enum(to.k) ? enum_base(to.k) : to.k;
        K fk = is_enum(from.k) ? enum_base(from.k) : from.k;
        if (is_enum(to.k))
        {
            // only declared values are converted (see the findings of C21)
            std::vector<uint32_t> good;
            for (auto& e : to.enums)
            {
                if (is_enum(from.k)) { if (declared(from, e.second)) { good.push_back(e.second); } }
                else
                {
                    bool ok = with_prim(fk, [&](auto tag)
                        {
                            using F = typename decltype(tag)::type;
                            F f = F(e.second);
                            if (!representable<uint32_t>(f)) { return false; }
                            if constexpr (std::is_signed<F>::value && !std::is_floating_point<F>::value) { if (f < 0) { return false; } }
                            return uint32_t(f) == e.second;
                        });
                    if (ok) { good.push_back(e.second); }
                }
            }
            bool fine = false;
            with_prim(fk, [&](auto tag)
                {
                    using F = typename decltype(tag)::type;
                    F f = v.get<F>();
                    if (f >= F(0) && representable<uint32_t>(f))
                    {
                        uint32_t u = to.k == E8 ? uint8_t(f) : to.k == E16 ? uint16_t(f) : uint32_t(f);
                        fine = representable<uint8_t>(f) || to.k != E8;
                        if (to.k == E16) { fine = representable<uint16_t>(f); }
                        fine = fine && declared(to, u) && (!is_enum(from.k) || declared(from, uint32_t(f)));
                    }
                });
            if (!fine)
            {
                if (good.empty() || in_key) { throw Unspecified{}; }
                uint32_t g = good[r.below(good.size())];
                with_prim(fk, [&](auto tag) { using F = typename decltype(tag)::type; v.set<F>(F(g)); });
            }
        }
        with_prim(fk, [&](auto ftag)
            {
                using F = typename decltype(ftag)::type;
                with_prim(tk, [&](auto ttag)
                    {
                        using T = typename decltype(ttag)::type;
                        F f = v.get<F>();
                        if (!representable<T>(f))
                        {
                            if (in_key) { throw Unspecified{}; }
                            f = F(r.range(0, 100));
                            v.set<F>(f);
                        }
                        T y = static_cast<T>(f);
                        x.set<T>(y);
                    });
            });
        return x;
    }
    switch (to.k)
    {
        case STR: x.s = v.s; return clip_text(to, x);
        case WSTR: x.w = v.w; return clip_text(to, x);
        case STR16: x.u = v.u; return clip_text(to, x);
        case ARR:
            for (size_t i = 0; i < std::min(x.e.size(), v.e.size()); ++i) { x.e[i] = conv(r, *to.a, *from.a, v.e[i], in_key); }
            return x;
        case SEQ:
            for (size_t i = 0; i < v.e.size() && (!to.n || i < to.n); ++i) { x.e.push_back(conv(r, *to.a, *from.a, v.e[i], in_key)); }
            return x;
        case PAIR:
            x.e[0] = conv(r, *to.a, *from.a, v.e[0], in_key);
            x.e[1] = conv(r, *to.b, *from.b, v.e[1], in_key);
            return x;
        case STRUCT:
        {
            auto tm = to.all(); auto fm = from.all();
            for (size_t i = 0; i < std::min(tm.size(), fm.size()); ++i) { x.e[i] = conv(r, *tm[i]->type, *fm[i]->type, v.e[i], in_key); }
            return x;
        }
        case MAP:
        {
            auto& a = static_cast<const MapType&>(real(to)).content_type();
            auto& b = static_cast<const MapType&>(real(from)).content_type();
            if (a.name() != b.name()) { throw Rejected{&to}; }
            std::set<std::string> keys;
            for (auto& p : v.m)
            {
                V k = conv(r, *to.a, *from.a, p.first, true);
                if (!keys.insert(ser(*to.a, k)).second) { throw Unspecified{}; }    // two keys become the same one
                x.m.push_back({k, conv(r, *to.b, *from.b, p.second, in_key)});
            }
            return x;   // may exceed the bound: see settle()
        }
        case UNION:
        {
            if (v.active < 0 || size_t(v.active) >= to.mem.size()) { return x; }
            const Mem& m = to.mem[size_t(v.active)];
            x = V();
            x.active = v.active;
            x.e.assign(1, conv(r, *m.type, *from.mem[size_t(v.active)].type, v.e[0], in_key));
            auto& fl = from.mem[size_t(v.active)].labels;
            bool kept = v.label_known && std::find(fl.begin(), fl.end(), v.label) != fl.end()
                && std::find(m.labels.begin(), m.labels.end(), v.label) != m.labels.end();
            x.label_known = kept;
            x.label = kept ? v.label : 0;
            return x;
        }
        default: abort();
    }
}

// Which pairs a full map keeps is not specified: takes them from the real data (count and membership are checked).
std::string settle(WritableDynamicDataRef ref, const TD& t0, V& v, Rng& r, const std::string& path)
{
    const TD& t = t0.res();
    std::string e;
    switch (t.k)
    {
        case ARR: case SEQ:
            if (ref.size() != v.e.size()) { return cat(path, ": ", ref.size(), " elements instead of ", v.e.size()); }
            for (size_t i = 0; i < v.e.size() && e.empty(); ++i) { e = settle(ref[i], *t.a, v.e[i], r, cat(path, "[", i, "]")); }
            return e;
        case PAIR: e = settle(ref[0], *t.a, v.e[0], r, path + ".first"); return e.empty() ? settle(ref[1], *t.b, v.e[1], r, path + ".second") : e;
        case STRUCT:
        {
            auto ms = t.all();
            for (size_t i = 0; i < ms.size() && e.empty(); ++i) { e = settle(ref[i], *ms[i]->type, v.e[i], r, path + "." + ms[i]->name); }
            return e;
        }
        case UNION:
            if (v.active >= 0 && ref.current_case().name() == t.mem[size_t(v.active)].name)
            {
                return settle(ref[t.mem[size_t(v.active)].name], *t.mem[size_t(v.active)].type, v.e[0], r, path + ".case");
            }
            return e;
        case MAP:
        {
            size_t want = t.n ? std::min<size_t>(t.n, v.m.size()) : v.m.size();
            if (ref.size() != want) { return cat(path, ": ", ref.size(), " pairs instead of ", want); }
            WritableDynamicDataRef& w = ref;
            if (want == v.m.size()) { }
            else
            {
                std::vector<std::pair<V, V>> kept;
                for (auto& p : v.m)
                {
                    std::unique_ptr<DynamicData> k(mk(*t.a, p.first, r));
                    if (w.has_key(*k)) { kept.push_back(p); }
                }
                v.m = kept;
                if (v.m.size() != want) { return cat(path, ": only ", v.m.size(), " of the ", want, " pairs come from the source"); }
            }
            for (auto& p : v.m)
            {
                std::unique_ptr<DynamicData> k(mk(*t.a, p.first, r));
                if (!w.has_key(*k)) { return cat(path, ": key ", show(*t.a, p.first), " is missing"); }
                e = settle(ref[*k], *t.b, p.second, r, path + "{" + show(*t.a, p.first) + "}");
                if (!e.empty()) { return e; }
            }
            return e;
        }
        default: return e;
    }
}

// keys that hold unions or enumerations with unset labels cannot be looked up: skip those
bool has_union(const TD& t0)
{
    const TD& t = t0.res();
    if (t.k == UNION) { return true; }
    if (t.a && has_union(*t.a)) { return true; }
    if (t.b && has_union(*t.b)) { return true; }
    if (t.k == STRUCT) { for (auto m : t.all()) { if (has_union(*m->type)) { return true; } } }
    return false;
}
bool union_keys(const TD& t0)
{
    const TD& t = t0.res();
    if ((t.k == MAP || t.k == PAIR) && has_union(*t.a)) { return true; }
    if (t.a && union_keys(*t.a)) { return true; }
    if (t.b && union_keys(*t.b)) { return true; }
    if (t.k == STRUCT) { for (auto m : t.all()) { if (union_keys(*m->type)) { return true; } } }
    if (t.k == UNION) { for (auto& m : t.mem) { if (union_keys(*m.type)) { return true; } } }
    return false;
}

GenOpt conv_opts(Rng& r)
{
    GenOpt o;
    o.depth = r.range(0, 3);
    o.max_dim = 4;
    o.max_bound = 6;
    o.max_elems = 5;
    static const int roots[] = {-1, -1, STRUCT, STRUCT, STRUCT, UNION, UNION, MAP, SEQ, ARR, STR, PAIR};
    o.root = roots[r.below(12)];
    return o;
}

std::string flags(int f)
{
    if (f == F_NONE) { return "NONE"; }
    if (!f) { return "EQUALS"; }
    std::string s;
    static const char* n[] = {"SIGN ", "WIDTH ", "SEQUENCE ", "ARRAY ", "STRING ", "NAMES ", "MEMBERS ", "MAP "};
    for (int i = 0; i < 8; ++i) { if (f & (1 << i)) { s += n[i]; } }
    return s;
}

void expect_consistency(Case& c, const DynamicType& a, const DynamicType& b, int want, const std::string& key, const std::string& what)
{
    c.count("consistencies.read");
    int got = int(a.is_compatible(b));
    if (got != want) { c.die(key, cat("reports ", flags(got), " instead of ", flags(want), "   ", what)); }
    got = int(b.is_compatible(a));
    if (got != want) { c.die(key + "-reversed", cat("reports ", flags(got), " instead of ", flags(want), "   ", what)); }
}

} // namespace

MON_WORKLOAD(compat_pairs)
{
    Rng& r = c.rng;
    GenOpt o = conv_opts(r);
    TDp a = gen_type(r, o);
    TDp b = clone_desc(a);
    std::string edits;
    int n = r.chance(10) ? 0 : r.range(1, 4);
    bool rough = r.chance(40);
    for (int i = 0; i < n; ++i) { edits += edit(r, b, o, rough) + "; "; }
    if (r.chance(8)) { b = gen_type(r, o); edits = "unrelated"; }
    if (!valid(*a) || !valid(*b)) { return; }
    c.see(sig(*a));
    c.see(sig(*b));
    c.note("a " + show(*a));
    c.note("b " + show(*b));
    c.note("edits " + edits);
    int want = compat(*a, *b);
    std::string what = cat(show(*a), "   and   ", show(*b), "   edits: ", edits);
    const DynamicType& ra = real(*a);
    const DynamicType& rb = real(*b);
    c.nontrivial = true;
    c.count(("consistency." + flags(want)).c_str());
    expect_consistency(c, ra, ra, 0, "itself", show(*a));
    expect_consistency(c, rb, rb, 0, "itself", show(*b));
    expect_consistency(c, ra, rb, want, "pair", what);
    {
        DynamicType::Ptr ca(ra);
        auto again = clone_desc(a);
        expect_consistency(c, *ca, ra, 0, "copy", show(*a));
        expect_consistency(c, ra, real(*again), 0, "declared-again", show(*a));
        AliasType al(ra, "AnAlias"), al2(al, "AnotherAlias");
        expect_consistency(c, al, ra, 0, "alias", show(*a));
        expect_consistency(c, al2, *ca, 0, "alias-of-alias", show(*a));
        expect_consistency(c, al2, rb, want, "alias-pair", what);
        expect_consistency(c, *ca, rb, want, "copy-pair", what);
    }
    // in the containers
    switch (r.below(6))
    {
        case 0: expect_consistency(c, ArrayType(ra, 3), ArrayType(rb, 3), want, "arrays", what); break;
        case 1: expect_consistency(c, SequenceType(ra, 3), SequenceType(rb, 4), want | F_SEQ, "sequences", what); break;
        case 2: expect_consistency(c, MapType(ra, primitive_type<bool>()), MapType(rb, primitive_type<bool>(), 2), want | F_MAP, "maps", what); break;
        case 3:
        {
            StructType s("S"), q("Q");
            s.add_member("x", primitive_type<int32_t>()).add_member("m", ra);
            q.add_member("x", primitive_type<uint32_t>()).add_member("n", rb).add_member("more", primitive_type<bool>());
            expect_consistency(c, s, q, want | F_SIGN | F_NAMES | F_MEMBERS, "structures", what);
            break;
        }
        case 4:
        {
            StructType s("S"), q("Q");
            s.add_member("m", ra);
            q.add_member("n", rb);
            expect_consistency(c, s, q, want, "one-member structures", what);
            break;
        }
        case 5:
        {
            UnionType s("S", primitive_type<int8_t>()), q("Q", primitive_type<int16_t>());
            s.add_case_member<int>({1}, Member("m", ra));
            q.add_case_member<int>({2}, Member("m", rb));
            expect_consistency(c, s, q, want | F_WIDTH, "unions", what);
            break;
        }
    }
}

// new bounds for the texts of a type; returns how many there are
static int rebound(Rng& r, TD& t)
{
    if (is_string(t.k)) { t.n = r.chance(30) ? 0 : uint32_t(r.range(1, r.chance(80) ? 12 : 70)); return 1; }
    int q = 0;
    if (t.a && (t.k == ARR || t.k == SEQ || t.k == ALIAS || (t.k == PAIR) || (t.k == MAP && r.chance(20)))) { q += rebound(r, *t.a); }
    if (t.b && (t.k == PAIR || r.chance(20))) { q += rebound(r, *t.b); }
    if (t.parent) { q += rebound(r, *t.parent); }
    for (auto& m : t.mem) { q += rebound(r, *m.type); }
    return q;
}

static void convert(Case& c, bool nested_rejections, bool texts = false)
{
    Rng& r = c.rng;
    GenOpt o = conv_opts(r);
    if (texts) { static const int roots[] = {STR, WSTR, STR16, STR, WSTR, STR16, SEQ, ARR, UNION, STRUCT, STRUCT, PAIR}; o.root = roots[r.below(12)]; o.depth = r.range(1, 2); }
    TDp from = gen_type(r, o);
    TDp to = clone_desc(from);
    std::string edits;
    int n = r.chance(5) ? 0 : r.range(1, 5);
    bool rough = r.chance(nested_rejections ? 60 : 10);
    if (texts)
    {
        if (r.chance(70)) { rebound(r, *from); }
        if (!rebound(r, *to)) { return; }
        edits = "bounds of the texts";
        n = 0;
    }
    for (int i = 0; i < n; ++i) { edits += edit(r, r.chance(20) ? from : to, o, rough) + "; "; }
    if (!valid(*from) || !valid(*to) || weight(*from) > 20000 || weight(*to) > 20000) { return; }
    if (union_keys(*from) || union_keys(*to)) { return; }
    c.see(sig(*from));
    c.see(sig(*to));
    c.note("from " + show(*from));
    c.note("to " + show(*to));
    V v = gen_value(r, *from, o, r.chance(70) ? 90 : 50);
    int want = compat(*to, *from);
    V x;
    bool reject = want == F_NONE;
    if (!reject)
    {
        try { x = conv(r, *to, *from, v); }
        catch (Unspecified&) { c.count("conversions.unspecified"); return; }
        catch (Rejected& e)
        {
            if (e.at != &to->res()) { c.count("conversions.rejected-nested"); }
            reject = true;
        }
    }
    if (reject != nested_rejections && nested_rejections) { return; }
    c.note("value " + show(*from, v));
    std::string what = cat("from ", show(*from), "   to ", show(*to), "   value ", show(*from, v), "   edits: ", edits);
    std::unique_ptr<DynamicData> s(mk(*from, v, r));
    std::unique_ptr<DynamicData> d;
    const DynamicType& rt = real(*to);
    c.nontrivial = true;
    try
    {
        switch (r.below(3))
        {
            case 0: d.reset(new DynamicData(*s, rt)); break;
            case 1: d.reset(new DynamicData(s->cref(), rt)); break;
            case 2:
            {
                // from a place inside other data
                DynamicData seq(SequenceType(real(*from)));
                seq.push(*s);
                d.reset(new DynamicData(seq[0], rt));
                break;
            }
        }
        if (reject) { c.die("accepted-incompatible", what); }
    }
    catch (const std::runtime_error& e)
    {
        if (!reject) { c.die("rejected-compatible", cat(e.what(), "   ", what)); }
        c.count("conversions.rejected");
    }
    std::string e = check(*s, *from, v, r);
    if (!e.empty()) { c.die("source-changed", cat(e, "   ", what)); }
    if (reject) { return; }
    c.count("conversions.checked");
    if (want) { c.count(("conversion." + flags(want)).c_str()); }
    e = settle(d->ref(), *to, x, r, "$");
    if (!e.empty()) { c.die("converted-shape", cat(e, "   ", what)); }
    e = check(*d, *to, x, r);
    if (!e.empty()) { c.die("converted-value", cat(e, "   ", what)); }
    // independent of the source
    if (r.chance(50)) { s.reset(); }
    else { std::unique_ptr<DynamicData> y(mk(*from, gen_value(r, *from, o, 90), r)); *s = *y; }
    e = check(*d, *to, x, r);
    if (!e.empty()) { c.die("converted-depends-on-source", cat(e, "   ", what)); }
    // usable: copied, compared, written
    {
        DynamicData copy(*d);
        if (!(copy == *d)) { c.die("converted-copy-differs", what); }
        if (copy.hash() != d->hash()) { c.die("converted-copy-hash", what); }
        V z = gen_value(r, *to, o, 90);
        std::unique_ptr<DynamicData> y(mk(*to, z, r));
        *d = *y;
        e = check(*d, *to, z, r);
        if (!e.empty()) { c.die("converted-not-usable", cat(e, "   ", what)); }
        e = check(copy, *to, x, r);
        if (!e.empty()) { c.die("converted-copy-not-independent", cat(e, "   ", what)); }
        // writes at a random place of the converted data
        for (int i = 0; i < 3; ++i)
        {
            descend(copy.ref(), *to, x, r, 20, [&](WritableDynamicDataRef ref, const TD& t, V& p)
                {
                    if (is_flat(t.k) || is_string(t.k))
                    {
                        V q = gen_value(r, t, o, 100);
                        if (is_enum(t.k)) { q = gen_enum(r, t); }
                        assign_leaf(ref, t, q, r);
                        p = q;
                    }
                    else if (t.k == SEQ && (!t.n || p.e.size() < t.n))
                    {
                        V q = gen_value(r, *t.a, o, 80);
                        std::unique_ptr<DynamicData> el(mk(*t.a, q, r));
                        ref.push(*el);
                        p.e.push_back(q);
                    }
                    else if (t.k == MAP && (!t.n || p.m.size() < t.n))
                    {
                        V k = gen_value(r, *t.a, o, 90);
                        for (auto& y : p.m) { if (same(*t.a, y.first, k)) { return; } }
                        std::unique_ptr<DynamicData> el(mk(*t.a, k, r));
                        V q = gen_value(r, *t.b, o, 80);
                        std::unique_ptr<DynamicData> val(mk(*t.b, q, r));
                        ref[*el] = val->ref();
                        p.m.push_back({k, q});
                    }
                }, [](const TD& t) { return t.k == SEQ || t.k == MAP; });
            e = check(copy, *to, x, r);
            if (!e.empty()) { c.die("converted-written", cat(e, "   ", what)); }
        }
    }
}

bool has_bool(const TD& t0)
{
    const TD& t = t0.res();
    if (t.k == BOOL) { return true; }
    if (t.a && has_bool(*t.a)) { return true; }
    if (t.b && has_bool(*t.b)) { return true; }
    if (t.k == STRUCT) { for (auto m : t.all()) { if (has_bool(*m->type)) { return true; } } }
    return false;
}

// Data of two different types, perhaps of the same name: they are equal only if their types have the same shape
MON_WORKLOAD(eq_types)
{
    Rng& r = c.rng;
    GenOpt o = conv_opts(r);
    if (r.chance(20)) { o.root = ARR; o.depth = r.range(2, 3); }
    TDp a = gen_type(r, o);
    TDp b = clone_desc(a);
    std::string edits;
    int n = r.range(1, 3);
    bool rough = r.chance(40);
    for (int i = 0; i < n; ++i) { edits += edit(r, b, o, rough) + "; "; }
    if (r.chance(15)) { b = gen_type(r, o); edits = "unrelated"; }
    if (!valid(*a) || !valid(*b) || weight(*a) > 100000 || weight(*b) > 100000) { return; }
    c.see(sig(*a));
    c.see(sig(*b));
    int f = compat(*a, *b);
    std::string what = cat(show(*a), "   and   ", show(*b), "   edits: ", edits, "   consistency ", flags(f));
    c.note(what);
    const bool other_layout = f == F_NONE || (f & (F_WIDTH | F_ARR | F_MEMBERS));
    // known findings: the labels of the unions aren't compared, and bool and int8 are the same for the library
    if (!other_layout && (has_union(*a) || has_union(*b) || has_bool(*a) != has_bool(*b))) { return; }
    if (!other_layout && has_bool(*a) && edits.find("primitive") != std::string::npos) { return; }
    V va = gen_value(r, *a, o, 60), vb = gen_value(r, *b, o, 60);
    DynamicData x(real(*a)), y(real(*b));
    fill(x, *a, va, r);
    fill(y, *b, vb, r);
    const bool xy = x == y, yx = y == x;
    c.count(other_layout ? "types.other-layout" : "types.same-layout");
    c.nontrivial = true;
    if (other_layout && (xy || yx)) { c.die("different-types-equal", what); }
    if ((x != y) == xy || (y != x) == yx) { c.die("not-equal-disagrees", what); }
    std::string e = check(x, *a, va, r);
    if (e.empty()) { e = check(y, *b, vb, r); }
    if (!e.empty()) { c.die("changed-by-comparison", e); }
}

MON_WORKLOAD(conv_values) { convert(c, false); }
MON_WORKLOAD(conv_text) { convert(c, false, true); }
MON_WORKLOAD(conv_rejected) { convert(c, true); }
