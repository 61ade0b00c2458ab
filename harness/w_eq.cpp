// Equality and hash (C08): the same content built through different histories, and contents that differ in one place.
#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
using namespace mdl;

namespace {

// Replaces some zeros by negative zeros and some numbers by infinities (same = values equal as numbers).
void specials(Rng& r, const TD& t0, V& v, bool flip_zero_only, bool key = false)
{
    const TD& t = t0.res();
    if (is_float(t.k))
    {
        with_prim(t.k, [&](auto tag)
            {
                using T = typename decltype(tag)::type;
                if constexpr (std::is_floating_point<T>::value)
                {
                    T x = v.get<T>();
                    if (x == T(0) && r.chance(50)) { v.set<T>(std::signbit(x) ? T(0) : -T(0)); }
                    else if (!flip_zero_only && !key && r.chance(10)) { v.set<T>(r.chance(50) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()); }
                }
            });
        return;
    }
    switch (t.k)
    {
        case ARR: case SEQ: for (auto& x : v.e) { specials(r, *t.a, x, flip_zero_only, key); } break;
        case PAIR: specials(r, *t.a, v.e[0], flip_zero_only, key); specials(r, *t.b, v.e[1], flip_zero_only, key); break;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { specials(r, *ms[i]->type, v.e[i], flip_zero_only, key); } break; }
        case MAP:
            for (auto& p : v.m) { if (flip_zero_only) { specials(r, *t.a, p.first, true, true); } specials(r, *t.b, p.second, flip_zero_only, key); }
            break;
        case UNION: if (v.active >= 0) { specials(r, *t.mem[size_t(v.active)].type, v.e[0], flip_zero_only, key); } break;
        default: break;
    }
}

void shuffle_maps(Rng& r, const TD& t0, V& v)
{
    const TD& t = t0.res();
    switch (t.k)
    {
        case ARR: case SEQ: for (auto& x : v.e) { shuffle_maps(r, *t.a, x); } break;
        case PAIR: shuffle_maps(r, *t.a, v.e[0]); shuffle_maps(r, *t.b, v.e[1]); break;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { shuffle_maps(r, *ms[i]->type, v.e[i]); } break; }
        case MAP:
            for (auto& p : v.m) { shuffle_maps(r, *t.a, p.first); shuffle_maps(r, *t.b, p.second); }
            for (size_t i = v.m.size(); i > 1; --i) { std::swap(v.m[i - 1], v.m[r.below(i)]); }
            break;
        case UNION: if (v.active >= 0) { shuffle_maps(r, *t.mem[size_t(v.active)].type, v.e[0]); } break;
        default: break;
    }
}

// content with every zero positive (identity of contents)
V normal(const TD& t0, V v)
{
    const TD& t = t0.res();
    if (is_float(t.k))
    {
        with_prim(t.k, [&](auto tag)
            {
                using T = typename decltype(tag)::type;
                if constexpr (std::is_floating_point<T>::value) { if (v.get<T>() == T(0)) { v.set<T>(T(0)); } }
            });
        return v;
    }
    switch (t.k)
    {
        case ARR: case SEQ: for (auto& x : v.e) { x = normal(*t.a, x); } break;
        case PAIR: v.e[0] = normal(*t.a, v.e[0]); v.e[1] = normal(*t.b, v.e[1]); break;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { v.e[i] = normal(*ms[i]->type, v.e[i]); } break; }
        case MAP: for (auto& p : v.m) { p.first = normal(*t.a, p.first); p.second = normal(*t.b, p.second); } break;
        case UNION:
            if (v.active >= 0 && !v.label_known)    // selected by construction: the first label of the default member
            {
                auto& l = t.mem[size_t(v.active)].labels;
                v.label_known = true;
                v.label = l.empty() ? disc_default(*t.a) : l[0];
            }
            if (v.active >= 0) { v.e[0] = normal(*t.mem[size_t(v.active)].type, v.e[0]); } break;
        default: break;
    }
    return v;
}
bool equal(const TD& t, const V& a, const V& b) { return ser(t, normal(t, a)) == ser(t, normal(t, b)); }

template<class S>
bool mutate_text(Rng& r, S& s, uint32_t bound)
{
    using C = typename S::value_type;
    switch (r.below(3))
    {
        case 0:
            if (!bound || s.size() < bound) { s.insert(s.begin() + long(r.below(s.size() + 1)), C('z')); return true; }
            // fallthrough
        case 1:
            if (!s.empty()) { s.pop_back(); return true; }
            // fallthrough
        default:
            if (!s.empty()) { size_t i = r.below(s.size()); s[i] = C(s[i] == C(0) ? 1 : s[i] ^ C(r.chance(50) ? 1 : 0x20)); return true; }
            if (!bound || s.size() < bound) { s += C(0); return true; }
            return false;
    }
}

// changes exactly one place of the content; says what it did
bool mutate(Rng& r, const TD& t0, V& v, const GenOpt& o, std::string& what)
{
    const TD& t = t0.res();
    if (is_prim(t.k))
    {
        V was = v;
        what = cat("leaf ", kname(t.k));
        for (int i = 0; i < 20; ++i)
        {
            if (r.chance(50) && !is_float(t.k) && t.k != BOOL)
            {
                size_t w = with_prim(t.k, [](auto tag) { return sizeof(typename decltype(tag)::type); });
                v.raw[r.below(w)] ^= uint8_t(1u << r.below(8));     // one bit
            }
            else { v = gen_prim(r, t.k, false); }
            if (!equal(t, v, was)) { return true; }
        }
        return false;
    }
    if (is_enum(t.k))
    {
        V was = v;
        what = "enumerator";
        for (int i = 0; i < 10; ++i) { v = gen_enum(r, t); if (!equal(t, v, was)) { return true; } }
        return false;
    }
    switch (t.k)
    {
        case STR: what = "text"; return mutate_text(r, v.s, t.n);
        case WSTR: what = "wide text"; return mutate_text(r, v.w, t.n);
        case STR16: what = "text of 16 bits"; return mutate_text(r, v.u, t.n);
        case ARR:
        {
            if (v.e.empty()) { return false; }
            size_t i = r.below(v.e.size());
            return mutate(r, *t.a, v.e[i], o, what);
        }
        case SEQ:
            switch (r.below(3))
            {
                case 0: if (!t.n || v.e.size() < t.n) { v.e.push_back(r.chance(50) ? default_value(*t.a) : gen_value(r, *t.a, o, 50)); what = "one more element"; return true; } // fallthrough
                case 1: if (!v.e.empty()) { v.e.pop_back(); what = "one element less"; return true; } // fallthrough
                default: if (v.e.empty()) { return false; } return mutate(r, *t.a, v.e[r.below(v.e.size())], o, what);
            }
        case MAP:
            switch (r.below(4))
            {
                case 0:
                    if (!t.n || v.m.size() < t.n)
                    {
                        V k = gen_value(r, *t.a, o, 90);
                        for (auto& p : v.m) { if (equal(*t.a, p.first, k)) { return false; } }
                        v.m.push_back({k, default_value(*t.b)});
                        what = "one more pair";
                        return true;
                    } // fallthrough
                case 1: if (!v.m.empty()) { v.m.erase(v.m.begin() + long(r.below(v.m.size()))); what = "one pair less"; return true; } // fallthrough
                case 2:
                    if (!v.m.empty())
                    {
                        size_t i = r.below(v.m.size());
                        V k = v.m[i].first;
                        if (!mutate(r, *t.a, k, o, what)) { return false; }
                        for (auto& p : v.m) { if (equal(*t.a, p.first, k)) { return false; } }
                        v.m[i].first = k;
                        what = "key: " + what;
                        return true;
                    } // fallthrough
                default: if (v.m.empty()) { return false; } return mutate(r, *t.b, v.m[r.below(v.m.size())].second, o, what);
            }
        case PAIR: return r.chance(50) ? mutate(r, *t.a, v.e[0], o, what) : mutate(r, *t.b, v.e[1], o, what);
        case STRUCT:
        {
            auto ms = t.all();
            if (ms.empty()) { return false; }
            size_t i = r.below(ms.size());
            return mutate(r, *ms[i]->type, v.e[i], o, what);
        }
        case UNION:
            if (v.active >= 0 && r.chance(60)) { return mutate(r, *t.mem[size_t(v.active)].type, v.e[0], o, what); }
            if (v.active >= 0 && r.chance(40))
            {
                const Mem& m = t.mem[size_t(v.active)];
                if (!v.label_known || m.labels.size() < 2) { return false; }
                int64_t l = m.labels[r.below(m.labels.size())];
                if (l == v.label) { return false; }
                v.label = l;
                what = "discriminator";
                return true;
            }
            if (!t.mem.empty())
            {
                int a = int(r.below(t.mem.size()));
                if (a == v.active) { return false; }
                const Mem& m = t.mem[size_t(a)];
                v.active = a;
                v.e.assign(1, default_value(*m.type));
                v.label_known = true;
                v.label = m.labels.empty() ? disc_default(*t.a) : m.labels[0];
                what = "selected member";
                return true;
            }
            return false;
        default: return false;
    }
}

using D = std::unique_ptr<DynamicData>;

// the same content through another history; what names it
D other_history(Case& c, const TD& t, const V& v0, const GenOpt& o, const DynamicData& first, const TDp& again, std::string& what)
{
    Rng& r = c.rng;
    V v = v0;
    specials(r, t, v, true);
    shuffle_maps(r, t, v);
    switch (r.below(8))
    {
        case 0: what = "copy"; return D(new DynamicData(first));
        case 1: what = "copy of a reference"; return D(new DynamicData(first.cref()));
        case 2: what = "built again"; return D(mk(t, v, r));
        case 3:
        {
            what = "assigned over other content";
            D d(mk(t, gen_value(r, t, o, 90), r));
            D s(mk(t, v, r));
            if (r.chance(50)) { *d = *s; } else { d->ref() = s->ref(); }
            return d;
        }
        case 4: { what = "moved"; D s(mk(t, v, r)); return D(new DynamicData(std::move(*s))); }
        case 5: what = "built with the same type declared again"; return D(mk(*again, v, r));
        case 6:
        {
            // leaf by leaf over other content where the shape is the same
            what = "through a container";
            if (t.k == PAIR || t.k == ALIAS) { return D(mk(t, v, r)); }
            DynamicData s(SequenceType(real(t), int(r.below(4) + 1)));
            D e(mk(t, v, r));
            s.push(*e);
            return D(new DynamicData(s[0]));
        }
        default: what = "converted to the same type"; { D s(mk(t, v, r)); return D(new DynamicData(*s, real(*again))); }
    }
}

void same_content(Case& c, const ReadableDynamicDataRef& a, const ReadableDynamicDataRef& b, const std::string& what)
{
    c.count("pairs.equal");
    if (!(a == b)) { c.die("equal-content-differs:==", what); }
    if (!(b == a)) { c.die("equal-content-differs:== reversed", what); }
    if (a != b || b != a) { c.die("equal-content-differs:!=", what); }
    c.count("hashes.compared");
    if (a.hash() != b.hash()) { c.die("equal-content-other-hash", what); }
    if (a.hash() != a.hash()) { c.die("hash-not-stable", what); }
}

void other_content(Case& c, const ReadableDynamicDataRef& a, const ReadableDynamicDataRef& b, const std::string& what)
{
    c.count("pairs.different");
    if (a == b) { c.die("different-content-equal:==", what); }
    if (b == a) { c.die("different-content-equal:== reversed", what); }
    if (!(a != b) || !(b != a)) { c.die("different-content-equal:!=", what); }
}

bool has_map_or_union_key_ok(const TD& t0)
{
    const TD& t = t0.res();
    return t.k != PAIR;
}

} // namespace

MON_WORKLOAD(eq_pairs)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = r.range(0, 3);
    o.big = r.chance(20);
    o.max_elems = r.chance(20) ? 12 : 4;
    static const int roots[] = {-1, -1, STRUCT, STRUCT, UNION, MAP, SEQ, ARR, STR, WSTR, STR16, PAIR};
    o.root = roots[r.below(12)];
    TDp t = gen_type(r, o);
    c.see(sig(*t));
    V v = gen_value(r, *t, o, r.chance(30) ? 95 : 60);
    specials(r, *t, v, false);
    c.see(mon::hash_str(ser(*t, v)));
    c.note("type " + show(*t));
    c.note("content " + show(*t, v));
    D d(mk(*t, v, r));
    TDp again = clone_desc(t);
    c.nontrivial = count_leaves(*t, v) > 0;
    std::vector<D> pool;
    std::vector<std::string> how;
    for (int i = 0; i < 4; ++i)
    {
        std::string what;
        pool.push_back(other_history(c, *t, v, o, *d, again, what));
        how.push_back(what);
        c.note("history: " + what);
        same_content(c, *d, *pool.back(), cat(what, "   ", show(*t), "   ", show(*t, v)));
        c.count(("history." + what).c_str());
    }
    // among themselves
    for (size_t i = 0; i < pool.size(); ++i)
    {
        size_t j = r.below(pool.size());
        same_content(c, *pool[i], *pool[j], cat(how[i], " / ", how[j], "   ", show(*t), "   ", show(*t, v)));
    }
    // one place changed
    for (int i = 0; i < 6; ++i)
    {
        V w = v;
        std::string what;
        if (!mutate(r, *t, w, o, what)) { continue; }
        if (equal(*t, v, w)) { continue; }
        c.note("changed: " + what);
        c.count(("changed." + what).c_str());
        D x(mk(*t, w, r));
        other_content(c, *d, *x, cat(what, "   ", show(*t), "   ", show(*t, v), "   ", show(*t, w)));
        other_content(c, *pool[r.below(pool.size())], *x, cat(what, "   ", show(*t), "   ", show(*t, v), "   ", show(*t, w)));
        // and back again
        if (r.chance(50))
        {
            *x = *d;
            same_content(c, *d, *x, cat("assigned back after: ", what, "   ", show(*t)));
        }
    }
    // the operands keep their content
    std::string e = check(*d, *t, v, r);
    if (!e.empty()) { c.die("changed-by-comparison", e); }
}

// The content as a key of a map.
MON_WORKLOAD(eq_keys)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = r.range(0, 2);
    o.max_elems = 4;
    TDp t;
    int tries = 0;
    do { t = gen_type(r, o); } while (!has_map_or_union_key_ok(*t) && ++tries < 20);
    if (!has_map_or_union_key_ok(*t)) { return; }
    c.see(sig(*t));
    MapType mt(real(*t), primitive_type<uint32_t>());
    DynamicData m(mt);
    std::vector<V> keys;
    std::vector<uint32_t> stored;
    TDp again = clone_desc(t);
    c.note("key type " + show(*t));
    int n = r.range(1, 8);
    for (int i = 0; i < n; ++i)
    {
        V v = gen_value(r, *t, o, 80);
        if (!keys.empty() && r.chance(60))
        {
            v = keys[r.below(keys.size())];
            std::string what;
            if (!mutate(r, *t, v, o, what)) { continue; }
        }
        c.see(mon::hash_str(ser(*t, v)));
        specials(r, *t, v, true);
        int known = -1;
        for (size_t k = 0; k < keys.size(); ++k) { if (equal(*t, keys[k], v)) { known = int(k); } }
        D d(mk(*t, v, r));
        c.note("key " + show(*t, v));
        if (m.has_key(*d) != (known >= 0)) { c.die(known >= 0 ? "key-not-found" : "other-key-found", cat(show(*t), "   ", show(*t, v))); }
        c.count("keys.probed");
        uint32_t x = uint32_t(r.next());
        m[*d] = x;
        if (known >= 0) { stored[size_t(known)] = x; }
        else { keys.push_back(v); stored.push_back(x); }
        c.nontrivial = true;
        if (m.size() != keys.size()) { c.die("number-of-keys", cat(m.size(), " instead of ", keys.size(), "   ", show(*t))); }
        for (size_t k = 0; k < keys.size(); ++k)
        {
            std::string what;
            D first(mk(*t, keys[k], r));
            D q = other_history(c, *t, keys[k], o, *first, again, what);
            if (!m.has_key(*q)) { c.die("key-not-found-by-equal-key", cat(what, "   ", show(*t), "   ", show(*t, keys[k]))); }
            if (m.at(*q).value<uint32_t>() != stored[k]) { c.die("value-of-key", cat(what, "   ", show(*t))); }
            c.count("keys.looked-up");
        }
        // keys with one place changed
        for (int q = 0; q < 3; ++q)
        {
            V w = keys[r.below(keys.size())];
            std::string what;
            if (!mutate(r, *t, w, o, what)) { continue; }
            bool is = false;
            for (auto& k : keys) { is |= equal(*t, k, w); }
            D x(mk(*t, w, r));
            if (m.has_key(*x) != is) { c.die(is ? "key-not-found" : "changed-key-found", cat(what, "   ", show(*t), "   ", show(*t, w))); }
            c.count("keys.probed");
        }
    }
}

// Equality of the parts: the same place of two data.
MON_WORKLOAD(eq_parts)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = r.range(1, 3);
    TDp t = gen_type(r, o);
    c.see(sig(*t));
    V v = gen_value(r, *t, o, 80);
    V w = v;
    std::string what;
    bool changed = r.chance(70) && mutate(r, *t, w, o, what);
    c.see(mon::hash_str(ser(*t, v)));
    D a(mk(*t, v, r)), b(mk(*t, w, r));
    c.note("type " + show(*t));
    c.note("a " + show(*t, v));
    c.note("b " + show(*t, w) + " " + what);
    (void)changed;
    for (int i = 0; i < 6; ++i)
    {
        // Only places that exist in both data can be compared
        uint64_t s = r.next();
        std::function<void(ReadableDynamicDataRef, ReadableDynamicDataRef, const TD&, const V&, const V&, int)> walk =
            [&](ReadableDynamicDataRef x, ReadableDynamicDataRef y, const TD& q0, const V& xv, const V& yv, int depth)
            {
                const TD& q = q0.res();
                bool is = equal(q, xv, yv);
                if (is) { same_content(c, x, y, cat("part of ", show(*t), " : ", show(q, xv))); }
                else { other_content(c, x, y, cat("part of ", show(*t), " : ", show(q, xv), " / ", show(q, yv))); }
                c.nontrivial = true;
                Rng rr(s + uint64_t(depth));
                switch (q.k)
                {
                    case ARR: case SEQ:
                        if (!xv.e.empty() && !yv.e.empty())
                        {
                            size_t k = rr.below(std::min(xv.e.size(), yv.e.size()));
                            walk(x[k], y[k], *q.a, xv.e[k], yv.e[k], depth + 1);
                        }
                        break;
                    case STRUCT:
                    {
                        auto ms = q.all();
                        if (!ms.empty()) { size_t k = rr.below(ms.size()); walk(x[ms[k]->name], y[k], *ms[k]->type, xv.e[k], yv.e[k], depth + 1); }
                        break;
                    }
                    case PAIR: { size_t k = rr.below(2); walk(x[k], y[k], k ? *q.b : *q.a, xv.e[k], yv.e[k], depth + 1); break; }
                    case UNION:
                        if (xv.active >= 0 && xv.active == yv.active)
                        {
                            auto& m = q.mem[size_t(xv.active)];
                            walk(x[m.name], y[m.name], *m.type, xv.e[0], yv.e[0], depth + 1);
                        }
                        break;
                    default: break;
                }
            };
        walk(a->cref(), b->cref(), *t, v, w, 0);
    }
}
