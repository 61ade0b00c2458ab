// Keys whose hashes coincide: the map finds its keys by their hash, and nothing makes hashes unique. The values are
// chosen so that they collide with the hash of the library as it is; with another hash they are just different keys.
#include "model.hpp"
using namespace mdl;

namespace {

const uint64_t M = 0x880355f21e6d1965ULL, SEED = 0x2145654af87a5b6dULL, MIX = 0x2127599bf4325c37ULL;

constexpr uint64_t inverse(uint64_t a)
{
    uint64_t x = a;
    for (int i = 0; i < 6; ++i) { x *= 2 - a * x; }
    return x;
}
uint64_t mix(uint64_t h) { h ^= h >> 23; h *= MIX; h ^= h >> 47; return h; }
uint64_t unmix(uint64_t h) { h ^= h >> 47; h *= inverse(MIX); return h ^ (h >> 23) ^ (h >> 46); }
uint64_t hash_u64(uint64_t v) { return mix(((SEED ^ (8 * M)) ^ mix(v)) * M); }
uint64_t unhash_u64(uint64_t h) { return unmix((unmix(h) * inverse(M)) ^ (SEED ^ (8 * M))); }
uint64_t rest(uint64_t r) { return 0x9e3779b9 + (r << 6) + (r >> 2); }
uint64_t combine(uint64_t r, uint64_t h) { return r ^ (h + rest(r)); }
// the h with combine(r, h) == want
uint64_t uncombine(uint64_t r, uint64_t want) { return (want ^ r) - rest(r); }

// the second half of the key that makes (a, b) collide with the group
struct Shape
{
    const char* name;
    std::shared_ptr<DynamicType> type;
    std::function<uint64_t(uint64_t target, uint64_t a)> partner;
    std::function<void(WritableDynamicDataRef, uint64_t, uint64_t)> put;
    std::function<std::pair<uint64_t, uint64_t>(ReadableDynamicDataRef)> get;
};

Shape pick_shape(Rng& r)
{
    auto u64 = [](WritableDynamicDataRef x, uint64_t v) { x.value<uint64_t>(v); };
    auto get2 = [](ReadableDynamicDataRef d) { return std::make_pair(d[0].value<uint64_t>(), d[1].value<uint64_t>()); };
    auto put2 = [u64](WritableDynamicDataRef d, uint64_t a, uint64_t b) { u64(d[0], a); u64(d[1], b); };
    switch (r.below(6))
    {
        case 0:
            return Shape{"array", std::make_shared<ArrayType>(primitive_type<uint64_t>(), 2),
                         [](uint64_t t, uint64_t a) { return unmix(t ^ (((SEED ^ (16 * M)) ^ mix(a)) * M)); }, put2, get2};
        case 1:
        {
            auto s = std::make_shared<StructType>("S");
            s->add_member("a", primitive_type<uint64_t>()).add_member("b", primitive_type<uint64_t>());
            return Shape{"struct", s, [](uint64_t t, uint64_t a) { return unhash_u64(uncombine(hash_u64(a), t)); }, put2, get2};
        }
        case 2:
        {
            auto s = std::make_shared<SequenceType>(primitive_type<uint64_t>());
            return Shape{"sequence", s, [](uint64_t t, uint64_t a) { return unhash_u64(uncombine(hash_u64(a), t)); },
                         [put2](WritableDynamicDataRef d, uint64_t a, uint64_t b) { d.resize(2); put2(d, a, b); }, get2};
        }
        case 3:
        {
            auto p = std::make_shared<PairType>(primitive_type<uint64_t>(), primitive_type<uint64_t>());
            return Shape{"pair", p, [](uint64_t t, uint64_t a) { return unhash_u64(uncombine(hash_u64(a), t)); }, put2, get2};
        }
        case 4:
        {
            auto p = std::make_shared<UnionType>("U", primitive_type<uint64_t>());
            p->add_case_member(std::vector<uint64_t>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, "x", primitive_type<uint64_t>());
            return Shape{"union", p, [](uint64_t t, uint64_t a) { return unhash_u64(uncombine(hash_u64(1 + a % 10), t)); },
                         [u64](WritableDynamicDataRef d, uint64_t a, uint64_t b) { u64(d["x"], b); d.d(int64_t(1 + a % 10)); },
                         [](ReadableDynamicDataRef d) { return std::make_pair(d.d().value<uint64_t>() - 1, d["x"].value<uint64_t>()); }};
        }
        default:
        {
            auto s = std::make_shared<StructType>("S3"), i = std::make_shared<StructType>("S2");
            i->add_member("x", primitive_type<uint64_t>()).add_member("y", primitive_type<uint64_t>());
            s->add_member("t", StringType()).add_member("in", AliasType(*i, "Al"));
            uint64_t ht = std::hash<std::string>()("text");
            return Shape{"nested", s, [ht](uint64_t t, uint64_t a) { return unhash_u64(uncombine(hash_u64(a), uncombine(ht, t))); },
                         [put2](WritableDynamicDataRef d, uint64_t a, uint64_t b) { d["t"].value<std::string>("text"); put2(d["in"], a, b); },
                         [get2](ReadableDynamicDataRef d) { return get2(d["in"]); }};
        }
    }
}

using Key = std::pair<uint64_t, uint64_t>;

struct Run
{
    Case& c; Rng& r; Shape s;
    bool text;                          // the values are texts
    uint32_t bound;
    MapType type;
    std::vector<Key> keys;              // all the keys used, stored or not
    Run(Case& cc, const Shape& sh, bool t, uint32_t b)
        : c(cc), r(cc.rng), s(sh), text(t), bound(b)
        , type(t ? MapType(*sh.type, StringType(), b) : MapType(*sh.type, primitive_type<int32_t>(), b)) {}

    static std::string value_text(int v) { return std::string(size_t(v % 40), 'x') + std::to_string(v); }
    void put(WritableDynamicDataRef d, int v) { if (text) { d.value<std::string>(value_text(v)); } else { d.value<int32_t>(v); } }
    bool is(ReadableDynamicDataRef d, int v) { return text ? d.value<std::string>() == value_text(v) : d.value<int32_t>() == v; }
    DynamicData key(const Key& k) { DynamicData d(*s.type); s.put(d.ref(), k.first, k.second); return d; }

    void check(ReadableDynamicDataRef d, const std::map<Key, int>& want, const char* when)
    {
        if (d.size() != want.size()) { c.die("size", cat(when, ": ", d.size(), " pairs of ", want.size(), " with keys ", s.name)); }
        std::set<Key> seen;
        for (auto&& p : d)
        {
            Key k = s.get(p[0]);
            auto it = want.find(k);
            if (it == want.end() || !seen.insert(k).second || !is(p[1], it->second)) { c.die("pair", cat(when, ": wrong pair, key ", s.name, " ", k.first, ",", k.second)); }
        }
        DynamicData whole(d);
        for (auto& k : keys)
        {
            DynamicData kd = key(k);
            auto it = want.find(k);
            c.count("collide.lookups");
            if (whole.has_key(kd) != (it != want.end())) { c.die("has_key", cat(when, ": has_key(", s.name, " ", k.first, ",", k.second, ") is ", whole.has_key(kd))); }
            if (it != want.end())
            {
                if (!is(d.at(kd), it->second)) { c.die("value", cat(when, ": key ", s.name, " ", k.first, ",", k.second, " has the value of another")); }
                continue;
            }
            bool refused = false;
            try { d.at(kd); } catch (const std::runtime_error&) { refused = true; }
            if (!refused) { c.die("absent", cat(when, ": a key that isn't stored can be read, ", s.name, " ", k.first, ",", k.second)); }
        }
        c.count("reads.trees");
    }
};

} // namespace

MON_WORKLOAD(map_collide)
{
    Rng& r = c.rng;
    Shape s = pick_shape(r);
    Run g(c, s, r.chance(50), r.chance(30) ? uint32_t(r.range(3, 12)) : 0);
    int groups = r.range(1, 3), per = r.range(2, 7);
    for (int i = 0; i < groups; ++i)
    {
        uint64_t target = r.next();
        for (int j = 0; j < per; ++j)
        {
            uint64_t a = std::string(s.name) == "union" ? uint64_t(j) : r.chance(30) ? r.below(5) : r.next();
            Key k{a, s.partner(target, a)};
            if (std::find(g.keys.begin(), g.keys.end(), k) == g.keys.end()) { g.keys.push_back(k); }
        }
    }
    for (int j = r.range(0, 6); j > 0; --j)
    {
        uint64_t a = std::string(s.name) == "union" ? r.below(10) : r.next();
        Key k{a, r.next()};
        if (std::find(g.keys.begin(), g.keys.end(), k) == g.keys.end()) { g.keys.push_back(k); }
    }
    c.note(cat("keys ", s.name, " ", g.keys.size(), " in ", groups, " groups of ", per, " bound ", g.bound));
    std::map<uint64_t, int> hashes;
    for (auto& k : g.keys) { DynamicData kd = g.key(k); if (s.get(kd) != k) { c.die("key", "a key doesn't hold what was written"); } hashes[kd.hash()]++; }
    for (auto& h : hashes) { if (h.second > 1) { c.count("keys.colliding", uint64_t(h.second)); } }
    for (size_t i = 0; i < g.keys.size(); ++i)
    {
        for (size_t j = 0; j < g.keys.size(); ++j)
        {
            DynamicData a = g.key(g.keys[i]), b = g.key(g.keys[j]);
            if ((a == b) != (i == j) || (a != b) != (i != j)) { c.die("equal", "keys with the same hash compare equal"); }
        }
    }
    std::map<Key, int> want;
    DynamicData d(g.type);
    int serial = 1;
    for (int op = r.range(5, 30); op > 0; --op)
    {
        const Key& k = r.pick(g.keys);
        DynamicData kd = g.key(k);
        bool full = g.bound && want.size() == g.bound && !want.count(k);
        bool refused = false;
        int v = serial++;
        c.see(mon::mix64(k.first, k.second));
        if (r.chance(60))
        {
            c.note(cat("  [", k.first, ",", k.second, "] = ", v));
            try { g.put(d[kd], v); } catch (const std::runtime_error&) { refused = true; }
            if (refused != full) { c.die("bound", cat("a write to ", want.size(), " pairs is ", refused ? "refused" : "accepted")); }
            if (!full) { want[k] = v; }
        }
        else
        {
            c.note(cat("  insert [", k.first, ",", k.second, "] ", v));
            DynamicData pd(PairType(*s.type, g.text ? static_cast<const DynamicType&>(StringType()) : primitive_type<int32_t>()));
            s.put(pd[0], k.first, k.second);
            g.put(pd[1], v);
            bool there = want.count(k) != 0, done = false;
            try { done = d.insert(pd); } catch (const std::runtime_error&) { refused = true; }
            if (there || full) { if (done) { c.die("insert", cat("insertion of a key that is ", there ? "stored" : "beyond the bound", " reports success")); } }
            else if (!done) { c.die("insert", "the insertion of a key with the hash of another is refused"); }
            else { want[k] = v; }
        }
        c.count("map.ops");
        if (r.chance(30)) { g.check(d, want, "after the operation"); }
    }
    c.nontrivial = true;
    g.check(d, want, "in the end");
    // the same pairs in another order
    std::vector<std::pair<Key, int>> order(want.begin(), want.end());
    for (size_t i = order.size(); i > 1; --i) { std::swap(order[i - 1], order[r.below(i)]); }
    DynamicData e(g.type);
    for (auto& p : order) { g.put(e[g.key(p.first)], p.second); }
    g.check(e, want, "in another order");
    c.count("hashes.compared");
    if (!(d == e) || d != e || !(e == d)) { c.die("map-equal", cat("maps with the same pairs stored in another order are different, keys ", s.name)); }
    if (d.hash() != e.hash()) { c.die("map-hash", cat("equal maps have different hashes, keys ", s.name)); }
    c.count("pairs.equal");
    // a copy, with a difference
    DynamicData f(e);
    g.check(f, want, "the copy");
    if (!(f == d)) { c.die("map-copy", "a copy of the map is different"); }
    if (!want.empty())
    {
        auto p = order[r.below(order.size())];
        g.put(f[g.key(p.first)], 100000);
        if (f == d || d == f) { c.die("map-differs", "maps with a different value of the same key are equal"); }
        want[p.first] = 100000;
        g.check(f, want, "the changed copy");
        // one key instead of another with the same hash
        for (auto& k : g.keys)
        {
            if (want.count(k)) { continue; }
            DynamicData x(g.type), y(g.type);
            g.put(x[g.key(p.first)], 7); g.put(y[g.key(k)], 7);
            if (x == y || y == x) { c.die("map-keys", cat("maps with different keys of the same hash are equal, keys ", s.name)); }
            c.count("pairs.different");
        }
        DynamicData m(std::move(f));
        g.check(m, want, "the moved map");
        d = m;
        g.check(d, want, "the assigned map");
    }
}
