// Sizes beyond what small random data reach: collections, texts, maps and declarations of more than 256 and 65536
// elements, and types nested deeply. What is stored at place i is a function of i, so that nothing else is kept.
#include "model.hpp"
using namespace mdl;

namespace {

struct Elem
{
    const char* name;
    std::shared_ptr<DynamicType> type;
    bool heavy;
    std::function<void(WritableDynamicDataRef, uint64_t)> put;
    std::function<bool(ReadableDynamicDataRef, uint64_t)> is;
};

template<class T> Elem prim_elem(const char* name, bool alias = false)
{
    Elem e{name, alias ? std::static_pointer_cast<DynamicType>(std::make_shared<AliasType>(primitive_type<T>(), "Al")) : nullptr, false,
           [](WritableDynamicDataRef r, uint64_t x) { r.value<T>(T(x % 1000003)); },
           [](ReadableDynamicDataRef r, uint64_t x) { return r.value<T>() == T(x % 1000003); }};
    if (!alias) { e.type = std::shared_ptr<DynamicType>(const_cast<DynamicType*>(static_cast<const DynamicType*>(&primitive_type<T>())), [](DynamicType*) {}); }
    return e;
}
std::string text_of(uint64_t x) { return x % 7 == 0 ? std::string() : std::string(size_t(x % 29), char('a' + x % 26)) + std::to_string(x % 100); }

Elem pick_elem(Rng& r, bool light)
{
    switch (r.below(light ? 6 : 9))
    {
        case 0: return prim_elem<uint8_t>("uint8");
        case 1: return prim_elem<int16_t>("int16");
        case 2: return prim_elem<int32_t>("int32");
        case 3: return prim_elem<uint64_t>("uint64");
        case 4: return prim_elem<double>("double");
        case 5: return prim_elem<int32_t>("alias", true);
        case 6: return Elem{"string", std::make_shared<StringType>(), true,
                            [](WritableDynamicDataRef d, uint64_t x) { d.value<std::string>(text_of(x)); },
                            [](ReadableDynamicDataRef d, uint64_t x) { return d.value<std::string>() == text_of(x); }};
        case 7:
        {
            auto s = std::make_shared<StructType>("S");
            s->add_member("a", primitive_type<uint16_t>()).add_member("b", StringType());
            return Elem{"struct", s, true,
                        [](WritableDynamicDataRef d, uint64_t x) { d["a"].value<uint16_t>(uint16_t(x)); d["b"].value<std::string>(text_of(x)); },
                        [](ReadableDynamicDataRef d, uint64_t x) { return d["a"].value<uint16_t>() == uint16_t(x) && d["b"].value<std::string>() == text_of(x); }};
        }
        default:
            return Elem{"array", std::make_shared<ArrayType>(primitive_type<uint8_t>(), 3), true,
                        [](WritableDynamicDataRef d, uint64_t x) { for (int i = 0; i < 3; ++i) { d[i].value<uint8_t>(uint8_t(x >> i)); } },
                        [](ReadableDynamicDataRef d, uint64_t x) { for (int i = 0; i < 3; ++i) { if (d[i].value<uint8_t>() != uint8_t(x >> i)) { return false; } } return true; }};
    }
}

size_t big(Rng& r, bool heavy)
{
    switch (r.below(6))
    {
        case 0: return size_t(r.range(250, 260));
        case 1: case 2: return size_t(r.range(65530, 65545));
        case 3: return size_t(heavy ? r.range(65536, 68000) : r.range(131066, 131080));
        case 4: return size_t(r.range(32760, 32775));
        default: return size_t(r.range(65536, heavy ? 70000 : 140000));
    }
}

// places worth a look: around the powers of two, both ends and random ones
std::vector<size_t> places(Rng& r, size_t n)
{
    std::set<size_t> p{0, n - 1, n / 2};
    for (size_t b : {255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072}) { if (b < n) { p.insert(b); } }
    for (int i = 0; i < 200; ++i) { p.insert(r.below(n)); }
    return std::vector<size_t>(p.begin(), p.end());
}

void check_collection(Case& c, const Elem& e, ReadableDynamicDataRef d, size_t n, uint64_t salt, const char* when, bool all)
{
    Rng& r = c.rng;
    if (d.size() != n) { c.die("size", cat(when, ": size ", d.size(), " of ", n, " ", e.name)); }
    for (size_t i : places(r, n))
    {
        bool ok = r.chance(50) ? e.is(d[i], mon::mix64(salt, i)) : e.is(d[uint32_t(i)], mon::mix64(salt, i));
        if (!ok) { c.die("element", cat(when, ": element ", i, " of ", n, " ", e.name)); }
        c.count("large.elements");
    }
    bool refused = false;
    try { d[n]; } catch (const std::runtime_error&) { refused = true; }
    if (!refused) { c.die("bounds", cat(when, ": element ", n, " of ", n, " is accessible")); }
    if (!all) { return; }
    size_t i = 0;
    for (auto&& x : d)
    {
        if (i >= n || !e.is(x, mon::mix64(salt, i))) { c.die("iteration", cat(when, ": element ", i, " of ", n, " ", e.name, " in the iteration")); }
        ++i;
    }
    if (i != n) { c.die("iteration", cat(when, ": ", i, " elements iterated of ", n)); }
    i = 0;
    std::string bad;
    d.for_each([&](const DynamicData::ReadableNode& x)
        {
            if (x.deep() != 1 || !bad.empty()) { return; }
            if (x.from_index() != i || !e.is(x.data(), mon::mix64(salt, i))) { bad = cat("element ", i, " of ", n, " is visited as ", x.from_index()); }
            ++i;
        });
    if (!bad.empty() || i != n) { c.die("visit", cat(when, ": ", bad, " ", i, " of ", n)); }
    c.count("large.elements", 2 * n);
}

template<class T> void check_vector(Case& c, ReadableDynamicDataRef d, size_t n, uint64_t salt)
{
    std::vector<T> v = d.as_vector<T>();
    if (v.size() != n) { c.die("as_vector", cat(v.size(), " elements of ", n)); }
    for (size_t i = 0; i < n; ++i) { if (v[i] != T(mon::mix64(salt, i) % 1000003)) { c.die("as_vector", cat("element ", i, " of ", n)); } }
    c.count("large.vectors");
}
void check_vector(Case& c, const Elem& e, ReadableDynamicDataRef d, size_t n, uint64_t salt)
{
    std::string k = e.name;
    if (k == "uint8") { check_vector<uint8_t>(c, d, n, salt); }
    if (k == "int16") { check_vector<int16_t>(c, d, n, salt); }
    if (k == "int32") { check_vector<int32_t>(c, d, n, salt); }
    if (k == "uint64") { check_vector<uint64_t>(c, d, n, salt); }
    if (k == "double") { check_vector<double>(c, d, n, salt); }
}

// copies, comparisons and conversions of d; one place of the copy is changed
template<class CONV>
void check_values(Case& c, const Elem& e, DynamicData& d, size_t n, uint64_t salt, CONV&& other)
{
    Rng& r = c.rng;
    DynamicData copy(d);
    check_collection(c, e, copy, n, salt, "copy", false);
    if (!(copy == d) || copy != d || copy.hash() != d.hash()) { c.die("equality", cat("the copy of ", n, " ", e.name, " is not equal")); }
    size_t i = r.chance(50) ? n - 1 - r.below(3) : places(r, n)[r.below(4)];
    uint64_t x = mon::mix64(salt, i), y = x + 1;
    e.put(copy[i], y);
    if (!e.is(copy[i], y)) { c.die("write", cat("element ", i, " of ", n)); }
    if (!e.is(d[i], x)) { c.die("independence", cat("element ", i, " of ", n, " changed with the one of the copy")); }
    if (copy == d) { c.die("equality", cat("a difference at ", i, " of ", n, " ", e.name, " is not noticed")); }
    d = copy;
    if (!(copy == d) || !e.is(d[i], y)) { c.die("assignment", cat("element ", i, " of ", n)); }
    e.put(d[i], x);
    check_collection(c, e, d, n, salt, "after the writes", false);
    DynamicData moved(std::move(copy));
    if (moved == d || !e.is(moved[i], y)) { c.die("move", cat("element ", i, " of ", n)); }
    other(d);
    c.count("large.values");
}

} // namespace

MON_WORKLOAD(large_sequence)
{
    Rng& r = c.rng;
    Elem e = pick_elem(r, r.chance(70));
    size_t n = big(r, e.heavy);
    uint32_t bound = r.chance(60) ? 0 : uint32_t(r.chance(50) ? n : n + r.below(70000));
    uint64_t salt = r.next();
    c.see(mon::mix64(n, mon::mix64(bound, mon::hash_str(e.name))));
    c.note(cat("sequence of ", n, " ", e.name, ", bound ", bound));
    SequenceType type(*e.type, bound);
    std::unique_ptr<DynamicData> d(new DynamicData(type));
    size_t start = r.chance(40) ? r.below(n + 1) : 0;
    if (start)
    {
        d->resize(start);
        if (d->size() != start) { c.die("size", cat("resize to ", start, " gives ", d->size())); }
        for (size_t i = 0; i < start; ++i) { e.put((*d)[i], mon::mix64(salt, i)); }
    }
    DynamicData one(*e.type);
    for (size_t i = start; i < n; ++i)
    {
        e.put(one, mon::mix64(salt, i));
        d->push(one);
    }
    c.nontrivial = true;
    check_collection(c, e, *d, n, salt, "filled", true);
    check_vector(c, e, *d, n, salt);
    if (bound == n)
    {
        bool refused = false;
        try { d->push(one); } catch (const std::runtime_error&) { refused = true; }
        if (!refused || d->size() != n) { c.die("bound", cat("push beyond the bound ", bound, ": size ", d->size())); }
        refused = false;
        try { d->resize(n + 1); } catch (const std::runtime_error&) { refused = true; }
        if (!refused || d->size() != n) { c.die("bound", cat("resize beyond the bound ", bound, ": size ", d->size())); }
    }
    check_values(c, e, *d, n, salt, [&](DynamicData& x)
        {
            SequenceType wide(*e.type, r.chance(50) ? 0 : uint32_t(n + r.below(5)));
            DynamicData w(x, wide);
            check_collection(c, e, w, n, salt, "converted", false);
            uint32_t less = uint32_t(r.range(1, int(n) - 1));
            DynamicData s(x, SequenceType(*e.type, less));
            check_collection(c, e, s, less, salt, "converted to a smaller bound", false);
        });
}

MON_WORKLOAD(large_array)
{
    Rng& r = c.rng;
    Elem e = pick_elem(r, r.chance(70));
    size_t n = big(r, e.heavy);
    uint64_t salt = r.next();
    c.see(mon::mix64(n, mon::hash_str(e.name)));
    c.note(cat("array of ", n, " ", e.name));
    StructType holder("Holder");    // something behind and before
    holder.add_member("before", primitive_type<uint32_t>()).add_member("array", ArrayType(*e.type, uint32_t(n))).add_member("behind", StringType());
    DynamicData h(holder);
    if (holder.memory_size() != 4 + n * e.type->memory_size() + StringType().memory_size()) { c.die("memory_size", cat(n, " ", e.name, ": ", holder.memory_size())); }
    h["before"] = uint32_t(77);
    h["behind"] = std::string("behind");
    for (size_t i = 0; i < n; ++i) { e.put(h["array"][i], mon::mix64(salt, i)); }
    c.nontrivial = true;
    if (h["before"].value<uint32_t>() != 77 || h["behind"].value<std::string>() != "behind") { c.die("neighbours", cat("written by the elements of an array of ", n)); }
    check_collection(c, e, h["array"], n, salt, "filled", true);
    check_vector(c, e, h["array"], n, salt);
    DynamicData d(h["array"]);
    check_values(c, e, d, n, salt, [&](DynamicData& x)
        {
            uint32_t less = uint32_t(r.range(1, int(n) - 1));
            DynamicData s(x, ArrayType(*e.type, less));
            check_collection(c, e, s, less, salt, "converted to a smaller array", false);
        });
    check_collection(c, e, h["array"], n, salt, "at the end", false);
}

MON_WORKLOAD(large_map)
{
    Rng& r = c.rng;
    Elem e = pick_elem(r, true);
    int kind = std::string(e.name) == "alias" ? r.range(1, 2) : r.range(0, 2);    // elements of alias types are moved one by one
    std::shared_ptr<DynamicType> kt;
    std::function<void(WritableDynamicDataRef, uint64_t)> key;
    size_t n;
    if (kind == 0)  { n = size_t(r.range(65530, 66000)); key = [](WritableDynamicDataRef d, uint64_t i) { d.value<uint32_t>(uint32_t(i)); }; }
    else if (kind == 1) { n = size_t(r.range(250, 5000)); key = [](WritableDynamicDataRef d, uint64_t i) { d.value<std::string>(cat("key", i)); }; kt = std::make_shared<StringType>(); }
    else { n = size_t(r.range(250, 9000)); key = [](WritableDynamicDataRef d, uint64_t i) { d.value<uint64_t>(i << 33); }; }
    const DynamicType& k = kt ? *kt : kind == 0 ? static_cast<const DynamicType&>(primitive_type<uint32_t>()) : primitive_type<uint64_t>();
    uint32_t bound = r.chance(60) ? 0 : uint32_t(n + (r.chance(50) ? 0 : r.below(99)));
    uint64_t salt = r.next();
    c.see(mon::mix64(n, mon::mix64(bound, mon::hash_str(e.name) + uint64_t(kind))));
    c.note(cat("map of ", n, " ", e.name, ", keys ", kind, ", bound ", bound));
    MapType type(k, *e.type, bound);
    DynamicData d(type), x(k), v(*e.type);
    DynamicData pair(PairType(k, *e.type));
    bool down = kind != 0 && r.chance(30);
    for (size_t q = 0; q < n; ++q)
    {
        size_t i = down ? n - 1 - q : q;
        key(x, i);
        if (i % 3 == 0)
        {
            key(pair[0], i);
            e.put(pair[1], mon::mix64(salt, i));
            if (!d.insert(pair)) { c.die("insert", cat("key ", i, " of ", n, " is refused")); }
        }
        else { e.put(d[x], mon::mix64(salt, i)); }
    }
    c.nontrivial = true;
    if (d.size() != n) { c.die("size", cat(d.size(), " keys of ", n)); }
    for (size_t i : places(r, n))
    {
        key(x, i);
        if (!d.has_key(x) || !e.is(d.at(x), mon::mix64(salt, i))) { c.die("value", cat("key ", i, " of ", n, d.has_key(x) ? " has another value" : " is missing")); }
        key(pair[0], i);
        if (d.insert(pair)) { c.die("insert", cat("key ", i, " is inserted again")); }
        key(x, n + i);
        if (d.has_key(x)) { c.die("has_key", cat("unknown key ", n + i)); }
        c.count("large.keys");
    }
    if (bound == n)
    {
        key(pair[0], n);
        bool refused = false;
        try { refused = !d.insert(pair); } catch (const std::runtime_error&) { refused = true; }
        if (!refused || d.size() != n) { c.die("bound", cat("insertion beyond the bound ", bound)); }
    }
    // the whole content, once each
    size_t i = 0;
    uint64_t sum = 0, want = 0;
    for (auto&& p : d)
    {
        uint64_t id = kind == 0 ? p[0].value<uint32_t>() : kind == 1 ? std::stoull(p[0].value<std::string>().substr(3)) : p[0].value<uint64_t>() >> 33;
        if (id >= n || !e.is(p[1], mon::mix64(salt, id))) { c.die("iteration", cat("key ", id, " of ", n)); }
        sum += mon::mix64(id, 1);
        want += mon::mix64(i, 1);
        ++i;
    }
    if (i != n || sum != want) { c.die("iteration", cat(i, " keys of ", n, sum == want ? "" : ", not once each")); }
    DynamicData copy(d);
    if (!(copy == d) || copy.size() != n || copy.hash() != d.hash()) { c.die("copy", cat("the copy of a map of ", n, " keys is not equal")); }
    size_t w = r.chance(50) ? n - 1 : r.below(n);
    key(x, w);
    e.put(copy[x], mon::mix64(salt, w) + 1);
    if (copy == d || !e.is(d.at(x), mon::mix64(salt, w)) || !e.is(copy.at(x), mon::mix64(salt, w) + 1)) { c.die("independence", cat("key ", w, " of ", n)); }
    c.count("large.values");
}

namespace {
template<class S> void text_case(Case& c, const DynamicType& open, std::function<std::unique_ptr<DynamicType>(uint32_t)> bounded)
{
    using C = typename S::value_type;
    Rng& r = c.rng;
    size_t n = big(r, false);
    uint64_t salt = r.next();
    S s;
    for (size_t i = 0; i < n; ++i) { s.push_back(C(1 + mon::mix64(salt, i) % 120)); }
    c.see(mon::mix64(n, sizeof(C)));
    c.note(cat("text of ", n, " characters of ", sizeof(C)));
    StructType holder("H");
    holder.add_member("t", open).add_member("after", primitive_type<uint16_t>());
    DynamicData h(holder);
    h["after"] = uint16_t(9);
    h["t"].value<S>(s);
    c.nontrivial = true;
    const ReadableDynamicDataRef t = h["t"];
    auto whole = [&](ReadableDynamicDataRef x, size_t len, const char* when)
        {
            if (x.size() != len || x.template value<S>() != s.substr(0, len)) { c.die("text", cat(when, ": ", x.size(), " characters of ", len)); }
            c.count("large.texts");
        };
    whole(t, n, "written");
    for (size_t i : places(r, n)) { if (t[i].template value<C>() != s[i]) { c.die("character", cat("character ", i, " of ", n)); } }
    size_t i = 0;
    for (auto&& x : t) { if (i >= n || x.template value<C>() != s[i]) { c.die("iteration", cat("character ", i, " of ", n)); } ++i; }
    if (i != n) { c.die("iteration", cat(i, " characters of ", n)); }
    DynamicData copy(h);
    if (!(copy == h) || copy.hash() != h.hash()) { c.die("copy", cat("the copy of a text of ", n, " is not equal")); }
    S q = s;
    size_t w = r.chance(50) ? n - 1 : r.below(n);
    q[w] = C(q[w] + 1);
    copy["t"].value<S>(q);
    if (copy == h || copy["t"].value<S>() != q) { c.die("difference", cat("a difference at ", w, " of ", n, " is not noticed")); }
    // bounds
    uint32_t b = uint32_t(r.chance(50) ? n : r.chance(50) ? r.range(1, int(n)) : n + r.below(70000));
    auto bt = bounded(b);
    DynamicData y(t, *bt);
    whole(y, std::min<size_t>(b, n), "converted to a bound");
    DynamicData z(*bt);
    try { z.value<S>(s); whole(z, std::min<size_t>(b, n), "written to a bound"); }
    catch (const std::runtime_error&) { if (b >= n) { c.die("refused", cat("a text of ", n, " by a bound of ", b)); } }
    whole(t, n, "at the end");
    if (h["after"].value<uint16_t>() != 9) { c.die("neighbour", "changed"); }
    if constexpr (sizeof(C) == 1)
    {
        if (h["t"].cast<std::string>() != s) { c.die("cast", cat("text of ", n)); }
        std::string out = h.to_string();
        if (out.find(s) == std::string::npos) { c.die("to_string", cat("text of ", n, " is not in the ", out.size(), " characters")); }
    }
}
}

MON_WORKLOAD(large_text)
{
    switch (c.rng.below(3))
    {
        case 0: text_case<std::string>(c, StringType(), [](uint32_t b) { return std::unique_ptr<DynamicType>(new StringType(b)); }); break;
        case 1: text_case<std::wstring>(c, WStringType(), [](uint32_t b) { return std::unique_ptr<DynamicType>(new WStringType(b)); }); break;
        default: text_case<std::u16string>(c, String16Type(), [](uint32_t b) { return std::unique_ptr<DynamicType>(new String16Type(b)); }); break;
    }
}

MON_WORKLOAD(large_struct)
{
    Rng& r = c.rng;
    size_t n = size_t(r.chance(80) ? r.range(250, 300) : r.chance(70) ? r.range(1000, 3000) : r.range(65530, 65600));
    uint64_t salt = r.next();
    c.see(mon::mix64(n, salt % 16));
    c.note(cat("structure of ", n, " members"));
    StructType s("S");
    std::vector<size_t> offset;
    size_t at = 0;
    auto kind = [&](size_t i) { return mon::mix64(salt, i) % 5; };
    for (size_t i = 0; i < n; ++i)
    {
        std::string name = cat("m", i);
        offset.push_back(at);
        switch (kind(i))
        {
            case 0: s.add_member(name, primitive_type<uint8_t>()); at += 1; break;
            case 1: s.add_member(name, primitive_type<int64_t>()); at += 8; break;
            case 2: s.add_member(name, primitive_type<uint16_t>()); at += 2; break;
            case 3: s.add_member(name, StringType()); at += sizeof(std::string); break;
            default: s.add_member(name, primitive_type<float>()); at += 4; break;
        }
    }
    c.nontrivial = true;
    if (s.members().size() != n || s.memory_size() != at) { c.die("size", cat(s.members().size(), " members of ", n, ", ", s.memory_size(), " bytes of ", at)); }
    DynamicData d(s);
    if (d.size() != n) { c.die("size", cat(d.size(), " members of ", n)); }
    size_t base = d[0].instance_id();
    auto put = [&](WritableDynamicDataRef x, size_t i, uint64_t w)
        {
            switch (kind(i))
            {
                case 0: x.value<uint8_t>(uint8_t(w)); break;
                case 1: x.value<int64_t>(int64_t(w)); break;
                case 2: x.value<uint16_t>(uint16_t(w)); break;
                case 3: x.value<std::string>(text_of(w)); break;
                default: x.value<float>(float(w % 9999)); break;
            }
        };
    auto is = [&](ReadableDynamicDataRef x, size_t i, uint64_t w)
        {
            switch (kind(i))
            {
                case 0: return x.value<uint8_t>() == uint8_t(w);
                case 1: return x.value<int64_t>() == int64_t(w);
                case 2: return x.value<uint16_t>() == uint16_t(w);
                case 3: return x.value<std::string>() == text_of(w);
                default: return x.value<float>() == float(w % 9999);
            }
        };
    bool all = n < 5000;
    std::vector<size_t> look = places(r, n);
    if (all) { look.clear(); for (size_t i = 0; i < n; ++i) { look.push_back(i); } }
    for (size_t i : look) { if (r.chance(50)) { put(d[i], i, mon::mix64(salt + 1, i)); } else { put(d[cat("m", i)], i, mon::mix64(salt + 1, i)); } }
    auto check = [&](DynamicData& x, size_t b, const char* when)
        {
            for (size_t i : look)
            {
                std::string name = cat("m", i);
                if (x[i].instance_id() - b != offset[i] || x[name].instance_id() - b != offset[i]) { c.die("place", cat(when, ": member ", i, " of ", n, " is at ", x[i].instance_id() - b, " instead of ", offset[i])); }
                if (!is(x[i], i, mon::mix64(salt + 1, i)) || !is(x[name], i, mon::mix64(salt + 1, i))) { c.die("member", cat(when, ": member ", i, " of ", n)); }
                c.count("large.members");
            }
        };
    check(d, base, "written");
    for (size_t i : look)
    {
        const Member& m = s.member(i);
        if (m.name() != cat("m", i) || s.member(cat("m", i)).name() != m.name() || m.offset() != offset[i]) { c.die("declaration", cat("member ", i, " of ", n, ": ", m.name(), " at ", m.offset())); }
    }
    size_t i = 0;
    for (auto&& m : d.items()) { if (m.member().name() != cat("m", i)) { c.die("items", cat("member ", i, " of ", n)); } ++i; }
    if (i != n) { c.die("items", cat(i, " members of ", n)); }
    i = 0;
    std::string bad;
    d.for_each([&](const DynamicData::ReadableNode& x)
        {
            if (x.deep() != 1 || !bad.empty()) { return; }
            if (x.from_index() != i || !x.from_member() || x.from_member()->name() != cat("m", i)) { bad = cat("member ", i, " of ", n, " is visited as ", x.from_index()); }
            ++i;
        });
    if (!bad.empty() || i != n) { c.die("visit", cat(bad, " ", i, " of ", n)); }
    if (all)
    {
        StructType copy(s);
        if (copy.is_compatible(s) != TypeConsistency::EQUALS || copy.memory_size() != at) { c.die("type-copy", cat(n, " members")); }
        DynamicData e(d), f(d, copy);
        check(e, e[0].instance_id(), "copy");
        check(f, f[0].instance_id(), "converted");
        if (!(e == d) || !(f == d) || e.hash() != d.hash()) { c.die("equality", cat("copy of ", n, " members")); }
        size_t w = r.chance(50) ? n - 1 : r.below(n);
        put(e[w], w, mon::mix64(salt + 1, w) + 1);
        if (e == d) { c.die("equality", cat("a difference in member ", w, " of ", n, " is not noticed")); }
        check(d, base, "after the change of the copy");
    }
}

MON_WORKLOAD(large_enum)
{
    Rng& r = c.rng;
    bool small = r.chance(50);
    // an enumeration of 8 bits is full with 256 enumerators
    auto run = [&](auto tag, size_t n)
        {
            using T = typename decltype(tag)::type;
            EnumerationType<T> e("E");
            uint64_t value = 0, salt = r.next();
            std::vector<uint64_t> v;
            bool gaps = sizeof(T) > 1;
            for (size_t i = 0; i < n; ++i)
            {
                if (gaps && mon::mix64(salt, i) % 8 == 0) { value += mon::mix64(salt, i) % 3; e.add_enumerator(cat("e", i), T(value)); }
                else { e.add_enumerator(cat("e", i)); }
                v.push_back(value++);
            }
            c.see(mon::mix64(n, sizeof(T)));
            c.note(cat("enumeration of ", n, " enumerators of ", sizeof(T), " bytes"));
            c.nontrivial = true;
            if (e.enumerators().size() != n) { c.die("size", cat(e.enumerators().size(), " enumerators of ", n)); }
            DynamicData d(e);
            for (size_t i : places(r, n))
            {
                if (!e.has_enumerator(cat("e", i)) || e.value(cat("e", i)) != T(v[i])) { c.die("value", cat("enumerator ", i, " of ", n, " has value ", uint64_t(e.value(cat("e", i))))); }
                if (!e.is_allowed_value(T(v[i]))) { c.die("allowed", cat("value ", v[i])); }
                d.value<T>(T(v[i]));
                if (d.value<T>() != T(v[i]) || d.cast<uint64_t>() != v[i]) { c.die("data", cat("value ", v[i])); }
                c.count("large.enumerators");
            }
            if (e.has_enumerator(cat("e", n))) { c.die("has_enumerator", "unknown"); }
            if (sizeof(T) > 1)
            {
                bool refused = false;
                try { d.value<T>(T(value)); } catch (const std::runtime_error&) { refused = true; }
                if (!refused || e.is_allowed_value(T(value))) { c.die("undeclared", cat("value ", value)); }
            }
        };
    if (small) { if (r.chance(50)) { run(Tag<uint8_t>{}, size_t(r.range(200, 256))); } else { run(Tag<uint16_t>{}, size_t(r.range(250, 300))); } }
    else if (r.chance(80)) { run(Tag<uint32_t>{}, size_t(r.range(250, 3000))); }
    else { run(Tag<uint32_t>{}, size_t(r.range(65530, 66000))); }
}

MON_WORKLOAD(large_depth)
{
    Rng& r = c.rng;
    size_t n = size_t(r.range(20, 60));
    // one value behind many layers; layer i is a function of i
    uint64_t salt = r.next();
    std::shared_ptr<DynamicType> t = std::make_shared<StringType>();
    std::vector<int> layer;
    std::string kinds;
    for (size_t i = 0; i < n; ++i)
    {
        int k = int(mon::mix64(salt, i) % 6);
        layer.push_back(k);
        kinds += char('0' + k);
        switch (k)
        {
            case 0: t = std::make_shared<SequenceType>(*t); break;
            case 1: t = std::make_shared<ArrayType>(*t, 2); break;
            case 2: { auto s = std::make_shared<StructType>(cat("S", i)); s->add_member("x", primitive_type<uint8_t>()).add_member("in", *t); t = s; break; }
            case 3: t = std::make_shared<AliasType>(*t, cat("A", i)); break;
            case 4: { auto u = std::make_shared<UnionType>(cat("U", i), primitive_type<int32_t>()); u->add_case_member<int32_t>({5}, Member("in", *t)); u->add_case_member<int32_t>({6}, Member("no", primitive_type<double>())); t = u; break; }
            default: t = std::make_shared<MapType>(primitive_type<uint16_t>(), *t); break;
        }
        // arrays double the data: few of them
        if (k == 1) { salt = mon::mix64(salt, 99); size_t arrays = 0; for (int q : layer) { arrays += q == 1; } if (arrays > 4) { break; } }
    }
    n = layer.size();
    c.see(mon::hash_str(kinds));
    c.note(cat("layers ", kinds));
    DynamicData d(*t);
    size_t nodes = 0;
    std::function<void(WritableDynamicDataRef, size_t, const std::string&)> put = [&](WritableDynamicDataRef x, size_t left, const std::string& v)
        {
            while (left && layer[left - 1] == 3) { --left; }
            if (!left) { x.value<std::string>(v); return; }
            switch (layer[left - 1])
            {
                case 0: if (x.size() == 0) { x.resize(1); } put(x[0], left - 1, v); break;
                case 1: put(x[1], left - 1, v); break;
                case 2: case 4: put(x["in"], left - 1, v); break;
                default: { DynamicData k(primitive_type<uint16_t>()); k = uint16_t(left); put(x[k], left - 1, v); break; }
            }
        };
    std::function<std::string(ReadableDynamicDataRef, size_t)> get = [&](ReadableDynamicDataRef x, size_t left) -> std::string
        {
            ++nodes;
            while (left && layer[left - 1] == 3) { --left; }
            if (!left) { return x.value<std::string>(); }
            switch (layer[left - 1])
            {
                case 0: return get(x[0], left - 1);
                case 1: return get(x[1], left - 1);
                case 2: case 4: return get(x["in"], left - 1);
                default: { DynamicData k(primitive_type<uint16_t>()); k = uint16_t(left); return get(x.at(k), left - 1); }
            }
        };
    put(d, n, "deep down");
    c.nontrivial = true;
    if (get(d, n) != "deep down") { c.die("value", cat("behind ", n, " layers ", kinds)); }
    DynamicData copy(d);
    if (!(copy == d) || get(copy, n) != "deep down" || copy.hash() != d.hash()) { c.die("copy", kinds); }
    put(copy, n, "changed");
    if (copy == d || get(d, n) != "deep down" || get(copy, n) != "changed") { c.die("independence", kinds); }
    d = copy;
    if (!(copy == d) || get(d, n) != "changed") { c.die("assignment", kinds); }
    DynamicData conv(copy, *t);
    if (!(conv == copy) || get(conv, n) != "changed") { c.die("conversion", kinds); }
    size_t deepest = 0;
    bool selected = true;
    try { copy.for_each([&](const DynamicData::ReadableNode& x) { deepest = std::max(deepest, x.deep()); }); }
    catch (const std::runtime_error&) { selected = false; }     // unions of other elements have nothing selected
    size_t want = 0;
    for (int k : layer) { want += k == 3 ? 0 : k == 5 ? 2 : 1; }
    if (selected && deepest != want) { c.die("depth", cat(deepest, " instead of ", want, " for ", kinds)); }
    c.count("large.layers", nodes);
}

// sizes of types that nobody can build data of here
MON_WORKLOAD(large_types)
{
    Rng& r = c.rng;
    std::vector<std::shared_ptr<DynamicType>> pool{std::make_shared<StringType>(), std::make_shared<AliasType>(primitive_type<int64_t>(), "Al")};
    std::vector<size_t> size{sizeof(std::string), 8};
    auto base = [&](size_t& s) -> const DynamicType& { switch (r.below(4)) { case 0: s = 1; return primitive_type<uint8_t>(); case 1: s = 8; return primitive_type<int64_t>(); case 2: s = sizeof(long double); return primitive_type<long double>(); default: s = 2; return primitive_type<char16_t>(); } };
    const size_t most = size_t(1) << 58;
    int n = r.range(2, 6);
    for (int q = 0; q < n; ++q)
    {
        size_t i = r.below(pool.size() + 1), s = 0;
        const DynamicType& in = i == pool.size() ? base(s) : (s = size[i], *pool[i]);
        switch (r.below(4))
        {
            case 0: case 1:
            {
                uint64_t dim = r.chance(50) ? uint64_t(1) << r.range(10, 31) : 1 + r.below(UINT32_MAX);
                if (s > most / dim) { continue; }
                pool.push_back(std::make_shared<ArrayType>(in, uint32_t(dim)));
                size.push_back(s * dim);
                break;
            }
            case 2:
            {
                std::vector<size_t> offset;
                std::vector<const DynamicType*> in_struct;
                size_t at = 0;
                for (int m = r.range(1, 5); m > 0; --m)
                {
                    size_t j = r.below(pool.size());
                    if (at + size[j] > most) { continue; }
                    offset.push_back(at); at += size[j]; in_struct.push_back(pool[j].get());
                }
                auto t = std::make_shared<StructType>(cat("S", q));
                for (size_t m = 0; m < in_struct.size(); ++m) { t->add_member(cat("m", m), *in_struct[m]); }
                for (size_t m = 0; m < offset.size(); ++m) { if (t->member(m).offset() != offset[m]) { c.die("offset", cat("member ", m, " at ", t->member(m).offset(), " instead of ", offset[m])); } }
                if (at == 0) { continue; }
                pool.push_back(t);
                size.push_back(at);
                break;
            }
            default:
            {
                auto u = std::make_shared<UnionType>(cat("U", q), primitive_type<int32_t>());
                u->add_case_member<int32_t>({1}, Member("a", in));
                u->add_case_member<int32_t>({2}, Member("b", primitive_type<uint8_t>()));
                pool.push_back(u);
                size.push_back(4 + s);
                break;
            }
        }
        if (pool.back()->memory_size() != size.back()) { c.die("memory_size", cat(pool.back()->name(), ": ", pool.back()->memory_size(), " instead of ", size.back())); }
        DynamicType::Ptr copy(*pool.back());
        if (copy->memory_size() != size.back() || copy->is_compatible(*pool.back()) != TypeConsistency::EQUALS) { c.die("copy", pool.back()->name()); }
        c.see(size.back());
        c.nontrivial = c.nontrivial || size.back() > UINT32_MAX;
        c.count("large.types");
    }
}
