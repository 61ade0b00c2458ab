// Collections whose memory cannot be addressed with 32 bits. The allocator refuses such blocks here (as a machine with
// little memory would do), so that nothing big is ever touched: what is asked for is what the monitor checks.
#include "model.hpp"
#include <cstdlib>
#include <new>
using namespace mdl;

namespace { size_t limit = 0, asked = 0; }

void* operator new[](size_t n)
{
    if (limit && n > limit) { asked = std::max(asked, n); throw std::bad_alloc(); }
    void* p = std::malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    return p;
}
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

namespace {

struct Limit
{
    Limit() { limit = size_t(64) << 20; asked = 0; }
    ~Limit() { limit = 0; }
};

// content of a known size and a number of elements that needs from 2 GB to 1 TB
std::shared_ptr<DynamicType> content(Rng& r, size_t& block)
{
    std::shared_ptr<DynamicType> t;
    switch (r.below(6))
    {
        case 0: t = std::make_shared<ArrayType>(primitive_type<uint8_t>(), uint32_t(1) << r.range(4, 20)); break;
        case 1: t = std::make_shared<ArrayType>(primitive_type<int32_t>(), uint32_t(r.range(1, 5000))); break;
        case 2: t = std::make_shared<StringType>(); break;
        case 3:
        {
            auto s = std::make_shared<StructType>("Big");
            s->add_member("a", ArrayType(primitive_type<int64_t>(), uint32_t(r.range(1, 3000))));
            s->add_member("b", StringType());
            t = s;
            break;
        }
        case 4: t = std::make_shared<SequenceType>(primitive_type<int64_t>()); break;
        default: t = std::make_shared<AliasType>(primitive_type<int64_t>(), "Al"); break;
    }
    block = t->memory_size();
    return t;
}
// the count wraps to a small block in 32 bits half of the times
size_t many(Rng& r, size_t block)
{
    size_t n;
    if (r.chance(60))
    {
        n = ((size_t(1) << 32) * size_t(r.range(1, 8)) + block - 1) / block + r.below(4);
    }
    else { n = (size_t(1) << r.range(31, 38)) / block + r.below(1000); }
    return std::max<size_t>(n, (size_t(256) << 20) / block);
}

void check_asked(Case& c, const char* what, size_t n, size_t block)
{
    c.count("huge.refused");
    if (asked < n * block) { c.die("short-block", cat(what, ": a block of ", asked, " bytes was asked for ", n, " elements of ", block)); }
}
} // namespace

MON_WORKLOAD(huge_resize)
{
    Rng& r = c.rng;
    size_t block;
    auto t = content(r, block);
    SequenceType type(*t);
    DynamicData d(type);
    size_t before = r.below(5);
    DynamicData e(*t);
    for (size_t i = 0; i < before; ++i) { d.push(e); }
    DynamicData copy(d);
    size_t n = r.chance(25) ? (size_t(1) << 32) + r.below(9) : many(r, block);
    c.see(mon::mix64(n, block));
    c.note(cat("resize to ", n, " elements of ", block, " bytes"));
    bool done = false;
    {
        Limit l;
        try { d.resize(n); done = true; }
        catch (const std::exception& x) { c.note(x.what()); if (n <= UINT32_MAX) { check_asked(c, "resize", n, block); } }
    }
    if (done) { c.die("accepted", cat("resize to ", n, " elements of ", block, " bytes returned, with size ", d.size())); }
    if (d.size() != before || !(d == copy)) { c.die("changed", cat("the refused resize left ", d.size(), " elements of ", before)); }
    d.push(e);
    if (d.size() != before + 1 || !(d[before] == e)) { c.die("unusable", "push after the refused resize"); }
    c.nontrivial = true;
}
// the data cannot even be built (what was built of it is not released then: unspecified)
MON_WORKLOAD_NOLEAK(huge_bounded)
{
    Rng& r = c.rng;
    size_t block;
    auto t = content(r, block);
    size_t n = std::min<size_t>(many(r, block), UINT32_MAX);
    if (n * block <= (size_t(64) << 20)) { return; }
    int form = r.range(0, 2);
    c.see(mon::mix64(n, block + size_t(form)));
    c.note(cat("bound ", n, " of elements of ", block, " bytes, form ", form));
    try
    {
        if (form == 0)
        {
            SequenceType type(*t, uint32_t(n));
            Limit l;
            DynamicData d(type);
            DynamicData e(*t);
            d.push(e);
            if (d.size() != 1 || !(d[0] == e)) { c.die("unusable", "push"); }
        }
        else if (form == 1)
        {
            MapType type(primitive_type<uint8_t>(), *t, uint32_t(n));
            Limit l;
            DynamicData d(type);
            DynamicData k(primitive_type<uint8_t>());
            k = uint8_t(7);
            d[k];
            if (d.size() != 1 || !d.has_key(k)) { c.die("unusable", "insertion"); }
        }
        else
        {
            SequenceType bounded(*t, uint32_t(n)), open(*t);
            DynamicData s(open), e(*t);
            s.push(e);
            Limit l;
            DynamicData d(s, bounded); // conversion
            if (d.size() != 1 || !(d[0] == e)) { c.die("unusable", "conversion"); }
        }
    }
    catch (const std::bad_alloc&) { if (form != 2) { check_asked(c, "construction", n, form == 1 ? block + 1 : block); } }
    catch (const std::length_error&) { c.count("huge.refused"); }
    c.nontrivial = true;
}
