// Memory of the data (C20): sizes of the types, one block per data, no allocations in flat accesses.
#include "typecheck.hpp"
#include <sanitizer/allocator_interface.h>
#include <algorithm>
using namespace mdl;

namespace {

std::string join(const std::vector<size_t>& v)
{
    std::string s;
    for (auto x : v) { s += std::to_string(x) + " "; }
    return s;
}

void block(Case& c, const DynamicData& d, size_t size, const std::string& what)
{
    auto p = reinterpret_cast<const void*>(d.instance_id());
    c.count("blocks.checked");
    if (!__sanitizer_get_ownership(p)) { c.die("not-a-block:" + what, "the instance doesn't start an allocated block"); }
    size_t got = __sanitizer_get_allocated_size(p);
    if (got != std::max<size_t>(size, 1) && got != size) { c.die("block-size:" + what, cat("the block has ", got, " bytes, the type ", size)); }
}

template<class F>
std::vector<size_t> logged(F&& f)
{
    mon::heap_log_begin();
    f();
    return mon::heap_log_end();
}

bool flat(const TD& t)
{
    if (is_flat(t.k)) { return true; }
    switch (t.k)
    {
        case ARR: case ALIAS: return flat(*t.a);
        case STRUCT: for (auto m : t.all()) { if (!flat(*m->type)) { return false; } } return true;
        default: return false;
    }
}

// sizes over the whole type tree
void sizes(Case& c, const DynamicType& d, const TD& t, const std::string& path)
{
    c.count("sizes.checked");
    size_t want;
    switch (t.k)
    {
        case STRUCT:
        {
            auto& s = static_cast<const StructType&>(d);
            want = 0;
            auto ms = t.all();
            for (size_t i = 0; i < ms.size(); ++i)
            {
                sizes(c, s.member(i).type(), *ms[i]->type, path + "." + ms[i]->name);
                want += s.member(i).type().memory_size();
            }
            break;
        }
        case UNION:
        {
            auto& u = static_cast<const UnionType&>(d);
            want = 0;
            for (auto& m : t.mem)
            {
                sizes(c, u.member(m.name).type(), *m.type, path + "." + m.name);
                want = std::max(want, u.member(m.name).type().memory_size());
            }
            want += u.discriminator().memory_size();
            break;
        }
        case ARR: sizes(c, static_cast<const ArrayType&>(d).content_type(), *t.a, path + "[]"); want = t.n * static_cast<const ArrayType&>(d).content_type().memory_size(); break;
        case ALIAS: sizes(c, static_cast<const AliasType&>(d).get(), *t.a, path + "="); want = static_cast<const AliasType&>(d).rget().memory_size(); break;
        case PAIR: want = ref_size(*t.a) + ref_size(*t.b); break;
        case SEQ: want = SequenceType(primitive_type<uint8_t>()).memory_size(); break;
        case MAP: want = MapType(primitive_type<uint8_t>(), primitive_type<uint8_t>()).memory_size(); break;
        default: want = ref_size(t); break;
    }
    if (d.memory_size() != want) { c.die("size", cat(path, " (", kname(t.k), "): memory size ", d.memory_size(), " expected ", want, "   ", show(t))); }
}

// flattened access program: computed beforehand so that executing it allocates nothing by itself
struct Step { bool by_name; std::string name; size_t index; };
struct Leaf { std::vector<Step> path; K k; unsigned char raw[16]; };
void leaves(Rng& r, const TD& t0, const V& v, std::vector<Step>& path, std::vector<Leaf>& out)
{
    const TD& t = t0.res();
    if (is_flat(t.k))
    {
        Leaf l;
        l.path = path; l.k = t.k;
        memcpy(l.raw, v.raw, 16);
        out.push_back(l);
        return;
    }
    if (t.k == ARR)
    {
        for (size_t i = 0; i < v.e.size(); ++i)
        {
            path.push_back(Step{false, "", i});
            leaves(r, *t.a, v.e[i], path, out);
            path.pop_back();
        }
        return;
    }
    auto ms = t.all();
    for (size_t i = 0; i < ms.size(); ++i)
    {
        path.push_back(Step{r.chance(50), ms[i]->name, i});
        leaves(r, *ms[i]->type, v.e[i], path, out);
        path.pop_back();
    }
}
template<class R, class F>
void walk(R ref, const Leaf& l, size_t at, F&& f)
{
    if (at == l.path.size()) { f(ref); return; }
    const Step& s = l.path[at];
    if (s.by_name) { walk<R>(ref[s.name], l, at + 1, f); } else { walk<R>(ref[s.index], l, at + 1, f); }
}

} // namespace

MON_WORKLOAD(mem_sizes)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = r.range(1, 4);
    o.max_members = 7;
    static const int roots[] = {-1, STRUCT, STRUCT, UNION, UNION, ARR, ALIAS, MAP, SEQ};
    o.root = roots[r.below(9)];
    TDp t = gen_type(r, o);
    c.see(sig(*t));
    c.note("type " + show(*t));
    sizes(c, real(*t), *t, "T");
    c.nontrivial = true;
    size_t size = real(*t).memory_size();
    if (size > 200000) { return; }
    GenOpt vo;
    V v = gen_value(r, *t, vo);
    std::unique_ptr<DynamicData> d(mk(*t, v, r));
    block(c, *d, size, "construction");
    size_t id = 0;
    {
        DynamicData copy(*d);
        block(c, copy, size, "copy");
        DynamicData ref(d->cref());
        block(c, ref, size, "copy-from-reference");
        DynamicData conv(d->cref(), real(*t));
        block(c, conv, size, "conversion");
        DynamicData moved(std::move(copy));
        block(c, moved, size, "move");
        moved = *d;
        block(c, moved, size, "assignment");
        id = moved.instance_id();
    }
    if (__sanitizer_get_ownership(reinterpret_cast<void*>(id))) { c.die("not-released", "the block of a destroyed data is still allocated"); }
    d.reset();
}

MON_WORKLOAD(mem_flat)
{
    Rng& r = c.rng;
    GenOpt o;
    o.depth = r.range(1, 4);
    o.max_members = 7;
    o.uni = o.map = o.seq = o.str = false;
    static const int roots[] = {STRUCT, STRUCT, ARR, ALIAS, E32};
    o.root = roots[r.below(5)];
    TDp t = gen_type(r, o);
    if (!flat(*t)) { return; }
    c.see(sig(*t));
    c.note("type " + show(*t));
    const DynamicType& type = real(*t);
    size_t size = type.memory_size();
    if (size > 50000 || size == 0) { return; }
    c.nontrivial = true;
    GenOpt vo;
    V v = gen_value(r, *t, vo, 100);
    std::vector<Leaf> prog;
    std::vector<Step> path;
    leaves(r, *t, v, path, prog);

    // the cost of a copy of the type, which is not a data allocation
    std::vector<size_t> type_cost = logged([&] { DynamicType::Ptr p(type); });
    alignas(DynamicData) unsigned char room[sizeof(DynamicData)], room2[sizeof(DynamicData)];
    DynamicData* d = nullptr;
    std::vector<size_t> made = logged([&] { d = new (room) DynamicData(type); });
    std::vector<size_t> rest = made, once = type_cost;
    auto hit = std::find(rest.begin(), rest.end(), size);
    if (hit != rest.end()) { rest.erase(hit); }
    std::sort(rest.begin(), rest.end());
    std::sort(once.begin(), once.end());
    c.count("allocations.logged", made.size());
    if (made.size() != rest.size() + 1) { c.die("construction", cat("no allocation of ", size, " bytes in: ", join(made))); }
    // what is left must be copies of the type and nothing else
    if (once.empty() ? !rest.empty() : (rest.size() % once.size() != 0 || [&]
        {
            size_t k = rest.size() / once.size();
            std::vector<size_t> many;
            for (size_t i = 0; i < k; ++i) { many.insert(many.end(), once.begin(), once.end()); }
            std::sort(many.begin(), many.end());
            return many != rest;
        }()))
    {
        c.die("construction", cat("allocations ", join(made), " expected one of ", size, " besides the type: ", join(type_cost)));
    }
    block(c, *d, size, "construction");

    // writes and reads
    auto quiet = [&](const char* what, auto&& f)
        {
            std::vector<size_t> l = logged(f);
            c.count("accesses.monitored", prog.size());
            if (!l.empty()) { c.die(cat("allocates:", what), cat(l.size(), " allocations: ", join(l), "  ", show(*t))); }
        };
    quiet("write", [&]
        {
            for (auto& l : prog)
            {
                walk<WritableDynamicDataRef>(d->ref(), l, 0, [&](WritableDynamicDataRef x)
                    {
                        with_prim(l.k, [&](auto tag) { using T = typename decltype(tag)::type; T q; memcpy(&q, l.raw, sizeof(T)); x.value<T>(q); });
                    });
            }
        });
    bool same_values = true;
    quiet("read", [&]
        {
            for (auto& l : prog)
            {
                walk<ReadableDynamicDataRef>(d->cref(), l, 0, [&](ReadableDynamicDataRef x)
                    {
                        with_prim(l.k, [&](auto tag) { using T = typename decltype(tag)::type; T q; memcpy(&q, l.raw, sizeof(T)); same_values = same_values && x.value<T>() == q; });
                    });
            }
        });
    if (!same_values) { c.die("read-value", "a value read is not the one written"); }
    if (d->instance_id() == 0) { c.die("instance", "null"); }

    // copies share the type: exactly one allocation
    auto exact = [&](const char* what, auto&& f)
        {
            std::vector<size_t> l = logged(f);
            c.count("allocations.logged", l.size());
            if (l != std::vector<size_t>{size}) { c.die(cat("allocations:", what), cat("allocations ", join(l), " expected one of ", size)); }
        };
    DynamicData* x = nullptr;
    exact("copy", [&] { x = new (room2) DynamicData(*d); });
    block(c, *x, size, "copy");
    x->~DynamicData();
    exact("copy-from-reference", [&] { x = new (room2) DynamicData(d->cref()); });
    quiet("assign", [&] { *x = *d; });
    quiet("compare", [&] { same_values = *x == *d; });
    if (!same_values) { c.die("compare", "a copy is different"); }
    void* old = reinterpret_cast<void*>(x->instance_id());
    x->~DynamicData();
    if (__sanitizer_get_ownership(old)) { c.die("not-released", "the block of a destroyed data is still allocated"); }
    {
        ReadableDynamicDataRef cr = d->cref();
        std::string e = check(cr, *t, v, r);
        if (!e.empty()) { c.die("content", e); }
    }
    d->~DynamicData();
}
