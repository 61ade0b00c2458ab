// Randomised object histories against the reference model (profiles for C01..C07, C13).
// A pool of live data objects is driven through copies, moves, assignments, nested writes, container
// operations and rejected calls; after every operation every live object is read back completely
// through the public API and compared with its model.
#include "model.hpp"
using namespace mdl;
using mon::Violation;

namespace {

struct Obj
{
    TDp keep;           // keeps the descriptors (and the real types) alive
    const TD* t;
    std::unique_ptr<DynamicData> d;
    V v;
    std::string id;
};

struct Prof
{
    const char* name;
    std::vector<int> roots;     // preferred kinds of the root type (-1: any)
    std::vector<int> w;         // weights of the operations
    int steps;
};

enum Op { O_NEW, O_COPY, O_COPYREF, O_MOVE, O_ASSIGN, O_SELF, O_SUBASSIGN, O_LEAF, O_SEQ, O_MAP, O_UNION, O_ITER, O_DESTROY, O_CMP, O_TWOREF, O_MISUSE, O_NOPS };

struct Hist
{
    Case& c;
    Rng& r;
    GenOpt o;
    std::vector<TDp> types;
    std::vector<Obj> pool;
    int serial = 0;

    explicit Hist(Case& cc) : c(cc), r(cc.rng) {}

    static bool comp(const TD& t) { return !(is_flat(t.k) || is_string(t.k)); }

    void check_all(const std::string& op)
    {
        for (auto& x : pool)
        {
            std::string e = check(*x.d, *x.t, x.v, r, x.id);
            c.count("reads.trees");
            if (!e.empty()) { c.die("state-after:" + op, cat(e, "   type ", show(*x.t))); }
        }
        c.count("reads.rounds");
    }

    // The call must be rejected with std::runtime_error
    template<class F>
    void rejected(const std::string& what, F&& f)
    {
        c.note("reject? " + what);
        try { f(); }
        catch (const std::runtime_error&) { c.count("rejections"); return; }
        catch (const std::exception& e) { c.die("wrong-exception:" + what, e.what()); }
        c.die("accepted:" + what, "the call was not rejected");
    }

    Obj& any() { return pool[r.below(pool.size())]; }

    void add(const TDp& keep, const TD& t, DynamicData* d, const V& v)
    {
        pool.push_back(Obj{keep, &t, std::unique_ptr<DynamicData>(d), v, "o" + std::to_string(serial++)});
    }

    void op_new()
    {
        TDp t = types[r.below(types.size())];
        if (r.chance(30))
        {
            c.note("new default");
            add(t, *t, new DynamicData(real(*t)), default_value(*t));
        }
        else
        {
            V v = gen_value(r, *t, o);
            c.note("new " + show(*t, v));
            add(t, *t, mk(*t, v, r), v);
        }
    }

    void op_copy()
    {
        Obj& a = any();
        c.note("copy " + a.id);
        V v = a.v; auto keep = a.keep; const TD& t = *a.t;
        DynamicData* d = new DynamicData(*a.d);
        add(keep, t, d, v);
    }

    void op_copyref()
    {
        Obj& a = any();
        c.note("copy from reference into " + a.id);
        auto keep = a.keep;
        DynamicData* nd = nullptr; const TD* nt = nullptr; V nv;
        bool readable = r.chance(50);
        descend(a.d->ref(), *a.t, a.v, r, 45, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (readable) { ReadableDynamicDataRef rr(ref); nd = new DynamicData(rr); }
                else { nd = new DynamicData(WritableDynamicDataRef(ref)); }
                nt = &t; nv = v;
            }, comp);
        add(keep, *nt, nd, nv);
    }

    void op_move()
    {
        size_t i = r.below(pool.size());
        c.note("move " + pool[i].id);
        Obj& a = pool[i];
        auto keep = a.keep; const TD& t = *a.t; V v = a.v;
        DynamicData* d = new DynamicData(std::move(*a.d));
        if (r.chance(60))
        {
            c.note(" destroy the source");
            pool.erase(pool.begin() + long(i));
        }
        else
        {
            // the moved-from object can be given a value again
            V w = gen_value(r, t, o);
            std::unique_ptr<DynamicData> tmp(mk(t, w, r));
            c.note(" assign the source " + show(t, w));
            *a.d = *tmp;
            a.v = w;
        }
        add(keep, t, d, v);
    }

    void op_assign()
    {
        Obj& a = any();
        for (auto& b : pool)
        {
            if (&b != &a && b.t == a.t && r.chance(60))
            {
                c.note(cat(b.id, " = ", a.id));
                switch (r.below(3))
                {
                    case 0: *b.d = *a.d; break;
                    case 1: *b.d = a.d->cref(); break;
                    case 2: b.d->ref() = a.d->ref(); break;
                }
                b.v = a.v;
                return;
            }
        }
        V w = gen_value(r, *a.t, o);
        c.note(cat(a.id, " = ", show(*a.t, w)));
        std::unique_ptr<DynamicData> tmp(mk(*a.t, w, r));
        *a.d = *tmp;
        a.v = w;
    }

    void op_self()
    {
        Obj& a = any();
        c.note("self-assign in " + a.id);
        if (r.chance(40))
        {
            DynamicData& alias = *a.d;
            switch (r.below(3))
            {
                case 0: *a.d = alias; break;
                case 1: *a.d = alias.cref(); break;
                case 2: a.d->ref() = alias.ref(); break;
            }
            return;
        }
        descend(a.d->ref(), *a.t, a.v, r, 50, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                WritableDynamicDataRef other(ref);
                ref = other;
                // an element of the own collection assigned to another element
                if ((t.k == SEQ || t.k == ARR) && v.e.size() > 1)
                {
                    size_t i = r.below(v.e.size()), j = r.below(v.e.size());
                    c.note(cat(" element ", i, " = element ", j));
                    ref[i] = ref[j];
                    v.e[i] = V(v.e[j]);
                }
            }, comp);
    }

    void op_subassign()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 50, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                V w = gen_value(r, t, o);
                c.note(cat("assign nested of ", a.id, " = ", show(t, w)));
                std::unique_ptr<DynamicData> tmp(mk(t, w, r));
                if (r.chance(50)) { ref = tmp->ref(); } else { WritableDynamicDataRef q = tmp->ref(); ref = q; }
                v = w;
                c.count("writes.subtree");
            }, comp);
    }

    static bool never(const TD&) { return false; }

    void op_leaf()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 0, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (comp(t)) { return; }
                if (is_string(t.k))
                {
                    V w = gen_text(r, t);
                    c.note(cat("leaf of ", a.id, " = ", show(t, w)));
                    assign_leaf(ref, t, w, r);
                    v = clip_text(t, w);
                }
                else
                {
                    V w = is_enum(t.k) ? gen_enum(r, t) : gen_prim(r, t.k, false);
                    c.note(cat("leaf of ", a.id, " = ", show(t, w)));
                    assign_leaf(ref, t, w, r);
                    v = w;
                }
                c.count("writes.leaf");
            }, never);
    }

    void op_seq()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 75, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (t.k != SEQ) { return; }
                c.count("seq.ops");
                bool full = t.n && v.e.size() >= t.n;
                switch (r.below(8))
                {
                    case 0: case 1: case 2:
                    {
                        int times = r.chance(20) ? r.range(3, 12) : 1;
                        for (int q = 0; q < times; ++q)
                        {
                            V w = gen_value(r, *t.a, o);
                            full = t.n && v.e.size() >= t.n;
                            c.note(cat("push ", show(*t.a, w), full ? " (full)" : ""));
                            std::unique_ptr<DynamicData> tmp(mk(*t.a, w, r));
                            if (full) { rejected("push beyond the bound", [&] { ref.push(*tmp); }); }
                            else { ref.push(*tmp); v.e.push_back(w); }
                        }
                        break;
                    }
                    case 3:
                        if (t.a->k != ALIAS && (is_prim(t.a->k) || is_string(t.a->k)))
                        {
                            V w = is_prim(t.a->k) ? gen_prim(r, t.a->k, false) : gen_text(r, *t.a);
                            c.note(cat("push typed ", show(*t.a, w), full ? " (full)" : ""));
                            auto go = [&]
                                {
                                    if (t.a->k == STR) { ref.push<std::string>(w.s); }
                                    else if (t.a->k == WSTR) { ref.push<std::wstring>(w.w); }
                                    else if (t.a->k == STR16) { ref.push<std::u16string>(w.u); }
                                    else { with_prim(t.a->k, [&](auto tag) { using T = typename decltype(tag)::type; ref.push<T>(w.get<T>()); }); }
                                };
                            if (full) { rejected("typed push beyond the bound", go); }
                            else { go(); v.e.push_back(clip_text(*t.a, w)); }
                        }
                        break;
                    case 4:
                        if (!v.e.empty())
                        {
                            size_t i = r.below(v.e.size());
                            c.note(cat("push own element ", i, full ? " (full)" : ""));
                            if (full) { rejected("own element push beyond the bound", [&] { ref.push(ref[i]); }); }
                            else { V w = v.e[i]; ref.push(ref[i]); v.e.push_back(w); }
                        }
                        break;
                    case 5: case 6:
                    {
                        size_t n = r.chance(70) ? v.e.size() + r.below(6) : r.below(12);
                        c.note(cat("resize ", v.e.size(), " -> ", n));
                        if (t.n && n > t.n) { rejected("resize beyond the bound", [&] { ref.resize(n); }); }
                        else
                        {
                            ref.resize(n);
                            while (v.e.size() < n) { v.e.push_back(default_value(*t.a)); }
                        }
                        break;
                    }
                    case 7:
                    {
                        size_t i = v.e.size() + r.below(3);
                        rejected("index outside of the sequence", [&] { auto x = ref[i]; (void)x; });
                        break;
                    }
                }
            }, [](const TD& t) { return t.k == SEQ; });
    }

    int find_key(const TD& t, const V& v, const V& key)
    {
        std::string s = ser(*t.a, key);
        for (size_t i = 0; i < v.m.size(); ++i) { if (ser(*t.a, v.m[i].first) == s) { return int(i); } }
        return -1;
    }

    // Unions used as keys must have a known label to be comparable
    V key_value(const TD& t)
    {
        GenOpt ko = o;
        ko.fpspecial = false;
        V k = gen_value(r, *t.a, ko, 90);
        std::unique_ptr<DynamicData> d(mk(*t.a, k, r));
        std::string e = check(*d, *t.a, k, r, "key");
        if (!e.empty()) { c.die("key-build", e); }
        return k;
    }

    void op_map()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 75, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (t.k != MAP) { return; }
                c.count("map.ops");
                int times = r.chance(15) ? r.range(4, 14) : 1;
                for (int q = 0; q < times; ++q) { map_step(ref, t, v); }
            }, [](const TD& t) { return t.k == MAP; });
    }

    void map_step(WritableDynamicDataRef ref, const TD& t, V& v)
    {
        V k = (!v.m.empty() && r.chance(35)) ? v.m[r.below(v.m.size())].first : key_value(t);
        int at = find_key(t, v, k);
        bool full = t.n && v.m.size() >= t.n;
        std::unique_ptr<DynamicData> key(mk(*t.a, k, r));
        switch (r.below(9))
        {
            case 0: case 1: case 2:     // keyed access with write
            {
                V w = gen_value(r, *t.b, o);
                c.note(cat("map[", show(*t.a, k), "] = ", show(*t.b, w), at >= 0 ? " (known)" : full ? " (full)" : ""));
                std::unique_ptr<DynamicData> val(mk(*t.b, w, r));
                if (at < 0 && full) { rejected("keyed access into a full map", [&] { ref[*key] = val->ref(); }); break; }
                if (r.chance(30)) { ref[DynamicData(*key)] = val->ref(); c.count("temporaries.referenced"); }
                else { ref[*key] = val->ref(); }
                if (at >= 0) { v.m[size_t(at)].second = w; } else { v.m.push_back({k, w}); }
                break;
            }
            case 3:                     // keyed access without write
                c.note(cat("map[", show(*t.a, k), "]", at >= 0 ? " (known)" : full ? " (full)" : ""));
                if (at < 0 && full) { rejected("keyed access into a full map", [&] { ref[*key]; }); break; }
                {
                    WritableDynamicDataRef x = ref[*key];
                    V expect = at >= 0 ? v.m[size_t(at)].second : default_value(*t.b);
                    std::string e = check(x, *t.b, expect, r, "accessed value");
                    if (!e.empty()) { c.die("map-access", e); }
                }
                if (at < 0) { v.m.push_back({k, default_value(*t.b)}); }
                break;
            case 4: case 5:             // insert a pair
            {
                V w = gen_value(r, *t.b, o);
                const PairType& pt = static_cast<const PairType&>(static_cast<const MapType&>(real(t)).content_type());
                DynamicData p(pt);
                fill(p[0], *t.a, k, r);
                fill(p[1], *t.b, w, r);
                bool temp = r.chance(30);
                bool done = temp ? ref.insert(DynamicData(p)) : ref.insert(p);
                if (temp) { c.count("temporaries.referenced"); }
                c.note(cat("insert(", show(*t.a, k), ",", show(*t.b, w), ") -> ", done));
                bool expect = at < 0 && !full;
                if (done != expect) { c.die("map-insert-result", cat("insert returned ", done, " known=", at >= 0, " full=", full)); }
                if (done) { v.m.push_back({k, w}); }
                break;
            }
            case 6:                     // presence and at()
            {
                bool has = r.chance(50) ? ref.has_key(*key) : ref.has_key(DynamicData(*key));
                if (has != (at >= 0)) { c.die("map-has-key", cat("has_key ", has, " for ", show(*t.a, k))); }
                if (at < 0) { rejected("at() of an absent key", [&] { ref.at(DynamicData(*key)); }); }
                break;
            }
            case 7:                     // a key of the map used as key of the map
                if (!v.m.empty())
                {
                    size_t n = 0, pick = r.below(v.m.size());
                    for (auto&& p : ref)
                    {
                        if (n++ == pick)
                        {
                            c.note("access with an own key");
                            if (r.chance(50)) { auto x = ref[p[0]]; (void)x; }
                            else if (ref.insert(p)) { c.die("map-insert-own", "insertion of an own pair succeeded"); }
                            break;
                        }
                    }
                }
                break;
            case 8:                     // the value refers to the map itself
                if (!v.m.empty() && !full)
                {
                    size_t i = r.below(v.m.size());
                    std::unique_ptr<DynamicData> src(mk(*t.a, v.m[i].first, r));
                    V w = v.m[i].second;
                    c.note("copy a value between keys");
                    DynamicData tmp(ref.at(*src));
                    ref[*key] = tmp.ref();
                    if (at >= 0) { v.m[size_t(at)].second = w; } else { v.m.push_back({k, w}); }
                }
                break;
        }
    }

    void op_union()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 80, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (t.k != UNION) { return; }
                c.count("union.ops");
                size_t i = r.below(t.mem.size());
                const Mem& m = t.mem[i];
                switch (r.below(7))
                {
                    case 0: case 1:         // select and write
                    {
                        V w = gen_value(r, *m.type, o);
                        c.note(cat("union.", m.name, " = ", show(*m.type, w)));
                        std::unique_ptr<DynamicData> val(mk(*m.type, w, r));
                        ref[m.name] = val->ref();
                        set_active(t, v, int(i), w);
                        break;
                    }
                    case 2:                 // select only
                    {
                        c.note(cat("union select ", m.name));
                        V expect = v.active == int(i) ? v.e[0] : default_value(*m.type);
                        {
                            WritableDynamicDataRef x = ref[m.name];
                            std::string e = check(x, *m.type, expect, r, "selected");
                            if (!e.empty()) { c.die("union-select", e); }
                        }
                        set_active(t, v, int(i), expect);
                        break;
                    }
                    case 3:                 // a label of some member
                        if (!m.labels.empty())
                        {
                            int64_t l = m.labels[r.below(m.labels.size())];
                            c.note(cat("union d(", l, ") member ", m.name, " selected ", v.active));
                            if (v.active < 0)
                            {
                                set_disc(ref, *t.a, l, r);
                                v.active = int(i); v.e.assign(1, default_value(*m.type)); v.label = l; v.label_known = true;
                            }
                            else if (v.active == int(i)) { set_disc(ref, *t.a, l, r); v.label = l; v.label_known = true; }
                            else { rejected("discriminator of another member", [&] { set_disc(ref, *t.a, l, r); }); }
                        }
                        break;
                    case 4:                 // a value that labels nothing
                    {
                        int64_t l = int64_t(r.range(0, 40));
                        if (t.a->res().k == BOOL || is_enum(t.a->res().k)) { break; }
                        for (auto& x : t.mem) { for (auto y : x.labels) { if (y == l) { return; } } }
                        c.note(cat("union d(", l, ") labels nothing"));
                        // may be refused or ignored; either way nothing changes
                        try { set_disc(ref, *t.a, l, r); } catch (const std::runtime_error&) { c.count("rejections"); }
                        if (v.active < 0)
                        {
                            // an union with a default member selects it: accept exactly that
                            for (size_t q = 0; q < t.mem.size(); ++q)
                            {
                                if (t.mem[q].is_default)
                                {
                                    bool sel = true;
                                    try { ref.current_case(); } catch (const std::runtime_error&) { sel = false; }
                                    if (sel) { v.active = int(q); v.e.assign(1, default_value(*t.mem[q].type)); v.label_known = false; }
                                }
                            }
                        }
                        break;
                    }
                    case 5:                 // read of a member that is not selected
                        if (v.active != int(i))
                        {
                            ReadableDynamicDataRef rr(ref);
                            rejected("read of an inactive member", [&] { auto x = rr[m.name]; (void)x; });
                            rejected("get_member of an inactive member", [&] { auto x = ref.get_member(m.name); (void)x; });
                        }
                        break;
                    case 6:
                        rejected("unknown member of an union", [&] { auto x = ref["no such member"]; (void)x; });
                        break;
                }
            }, [](const TD& t) { return t.k == UNION; });
    }

    void set_active(const TD&, V& v, int i, const V& content)
    {
        if (v.active != i) { v.label_known = false; }
        v.active = i;
        V w = content;
        v.e.assign(1, w);
    }

    void op_iter()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 60, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (t.k == SEQ || t.k == ARR)
                {
                    if (comp(t.a->res())) { return; }
                    c.note("write through an element iterator");
                    size_t i = 0;
                    const TD& et = t.a->res();
                    for (auto&& x : ref)
                    {
                        if (i < v.e.size() && r.chance(50))
                        {
                            V w = is_string(et.k) ? gen_text(r, et) : is_enum(et.k) ? gen_enum(r, et) : gen_prim(r, et.k, false);
                            assign_leaf(x, et, w, r);
                            v.e[i] = is_string(et.k) ? clip_text(et, w) : w;
                            c.count("writes.iterator");
                        }
                        ++i;
                    }
                    if (i != v.e.size()) { c.die("iterator-count", cat(i, " elements visited of ", v.e.size())); }
                }
                else if (t.k == STRUCT)
                {
                    c.note("write through a member iterator");
                    auto ms = t.all();
                    size_t i = 0;
                    for (auto&& p : ref.items())
                    {
                        if (i >= ms.size()) { c.die("iterator-count", "too many members"); }
                        const TD& et = ms[i]->type->res();
                        if (!comp(et) && r.chance(60))
                        {
                            V w = is_string(et.k) ? gen_text(r, et) : is_enum(et.k) ? gen_enum(r, et) : gen_prim(r, et.k, false);
                            assign_leaf(p.data(), et, w, r);
                            v.e[i] = is_string(et.k) ? clip_text(et, w) : w;
                            c.count("writes.iterator");
                        }
                        ++i;
                    }
                    if (i != ms.size()) { c.die("iterator-count", cat(i, " members visited of ", ms.size())); }
                }
            }, [](const TD& t) { return t.k == STRUCT || t.k == SEQ || t.k == ARR; });
    }

    void op_destroy()
    {
        if (pool.size() < 2) { return; }
        size_t i = r.below(pool.size());
        c.note("destroy " + pool[i].id);
        pool.erase(pool.begin() + long(i));
    }

    void op_cmp()
    {
        Obj& a = any();
        for (auto& b : pool)
        {
            if (b.t != a.t) { continue; }
            // labels are known: every object was read after the last operation
            bool expect = same(*a.t, a.v, b.v);
            bool eq = *a.d == *b.d, ne = *a.d != *b.d, rev = *b.d == *a.d;
            c.count("comparisons");
            if (eq != expect || ne == eq || rev != eq)
            {
                c.die("compare", cat(a.id, " vs ", b.id, ": == ", eq, " != ", ne, " reverse ", rev, " expected ", expect, "\n  ", show(*a.t, a.v), "\n  ", show(*b.t, b.v), "\n  ", show(*a.t)));
            }
            if (expect && a.d->hash() != b.d->hash()) { c.die("hash", cat("equal data, different hashes: ", show(*a.t, a.v), "  ", show(*a.t))); }
        }
    }

    // two references to the same place: a write through one is seen through the other
    void op_tworef()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 0, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                if (comp(t)) { return; }
                WritableDynamicDataRef other(ref);
                ReadableDynamicDataRef ro(ref);
                V w = is_string(t.k) ? gen_text(r, t) : is_enum(t.k) ? gen_enum(r, t) : gen_prim(r, t.k, false);
                c.note(cat("write through one of two references ", show(t, w)));
                assign_leaf(other, t, w, r);
                v = is_string(t.k) ? clip_text(t, w) : w;
                std::string e = check(ro, t, v, r, "reference");
                if (e.empty()) { e = check(ref, t, v, r, "reference"); }
                if (!e.empty()) { c.die("two-references", e); }
                c.count("writes.leaf");
            }, never);
    }

    // A type that is compatible with t (or not at all) but not the same.
    TDp near(const TD& t0)
    {
        const TD& t = t0.res();
        if (is_flat(t.k))
        {
            K b = is_enum(t.k) ? enum_base(t.k) : t.k;
            size_t w = with_prim(b, [](auto tag) { return sizeof(typename decltype(tag)::type); });
            static const K one[] = {I8, U8, BOOL, C8}, two[] = {I16, U16, C16}, four[] = {I32, U32, F32, WC}, eight[] = {I64, U64, F64};
            for (;;)
            {
                switch (r.below(5))
                {
                    case 0: if (w != 1) { return mk_prim(one[r.below(4)]); } break;
                    case 1: if (w != 2) { return mk_prim(two[r.below(3)]); } break;
                    case 2: if (w != 4) { return mk_prim(four[r.below(4)]); } break;
                    case 3: if (w != 8) { return mk_prim(eight[r.below(3)]); } break;
                    case 4: if (w != 16) { return mk_prim(F128); } break;
                }
            }
        }
        auto x = std::make_shared<TD>();
        x->k = t.k;
        switch (t.k)
        {
            case STR: case WSTR: case STR16: x->n = t.n ? t.n + uint32_t(r.below(2) ? 0 : 1) : 5; if (x->n == t.n) { x->n = 0; } return x;
            case ARR: x->n = t.n + 1; x->a = t.a; return x;
            case SEQ: x->n = t.n ? t.n - 1 : 3; x->a = t.a; return x;
            case MAP: x->n = t.n ? t.n - 1 : 3; x->a = t.a; x->b = t.b; return x;
            case PAIR: x->a = near(*t.a); x->b = t.b; return x->a ? x : nullptr;
            case STRUCT:
            {
                x->name = "Near";
                for (auto m : t.all()) { x->mem.push_back(*m); }
                Mem m; m.name = fresh_name(r, "more"); m.type = mk_prim(I32);
                x->mem.push_back(m);
                if (x->mem.size() == 1) { x->mem.push_back(m); x->mem.back().name += "2"; }
                return x;
            }
            default: return nullptr;
        }
    }

    // Data of a type that is compatible but not the same, where the same type is required.
    void close_misuse(WritableDynamicDataRef ref, const TD& t)
    {
        TDp n = near(t);
        if (n)
        {
            DynamicData x(real(*n));
            rejected("assignment of data of a close type: " + show(*n), [&] { ref = x.ref(); });
        }
        if (t.k == SEQ && (n = near(*t.a)))
        {
            DynamicData x(real(*n));
            rejected("push of data of a close type: " + show(*n), [&] { ref.push(x); });
        }
        if (t.k == MAP && (n = near(*t.a)))
        {
            DynamicData x(real(*n));
            rejected("map access with a key of a close type: " + show(*n), [&] { auto y = ref[x]; (void)y; });
            rejected("map at() with a key of a close type: " + show(*n), [&] { auto y = ref.at(x); (void)y; });
            rejected("has_key with a key of a close type: " + show(*n), [&] { ref.has_key(x); });
            DynamicData p(PairType(real(*n), real(*t.b)));
            rejected("insertion of a pair with a key of a close type: " + show(*n), [&] { ref.insert(p); });
            if ((n = near(*t.b)))
            {
                DynamicData q(PairType(real(*t.a), real(*n)));
                rejected("insertion of a pair with a value of a close type: " + show(*n), [&] { ref.insert(q); });
            }
        }
    }

    void op_misuse()
    {
        Obj& a = any();
        descend(a.d->ref(), *a.t, a.v, r, 50, [&](WritableDynamicDataRef ref, const TD& t, V& v)
            {
                ReadableDynamicDataRef rr(ref);
                std::string k = kname(t.k);
                if (is_flat(t.k))
                {
                    rejected("string read from " + k, [&] { auto x = rr.value<std::string>(); (void)x; });
                    rejected("string write to " + k, [&] { ref.value<std::string>("x"); });
                    rejected("index of " + k, [&] { auto x = ref[0]; (void)x; });
                    rejected("member of " + k, [&] { auto x = ref["m"]; (void)x; });
                    rejected("push to " + k, [&] { ref.push<int32_t>(1); });
                    rejected("resize of " + k, [&] { ref.resize(3); });
                    rejected("size of " + k, [&] { rr.size(); });
                    rejected("discriminator of " + k, [&] { ref.d(1); });
                    if (t.k != U64 && t.k != I64 && t.k != F64) { rejected("wider read of " + k, [&] { auto x = rr.value<uint64_t>(); (void)x; }); }
                    if (t.k != F128) { rejected("wider write of " + k, [&] { ref.value<long double>(1); }); }
                    if (is_enum(t.k))
                    {
                        std::set<uint32_t> used;
                        for (auto& e : t.enums) { used.insert(e.second); }
                        uint32_t x = 0;
                        do { x = uint32_t(r.below(t.k == E8 ? 256 : 65536)); } while (used.count(x));
                        if (t.k == E8) { rejected("undeclared enumerator", [&] { ref.value<uint8_t>(uint8_t(x)); }); }
                        else if (t.k == E16) { rejected("undeclared enumerator", [&] { ref.value<uint16_t>(uint16_t(x)); }); }
                        else { rejected("undeclared enumerator", [&] { ref.value<uint32_t>(x); }); }
                    }
                }
                else if (is_string(t.k))
                {
                    rejected("number read from " + k, [&] { auto x = rr.value<uint32_t>(); (void)x; });
                    rejected("number write to " + k, [&] { ref.value<uint32_t>(3); });
                    size_t n = t.k == STR ? v.s.size() : t.k == WSTR ? v.w.size() : v.u.size();
                    rejected("character outside of " + k, [&] { auto x = rr[n]; (void)x; });
                    rejected("resize of " + k, [&] { ref.resize(3); });
                    if (t.k != STR) { rejected("narrow read of " + k, [&] { auto x = rr.value<std::string>(); (void)x; }); rejected("narrow write of " + k, [&] { ref.value<std::string>("a"); }); }
                    else { rejected("wide read of " + k, [&] { auto x = rr.value<std::wstring>(); (void)x; }); rejected("wide write of " + k, [&] { ref.value<std::u16string>(u"a"); }); }
                }
                else
                {
                    if (t.k != STRUCT || t.all().size() != 1) { rejected("number read from " + k, [&] { auto x = rr.value<uint32_t>(); (void)x; }); }
                    rejected("number write to " + k, [&] { ref.value<uint16_t>(3); });
                    rejected("string write to " + k, [&] { ref.value<std::string>("s"); });
                    if (t.k == STRUCT || t.k == UNION)
                    {
                        rejected("unknown member of " + k, [&] { auto x = rr["no such member"]; (void)x; });
                        rejected("unknown member write of " + k, [&] { auto x = ref["no such member"]; (void)x; });
                        rejected("push to " + k, [&] { ref.push<int32_t>(1); });
                    }
                    if (t.k == STRUCT) { size_t n = v.e.size() + r.below(3); rejected("member index outside of " + k, [&] { auto x = ref[n]; (void)x; }); }
                    if (t.k == ARR)
                    {
                        size_t n = t.n + r.below(3);
                        rejected("index outside of the array", [&] { auto x = ref[n]; (void)x; });
                        rejected("resize of an array", [&] { ref.resize(3); });
                        rejected("push to an array", [&] { ref.push<int32_t>(1); });
                    }
                    if (t.k != MAP && t.k != UNION)
                    {
                        DynamicData key(primitive_type<int32_t>());
                        rejected("keyed access to " + k, [&] { auto x = ref[key]; (void)x; });
                        rejected("has_key of " + k, [&] { ref.has_key(key); });
                    }
                    if (t.k == MAP)
                    {
                        rejected("map by index", [&] { auto x = ref[0]; (void)x; });
                        if (t.a->res().k != STR && t.a->res().k != STRUCT)
                        {
                            DynamicData key{StringType()};
                            rejected("map access with a key of another type", [&] { auto x = ref[key]; (void)x; });
                            rejected("map at() with a key of another type", [&] { auto x = ref.at(key); (void)x; });
                            rejected("has_key with a key of another type", [&] { ref.has_key(key); });
                        }
                    }
                    if (t.k != UNION) { rejected("discriminator of " + k, [&] { ref.d(1); }); rejected("current case of " + k, [&] { rr.current_case(); }); }
                    if (t.k == UNION) { rejected("union member by index", [&] { auto x = ref[0]; (void)x; }); }
                    // data of an unrelated type
                    StructType odd("Odd");
                    odd.add_member("a", primitive_type<uint16_t>());
                    odd.add_member("b", MapType(StringType(), primitive_type<double>()));
                    odd.add_member("c", WStringType());
                    DynamicData alien(odd);
                    bool may = false;
                    try { may = real(t).is_compatible(odd) != TypeConsistency::NONE; } catch (const std::exception&) { may = true; }
                    if (!may)
                    {
                        rejected("assignment of unrelated data", [&] { ref = alien.ref(); });
                        rejected("conversion of unrelated data", [&] { DynamicData x(alien, real(t)); });
                        rejected("conversion to an unrelated type", [&] { DynamicData x(rr, odd); });
                    }
                }
                close_misuse(ref, t);
                c.count("misuse.rounds");
            }, comp);
    }

    void run(const Prof& p, const std::vector<TDp>& given = {})
    {
        types = given;
        int nt = given.empty() ? r.range(1, 2) : 0;
        for (int i = 0; i < nt; ++i)
        {
            GenOpt q = o;
            q.root = p.roots[r.below(p.roots.size())];
            q.depth = r.range(1, 3);
            types.push_back(gen_type(r, q));
            c.see(sig(*types.back()));
            c.note("type " + show(*types.back()));
        }
        op_new();
        check_all("new");
        int steps = p.steps / 2 + int(r.below(uint64_t(p.steps)));
        static const char* names[] = {"new", "copy", "copy-reference", "move", "assign", "self-assign", "assign-nested", "write-leaf", "sequence", "map", "union", "iterator-write", "destroy", "compare", "two-references", "misuse"};
        for (int s = 0; s < steps; ++s)
        {
            int op = r.weighted(p.w);
            if (pool.size() >= 5 && op <= O_MOVE) { op = O_DESTROY; }
            switch (op)
            {
                case O_NEW: op_new(); break;
                case O_COPY: op_copy(); break;
                case O_COPYREF: op_copyref(); break;
                case O_MOVE: op_move(); break;
                case O_ASSIGN: op_assign(); break;
                case O_SELF: op_self(); break;
                case O_SUBASSIGN: op_subassign(); break;
                case O_LEAF: op_leaf(); break;
                case O_SEQ: op_seq(); break;
                case O_MAP: op_map(); break;
                case O_UNION: op_union(); break;
                case O_ITER: op_iter(); break;
                case O_DESTROY: op_destroy(); break;
                case O_CMP: op_cmp(); break;
                case O_TWOREF: op_tworef(); break;
                case O_MISUSE: op_misuse(); break;
            }
            c.see(uint64_t(op));
            c.count((std::string("op.") + names[op]).c_str());
            check_all(names[op]);
        }
        c.nontrivial = true;
        // destruction in random order
        while (!pool.empty())
        {
            pool.erase(pool.begin() + long(r.below(pool.size())));
            check_all("destroy");
        }
    }
};

void history(Case& c, const Prof& p, const std::function<void(GenOpt&)>& tune = nullptr)
{
    Hist h(c);
    h.o.depth = 3;
    h.o.bool_union = true;
    if (tune) { tune(h.o); }
    h.run(p);
}

//                     new cpy ref mov asg self sub leaf seq map uni itr del cmp two mis
const std::vector<int> W_MIX  = {4, 4, 4, 4, 4, 4, 6, 10, 8, 8, 8, 4, 3, 3, 3, 4};
const std::vector<int> W_LEAF = {3, 2, 2, 2, 2, 2, 6, 40, 2, 2, 2, 10, 2, 1, 14, 2};
const std::vector<int> W_SEQ  = {3, 3, 2, 3, 4, 3, 3, 4, 50, 1, 1, 4, 2, 3, 1, 2};
const std::vector<int> W_MAP  = {3, 3, 2, 3, 4, 3, 3, 4, 1, 50, 1, 2, 2, 3, 1, 2};
const std::vector<int> W_UNI  = {4, 4, 3, 4, 5, 4, 4, 4, 2, 2, 50, 2, 2, 4, 1, 2};
const std::vector<int> W_VAL  = {6, 14, 14, 14, 14, 12, 10, 8, 4, 4, 4, 3, 6, 4, 2, 1};
const std::vector<int> W_BAD  = {5, 2, 2, 2, 2, 2, 3, 4, 6, 6, 6, 1, 2, 1, 1, 50};
const std::vector<int> W_STR  = {6, 5, 5, 4, 5, 3, 8, 40, 10, 10, 6, 10, 2, 4, 4, 2};

} // namespace

// histories of the threads of w_conc
void thread_history(Case& c, const std::vector<TDp>& given)
{
    Hist h(c);
    h.o.depth = 3;
    static const Prof p{"mixed", {-1, STRUCT, STRUCT, SEQ, MAP, UNION, ARR, ALIAS}, W_MIX, 24};
    h.run(p, given);
}

MON_WORKLOAD(hist_mixed) { history(c, Prof{"mixed", {-1, STRUCT, STRUCT, SEQ, MAP, UNION, ARR, ALIAS}, W_MIX, 24}); }
MON_WORKLOAD(hist_leaf) { history(c, Prof{"leaf", {STRUCT, STRUCT, ARR, ALIAS, SEQ, UNION}, W_LEAF, 30}, [](GenOpt& o) { o.max_members = 7; }); }
MON_WORKLOAD(hist_seq) { history(c, Prof{"seq", {SEQ, SEQ, SEQ, STRUCT, ALIAS}, W_SEQ, 26}, [](GenOpt& o) { o.big = true; }); }
MON_WORKLOAD(hist_map) { history(c, Prof{"map", {MAP, MAP, MAP, STRUCT, SEQ}, W_MAP, 26}, [](GenOpt& o) { o.big = true; }); }
MON_WORKLOAD(hist_union) { history(c, Prof{"union", {UNION, UNION, UNION, STRUCT, SEQ, ARR, MAP}, W_UNI, 26}); }
MON_WORKLOAD(hist_value) { history(c, Prof{"value", {-1, STRUCT, SEQ, MAP, UNION, ARR, STR}, W_VAL, 24}); }
MON_WORKLOAD(hist_misuse) { history(c, Prof{"misuse", {-1, STRUCT, SEQ, MAP, UNION, ARR}, W_BAD, 20}); }
MON_WORKLOAD(hist_text) { history(c, Prof{"text", {STR, WSTR, STR16, STRUCT, SEQ, MAP, ARR, UNION}, W_STR, 24},
    [](GenOpt& o) { o.enm = false; o.f128 = false; o.depth = 2; }); }
