// Types: introspection (C22), types as values (C11), enumerations (C21).
#include "typecheck.hpp"
#include "utf.hpp"
#include <xtypes/idl/Module.hpp>
#include <algorithm>
using namespace mdl;
using mon::Violation;

namespace {

template<class F>
bool refused(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

void expect_type(Case& c, const DynamicType& d, const TD& t, const std::string& key)
{
    std::string e = check_type(d, t);
    c.count("types.read");
    if (!e.empty()) { c.die(key, cat(e, "   declared ", show(t))); }
}

TDp wrap(K k, const TDp& a, uint32_t n = 0, const TDp& b = nullptr)
{
    auto t = std::make_shared<TD>();
    t->k = k; t->a = a; t->b = b; t->n = n;
    return t;
}

GenOpt type_opts(Rng& r)
{
    GenOpt o;
    o.depth = r.range(1, 3);
    o.max_members = r.chance(10) ? 14 : 6;
    o.max_bound = r.chance(20) ? 70000 : 9;
    o.max_dim = r.chance(20) ? 20 : 5;
    static const int roots[] = {-1, STRUCT, STRUCT, STRUCT, UNION, UNION, MAP, SEQ, ARR, ALIAS, PAIR, E8, E16, E32};
    o.root = roots[r.below(14)];
    return o;
}

// string form of a label for a discriminator
std::string label_text(Rng& r, const TD& d, int64_t l)
{
    if (is_enum(d.k)) { for (auto& e : d.enums) { if (int64_t(e.second) == l) { return e.first; } } }
    if (d.k == BOOL) { return l ? "TRUE" : "FALSE"; }
    if (d.k == C8 || d.k == C16 || d.k == WC)
    {
        std::string x = enc8({uint32_t(l)});
        return r.chance(50) || l == 39 ? "'" + x + "'" : x;
    }
    if ((l >= 0 || d.k == U64) && !is_enum(d.k))
    {
        char b[40];
        switch (r.below(7))
        {
            case 0: snprintf(b, sizeof b, "0x%llx", (unsigned long long)(l)); return b;
            case 1: snprintf(b, sizeof b, "0X%llX", (unsigned long long)(l)); return b;
            case 2: snprintf(b, sizeof b, "0x%08llX", (unsigned long long)(l)); return b;
            case 3: snprintf(b, sizeof b, "0X%llx", (unsigned long long)(l)); return b;
            case 4: snprintf(b, sizeof b, "0%llo", (unsigned long long)(l)); return b;
            default: break;
        }
        if (d.k == U64 && r.chance(80)) { return std::to_string(uint64_t(l)); }
    }
    return std::to_string(l);
}

} // namespace

MON_WORKLOAD(type_intro)
{
    Rng& r = c.rng;
    GenOpt opts = type_opts(r);
    TDp t = gen_type(r, opts);
    c.see(sig(*t));
    c.note("type " + show(*t));
    const DynamicType& d = real(*t);
    expect_type(c, d, *t, "declared");
    if (is_prim(t->k)) { return; }
    c.nontrivial = true;
    {
        auto fresh = build_fresh(*t);
        expect_type(c, *fresh, *t, "built-again");
        auto copy = copy_type(*fresh, *t);
        expect_type(c, *copy, *t, "copy");
        fresh.reset();
        expect_type(c, *copy, *t, "copy-after-destruction");
        auto second = copy_type(*copy, *t);
        copy.reset();
        expect_type(c, *second, *t, "copy-of-copy");
    }
    // nested into every container
    for (int q = 0; q < 2; ++q)
    {
        TDp outer;
        switch (r.below(7))
        {
            case 0: outer = wrap(SEQ, t, uint32_t(r.below(5))); break;
            case 1: outer = wrap(ARR, t, uint32_t(r.range(1, 4))); break;
            case 2: outer = wrap(ALIAS, t); outer->name = fresh_name(r, "Al"); break;
            case 3: outer = wrap(MAP, wrap(STR, nullptr, uint32_t(r.below(9))), uint32_t(r.below(6)), t); break;
            case 4:
            {
                outer = wrap(STRUCT, nullptr); outer->name = fresh_name(r, "B");
                if (t->k == STRUCT && r.chance(50)) { outer->parent = t; }
                std::set<std::string> used;
                if (outer->parent) { for (auto m : outer->all()) { used.insert(m->name); } }
                int n = r.range(1, 4);
                for (int i = 0; i < n; ++i)
                {
                    Mem m;
                    m.name = fresh_name(r, "z") + std::to_string(i);
                    m.type = r.chance(60) ? t : mk_prim(K(r.below(WC + 1)));
                    if (r.chance(40)) { m.id = r.range(0, 0x0fffffff); }
                    m.key = r.chance(40); m.opt = r.chance(40);
                    if (used.insert(m.name).second) { outer->mem.push_back(m); }
                }
                break;
            }
            case 5:
            {
                outer = wrap(UNION, mk_prim(I16)); outer->name = fresh_name(r, "B");
                Mem m; m.name = "one"; m.type = t; m.labels = {3, -5, 1};
                outer->mem.push_back(m);
                Mem n; n.name = "two"; n.type = mk_prim(F64); n.is_default = true;
                outer->mem.push_back(n);
                break;
            }
            default: outer = wrap(PAIR, mk_prim(I32), 0, t); break;
        }
        outer->pooled = r.chance(50);
        expect_type(c, real(*outer), *outer, "nested");
        auto copy = copy_type(real(*outer), *outer);
        expect_type(c, *copy, *outer, "copy-of-nested");
        if (r.chance(50)) { t = outer; }
    }
    // data of the type reports the type
    if (opts.max_bound < 10 && ref_size(*t) < 20000) // bounded collections reserve their memory
    {
        DynamicData x(real(*t));
        expect_type(c, x.type(), t->res(), "type-of-data");
    }
}

namespace {
// Enumerations aren't copyable: their copies are made by the library
template<class T>
std::shared_ptr<T> copy_through_ptr(const DynamicType& d)
{
    auto p = std::make_shared<DynamicType::Ptr>(d);
    return std::shared_ptr<T>(p, static_cast<T*>(p->operator->()));
}

// union built with textual labels must be the one built with numbers
void union_text(Case& c)
{
    Rng& r = c.rng;
    GenOpt o; o.depth = 1; o.root = UNION;
    TDp t = gen_type(r, o);
    const TD& d = t->a->res();
    const TD& dd = d;
    if (d.k == C8 || d.k == C16 || d.k == WC)
    {
        // only characters that can be written
        auto writable = [&](int64_t l) { return l > 0 && l <= (d.k == C8 ? 126 : d.k == C16 ? 0xFFFD : 0x10FFFF) && (l < 0xD800 || l > 0xDFFF) && l != INT16_MAX; };
        std::set<int64_t> used;
        for (auto& m : t->mem) { used.insert(m.labels.begin(), m.labels.end()); }
        for (auto& m : t->mem)
        {
            for (auto& l : m.labels)
            {
                if (writable(l)) { continue; }
                int64_t n;
                do { n = d.k == C8 ? r.range(1, 126) : r.chance(30) ? r.range(1, 0x7FF) : d.k == C16 || r.chance(50) ? r.range(1, 0xFFFD) : r.range(0x10000, 0x10FFFF); } while (!writable(n) || !used.insert(n).second);
                l = n;
            }
        }
    }
    c.see(sig(*t));
    c.note("textual labels " + show(*t));
    UnionType u(t->name, real(*t->a));
    for (auto& m : t->mem)
    {
        std::vector<std::string> l;
        for (auto x : m.labels) { l.push_back(label_text(r, dd, x)); }
        if (m.is_default) { l.insert(l.begin() + long(r.below(l.size() + 1)), "default"); }
        Member mm(m.name, real(*m.type));
        if (m.id >= 0) { mm.id(m.id); }
        u.add_case_member(l, mm);
    }
    expect_type(c, u, *t, "textual-labels");
    c.nontrivial = true;
    // labels that must be refused, leaving the union as it was
    bool has_default = false;
    std::vector<int64_t> used;
    for (auto& m : t->mem) { has_default |= m.is_default; used.insert(used.end(), m.labels.begin(), m.labels.end()); }
    for (int i = 0; i < 3; ++i)
    {
        std::vector<std::string> bad;
        std::string name = "another";
        switch (r.below(5))
        {
            case 0: bad = {"default", "default"}; break;
            case 1: if (!has_default) { continue; } bad = {"default"}; break;
            case 2: if (used.empty()) { continue; } bad = {label_text(r, dd, r.pick(used))}; break;
            case 3:
                if (dd.k == BOOL) { static const char* const x[] = {"true", "1", "FALSE ", "", "no"}; bad = {x[r.below(5)]}; }
                else if (is_enum(dd.k)) { bad = {"undeclared_" + std::to_string(r.below(9))}; }
                else if (d.k == C8) { static const char* const x[] = {"65", "", "abc", "a'"}; bad = {x[r.below(4)]}; }
                else if (d.k == C16 || d.k == WC) { bad = {""}; }
                else { static const char* const x[] = {"abc", "", "12x", "08", "0x", "0xG", "1.5", "'a'", "TRUE", "1 2", "--1", "1e3"}; bad = {x[r.below(12)]}; }
                c.count("labels.malformed");
                break;
            default: if (t->mem.empty()) { continue; } name = r.pick(t->mem).name; bad = {r.chance(50) || used.empty() ? "default" : label_text(r, dd, r.pick(used))}; break;
        }
        bool thrown = false;
        try { u.add_case_member(bad, Member(name, StringType())); } catch (const std::runtime_error&) { thrown = true; }
        if (!thrown) { c.die("text-accepted", cat("a member '", name, "' with label '", bad[0], "' is accepted by ", show(*t))); }
        c.count("labels.refused");
        expect_type(c, u, *t, "after-refused-label");
    }
    // and values that the discriminator cannot have
    if (is_enum(dd.k))
    {
        std::set<uint32_t> declared;
        for (auto& e : dd.enums) { declared.insert(uint32_t(e.second)); }
        const uint32_t limit = dd.k == E8 ? 0xFF : dd.k == E16 ? 0xFFFF : 0xFFFFFFFF;
        uint32_t v;
        do { v = r.chance(60) ? uint32_t(r.below(20)) : uint32_t(r.next()) & limit; } while (declared.count(v) || int64_t(v) == disc_default(dd) || int64_t(v) == disc_default(dd) - 1);
        bool thrown = false;
        int how = r.range(0, 3);
        try
        {
            if (how == 0) { u.add_case_member<uint32_t>({v}, Member("another", StringType())); }
            else if (how == 1) { u.add_case_member(std::vector<int64_t>{int64_t(v)}, "another", StringType()); }
            else if (how == 2) { u.add_case_member(std::vector<std::string>{std::to_string(v)}, Member("another", StringType())); }
            else { u.add_case_member<uint64_t>({uint64_t(v)}, Member("another", StringType()), !std::any_of(t->mem.begin(), t->mem.end(), [](const Mem& m) { return m.is_default; })); }
        }
        catch (const std::runtime_error&) { thrown = true; }
        if (!thrown) { c.die("undeclared-label", cat("the label ", v, " is accepted by ", show(*t))); }
        c.count("labels.undeclared");
        expect_type(c, u, *t, "after-undeclared-label");
    }
}
}
MON_WORKLOAD(type_labels) { union_text(c); }

// ------------------------------------------------------------------ types are values
namespace {

struct Live
{
    std::shared_ptr<DynamicType> obj;   // plain object: not managed by a shared_ptr of its own
    TDp t;                              // what it must report now
    std::string id;
    bool managed = false;               // ... unless it is a copy of an enumeration, only available through DynamicType::Ptr
};
struct LiveData
{
    std::unique_ptr<DynamicData> d;
    TDp t;
    V v;
    std::string id;
};
struct Entry { std::string name; TDp t; };
struct Held                             // pointers to types own what they point to
{
    DynamicType::Ptr p;
    TDp t;
    std::string id;
};

struct TypeHist
{
    Case& c; Rng& r;
    std::vector<Live> pool;
    std::vector<LiveData> data;
    std::unique_ptr<idl::Module> mod;
    std::vector<Entry> entries;
    std::vector<Held> held;
    int serial = 0;
    explicit TypeHist(Case& cc) : c(cc), r(cc.rng), mod(new idl::Module()) {}

    TDp snap(const TDp& t) { return clone_desc(t); }

    template<class T>
    void add(T* obj, const TDp& t)
    {
        // (the extra indirection keeps shared_from_this() unavailable)
        pool.push_back(Live{std::shared_ptr<DynamicType>(std::make_shared<std::unique_ptr<T>>(obj), obj), t, "T" + std::to_string(serial++)});
        c.note(cat("  ", pool.back().id, " = ", show(*t)));
    }

    // a leaf or live type usable as constituent: the real object and its current description
    struct Use { const DynamicType* d; TDp t; };
    std::vector<TDp> kept;
    Use pick_use()
    {
        if (!held.empty() && r.chance(12))
        {
            Held& h = held[r.below(held.size())];
            if (h.t && count_nodes(*h.t) < 60) { return Use{&*h.p, h.t}; }
        }
        if (!pool.empty() && r.chance(75))
        {
            Live& l = pool[r.below(pool.size())];
            if (count_nodes(*l.t) < 60) { return Use{l.obj.get(), l.t}; }
        }
        GenOpt o; o.depth = 0;
        TDp t = gen_type(r, o);
        kept.push_back(t);
        return Use{&real(*t), t};
    }
    static size_t count_nodes(const TD& t)
    {
        size_t n = 1;
        if (t.a) { n += count_nodes(*t.a) * (t.k == ARR ? t.n : 1); }
        if (t.b) { n += count_nodes(*t.b); }
        if (t.parent) { n += count_nodes(*t.parent); }
        for (auto& m : t.mem) { n += count_nodes(*m.type); }
        return n;
    }
    static bool hashable(const TD& t)
    {
        // unions and maps are left out of the keys here
        switch (t.k)
        {
            case UNION: case MAP: return false;
            case STRUCT: for (auto m : t.all()) { if (!hashable(*m->type)) { return false; } } return true;
            case ARR: case SEQ: case ALIAS: return hashable(*t.a);
            default: return true;
        }
    }

    void create()
    {
        int k = r.weighted({30, 15, 10, 10, 8, 8, 10, 8, 6});
        switch (k)
        {
            case 0:
            {
                auto t = std::make_shared<TD>();
                t->k = STRUCT; t->name = fresh_name(r, "S");
                StructType* s = nullptr;
                if (r.chance(25))
                {
                    for (auto& l : pool)
                    {
                        if (l.t->k == STRUCT && r.chance(50) && count_nodes(*l.t) < 60)
                        {
                            t->parent = snap(l.t);
                            s = new StructType(t->name, static_cast<const StructType*>(l.obj.get()));
                            break;
                        }
                    }
                }
                if (!s) { s = new StructType(t->name); }
                add(s, t);
                int n = r.range(t->parent ? 0 : 1, 4);
                for (int i = 0; i < n; ++i) { grow(pool.back()); }
                break;
            }
            case 1:
            {
                auto t = std::make_shared<TD>();
                t->k = UNION; t->name = fresh_name(r, "U");
                const DynamicType* disc = nullptr;
                for (auto& l : pool) { if (is_enum(l.t->k) && !l.t->enums.empty() && r.chance(50)) { disc = l.obj.get(); t->a = snap(l.t); } }
                if (!disc) { t->a = mk_prim(r.chance(50) ? I32 : I16); disc = &real(*t->a); }
                add(new UnionType(t->name, *disc), t);
                grow(pool.back());
                if (t->mem.empty())
                {
                    pool.pop_back();
                    return;
                }
                grow(pool.back());
                break;
            }
            case 2: { Use u = pick_use(); auto t = wrap(SEQ, snap(u.t), uint32_t(r.below(6))); add(t->n ? new SequenceType(*u.d, t->n) : new SequenceType(*u.d), t); break; }
            case 3: { Use u = pick_use(); auto t = wrap(ARR, snap(u.t), uint32_t(r.range(1, 4))); add(new ArrayType(*u.d, t->n), t); break; }
            case 4:
            {
                Use a = pick_use(), b = pick_use();
                if (!hashable(*a.t)) { return; }
                auto t = wrap(MAP, snap(a.t), uint32_t(r.below(5)), snap(b.t));
                add(t->n ? new MapType(*a.d, *b.d, t->n) : new MapType(*a.d, *b.d), t);
                break;
            }
            case 5: { Use u = pick_use(); auto t = wrap(ALIAS, snap(u.t)); t->name = fresh_name(r, "A"); add(new AliasType(*u.d, t->name), t); break; }
            case 6:
            {
                auto t = std::make_shared<TD>();
                t->k = K(E8 + r.below(3)); t->name = fresh_name(r, "E");
                if (t->k == E8) { add(new EnumerationType<uint8_t>(t->name), t); }
                else if (t->k == E16) { add(new EnumerationType<uint16_t>(t->name), t); }
                else { add(new EnumerationType<uint32_t>(t->name), t); }
                grow(pool.back());
                grow(pool.back());
                break;
            }
            case 7:
            {
                auto t = std::make_shared<TD>();
                t->k = K(STR + r.below(3)); t->n = uint32_t(r.below(9));
                if (t->k == STR) { add(new StringType(t->n), t); } else if (t->k == WSTR) { add(new WStringType(t->n), t); } else { add(new String16Type(t->n), t); }
                break;
            }
            default: { Use a = pick_use(), b = pick_use(); add(new PairType(*a.d, *b.d), wrap(PAIR, snap(a.t), 0, snap(b.t))); break; }
        }
    }

    template<class E>
    void grow_enum(Live& l)
    {
        auto& e = static_cast<EnumerationType<E>&>(*l.obj);
        uint32_t next = l.t->enums.empty() ? 0 : l.t->enums.back().second + 1;
        std::string n = fresh_name(r, "e");
        if (e.has_enumerator(n)) { return; }
        if (r.chance(50)) { e.add_enumerator(n); }
        else
        {
            next += uint32_t(r.below(4));
            if (next > 200) { return; }
            e.add_enumerator(n, E(next));
        }
        l.t->enums.push_back({n, next});
        c.note(cat("  ", l.id, " + enumerator ", n, "=", next));
    }

    void grow(Live& l0)
    {
        std::string id = l0.id;
        auto find = [&]() -> Live& { for (auto& x : pool) { if (x.id == id) { return x; } } abort(); };
        TDp t = l0.t;
        switch (t->k)
        {
            case STRUCT:
            {
                if (t->all().size() > 8) { return; }
                Mem m;
                m.name = fresh_name(r, "m");
                for (auto x : t->all()) { if (x->name == m.name) { return; } }
                Use u = pick_use();
                m.type = snap(u.t);
                if (r.chance(30)) { m.id = r.range(0, 1000); }
                m.key = r.chance(20); m.opt = r.chance(20);
                auto& s = static_cast<StructType&>(*find().obj);
                Member mm(m.name, *u.d);
                if (m.id >= 0) { mm.id(m.id); }
                if (m.key) { mm.key(); }
                if (m.opt) { mm.optional(); }
                s.add_member(mm);
                t->mem.push_back(m);
                c.note(cat("  ", id, " + member ", m.name, ":", show(*m.type)));
                break;
            }
            case UNION:
            {
                Mem m;
                m.name = fresh_name(r, "m");
                std::set<int64_t> used;
                bool def = false;
                for (auto& x : t->mem) { if (x.name == m.name) { return; } def |= x.is_default; for (auto y : x.labels) { used.insert(y); } }
                const TD& d = t->a->res();
                for (int i = 0; i < 3; ++i)
                {
                    int64_t x = is_enum(d.k) ? int64_t(d.enums[r.below(d.enums.size())].second) : r.range(-9, 9);
                    if (used.insert(x).second) { m.labels.push_back(x); }
                }
                if (!def && r.chance(25)) { m.is_default = true; }
                if (m.labels.empty()) { return; }
                Use u = pick_use();
                m.type = snap(u.t);
                static_cast<UnionType&>(*find().obj).add_case_member<int64_t>(m.labels, Member(m.name, *u.d), m.is_default);
                t->mem.push_back(m);
                c.note(cat("  ", id, " + case ", m.name, ":", show(*m.type)));
                break;
            }
            case E8: grow_enum<uint8_t>(l0); break;
            case E16: grow_enum<uint16_t>(l0); break;
            case E32: grow_enum<uint32_t>(l0); break;
            case PAIR:
            {
                // the types of a pair may be replaced
                Use u = pick_use();
                TDp x = snap(u.t);
                bool first = r.chance(50), temp = r.chance(40) && !is_prim(x->k);
                auto& p = static_cast<PairType&>(*find().obj);
                if (temp) { DynamicType::Ptr copy(*u.d); first ? p.first(*copy) : p.second(*copy); }
                else { first ? p.first(*u.d) : p.second(*u.d); }
                (first ? t->a : t->b) = x;
                c.count("history.pair-retyped");
                c.note(cat("  ", id, first ? " first = " : " second = ", show(*x)));
                break;
            }
            default: break;
        }
    }

    void rename(Live& l)
    {
        switch (l.t->k)
        {
            case STRUCT: case UNION: case ALIAS: case E8: case E16: case E32:
                l.t->name = fresh_name(r, "N");
                l.obj->name(l.t->name);
                c.note(cat("  ", l.id, " renamed ", l.t->name));
                break;
            default: break;
        }
    }

    void copy_one()
    {
        Live& l = pool[r.below(pool.size())];
        const DynamicType& o = *l.obj;
        TDp t = snap(l.t);
        c.note(cat("  copy of ", l.id));
        switch (t->k)
        {
#define CPY(KK, CLS) case KK: add(new CLS(static_cast<const CLS&>(o)), t); break;
            CPY(STRUCT, StructType) CPY(UNION, UnionType) CPY(SEQ, SequenceType) CPY(ARR, ArrayType) CPY(MAP, MapType)
            CPY(ALIAS, AliasType) CPY(PAIR, PairType) CPY(STR, StringType) CPY(WSTR, WStringType) CPY(STR16, String16Type)
            case E8: case E16: case E32:
                pool.push_back(Live{copy_through_ptr<DynamicType>(o), t, "T" + std::to_string(serial++), true});
                c.note(cat("  ", pool.back().id, " = ", show(*t)));
                break;
            default: break;
        }
    }

    void make_data()
    {
        Live& l = pool[r.below(pool.size())];
        if (l.managed || !usable(*l.t) || count_nodes(*l.t) > 120) { return; }
        GenOpt o; o.max_elems = 2; o.fpspecial = false;
        TDp t = snap(l.t);
        V v = gen_value(r, *t, o);
        std::unique_ptr<DynamicData> d(new DynamicData(*l.obj));
        // filled later through the data only; the original may be already different
        data.push_back(LiveData{std::move(d), t, default_value(*t), "D" + std::to_string(serial++)});
        c.note(cat("  data ", data.back().id, " of ", l.id));
        if (r.chance(50)) { fill_data(data.back(), v); }
    }
    void fill_data(LiveData& x, const V& v)
    {
        DynamicData tmp(x.d->type());
        fill(tmp.ref(), *x.t, v, r);
        *x.d = tmp;
        x.v = v;
    }
    // enumerations without enumerators hold the undeclared 0: kept out of the values
    static bool usable(const TD& t)
    {
        if (is_enum(t.k)) { return !t.enums.empty(); }
        if (t.k == UNION && t.mem.empty()) { return false; }
        if (t.k == STRUCT && t.all().empty()) { return false; }
        if (t.a && !usable(*t.a)) { return false; }
        if (t.b && !usable(*t.b)) { return false; }
        for (auto m : t.all()) { if (!usable(*m->type)) { return false; } }
        return true;
    }

    void to_module()
    {
        size_t i = r.below(pool.size());
        Live& l = pool[i];
        std::string name = fresh_name(r, "Q");
        if (mod->has_symbol(name, false)) { return; }
        TDp t = snap(l.t);
        bool done = false;
        switch (t->k)
        {
            case STRUCT:
            {
                t->name = name;
                StructType copy(static_cast<const StructType&>(*l.obj));
                copy.name(name); done = mod->structure(std::move(copy));
                break;
            }
            case UNION:
            {
                t->name = name;
                UnionType copy(static_cast<const UnionType&>(*l.obj));
                copy.name(name); done = mod->union_switch(std::move(copy));
                break;
            }
            case E32:
            {
                t->name = name;
                std::string old = l.obj->name();
                l.obj->name(name);
                done = mod->enum_32(std::move(static_cast<EnumerationType<uint32_t>&>(*l.obj)));
                l.obj->name(old);
                break;
            }
            default:
            {
                auto al = wrap(ALIAS, t);
                al->name = name;
                DynamicType::Ptr p(*l.obj);
                done = mod->create_alias(std::move(p), name);
                t = al;
                break;
            }
        }
        c.note(cat("  module entry ", name, " from ", l.id, " -> ", done));
        if (!done) { c.die("module-refused", cat(name, " ", show(*t))); }
        entries.push_back(Entry{name, t});
    }

    // where a pointer can come from
    bool source(DynamicType::Ptr& into, TDp& t, bool assign)
    {
        auto put = [&](const DynamicType& d, const TDp& x) { t = snap(x); if (assign) { DynamicType::Ptr q(d); into = q; } else { into = DynamicType::Ptr(d); } return true; };
        switch (r.below(6))
        {
            case 0: case 1: if (!pool.empty()) { Live& l = pool[r.below(pool.size())]; c.note("   from " + l.id); return put(*l.obj, l.t); } return false;
            case 2: if (!data.empty()) { LiveData& x = data[r.below(data.size())]; c.note("   from type of " + x.id); return put(x.d->type(), std::make_shared<TD>(x.t->res())); } return false;
            case 3:
                if (!entries.empty())
                {
                    Entry& e = entries[r.below(entries.size())];
                    c.note("   from module " + e.name);
                    DynamicType::Ptr q = mod->type(e.name);
                    if (!q.get()) { c.die("module-type", cat(e.name, " has no type()")); }
                    t = snap(e.t);
                    if (assign) { into = q; } else { into = std::move(q); }
                    return true;
                }
                return false;
            case 4:
                if (!entries.empty())
                {
                    auto all = mod->get_all_types();
                    Entry& e = entries[r.below(entries.size())];
                    if (!all.count(e.name)) { c.die("module-type", cat(e.name, " is not in get_all_types()")); }
                    c.note("   from all types " + e.name);
                    t = snap(e.t);
                    if (assign) { into = all[e.name]; } else { into = std::move(all[e.name]); }
                    return true;
                }
                return false;
            default:
                if (!held.empty())
                {
                    Held& h = held[r.below(held.size())];
                    c.note("   from " + h.id);
                    if (!h.t) { return false; }
                    TDp x = snap(h.t);
                    if (assign) { into = h.p; } else { DynamicType::Ptr q(h.p); into = std::move(q); }
                    t = x;
                    return true;
                }
                return false;
        }
    }
    void pointers()
    {
        int k = held.empty() ? 0 : r.weighted({20, 20, 25, 15, 10, 10});
        if (k == 0 && held.size() > 5) { k = 5; }
        if (k == 0)
        {
            Held h; h.id = "P" + std::to_string(serial++);
            c.note("  new " + h.id);
            if (!source(h.p, h.t, r.chance(50))) { h.t = nullptr; h.p = DynamicType::Ptr(); }
            held.push_back(std::move(h));
            return;
        }
        size_t i = r.below(held.size());
        Held& h = held[i];
        c.note("  on " + h.id);
        switch (k)
        {
            case 1: source(h.p, h.t, true); break;
            case 2:
                if (!h.t) { break; }
                switch (h.t->k)
                {
                    case STRUCT: case UNION: case ALIAS: case E8: case E16: case E32:
                        h.t->name = fresh_name(r, "P");
                        h.p->name(h.t->name);
                        c.note("   renamed " + h.t->name);
                        break;
                    default: break;
                }
                break;
            case 3:
                if (!h.t || h.t->k != STRUCT || h.t->all().size() > 8) { break; }
                {
                    Mem m;
                    m.name = fresh_name(r, "m");
                    for (auto x : h.t->all()) { if (x->name == m.name) { return; } }
                    Use u = pick_use();
                    m.type = snap(u.t);
                    static_cast<StructType*>(h.p.operator->())->add_member(m.name, *u.d);
                    h.t->mem.push_back(m);
                    c.note("   member " + m.name);
                }
                break;
            case 4:
                if (r.chance(50)) { h.p.free(); h.t = nullptr; }
                else { Held q{std::move(h.p), h.t, h.id + "'"}; held.erase(held.begin() + long(i)); held.push_back(std::move(q)); }
                break;
            default: held.erase(held.begin() + long(i)); break;
        }
        c.count("pointer.operations");
    }

    void check_all(const std::string& after)
    {
        for (auto& h : held)
        {
            std::string e;
            if (!h.t != !h.p.get()) { e = cat(h.id, h.t ? " is empty" : " is not empty"); }
            else if (h.t) { e = check_type(*h.p, *h.t, h.id); c.count("types.read"); }
            if (!e.empty()) { c.die("pointer-changed-after:" + after, cat(e, "   expected ", h.t ? show(*h.t) : "none")); }
        }
        for (auto& l : pool)
        {
            std::string e = check_type(*l.obj, *l.t, l.id);
            c.count("types.read");
            if (!e.empty()) { c.die("type-changed-after:" + after, cat(e, "   expected ", show(*l.t))); }
        }
        for (auto& x : data)
        {
            std::string e = check_type(x.d->type(), x.t->res(), x.id + ".type");
            if (e.empty()) { e = check(*x.d, *x.t, x.v, r, x.id); }
            c.count("reads.trees");
            if (!e.empty()) { c.die("data-changed-after:" + after, cat(e, "   expected ", show(*x.t))); }
        }
        for (auto& en : entries)
        {
            const idl::Module& m = *mod;
            std::string e;
            switch (en.t->k)
            {
                case STRUCT: e = m.has_structure(en.name) ? check_type(m.structure(en.name), *en.t, en.name) : "structure not found"; break;
                case UNION: e = m.has_union(en.name) ? check_type(m.union_switch(en.name), *en.t, en.name) : "union not found"; break;
                case E32: e = m.has_enum_32(en.name) ? check_type(m.enum_32(en.name), *en.t, en.name) : "enumeration not found"; break;
                default: e = m.has_alias(en.name) ? check_type(m.alias(en.name), *en.t, en.name) : "alias not found"; break;
            }
            c.count("module.entries.read");
            if (!e.empty()) { c.die("module-entry-changed-after:" + after, cat(en.name, ": ", e, "   expected ", show(*en.t))); }
        }
    }

    void run()
    {
        static const char* names[] = {"create", "grow", "rename", "destroy", "copy", "data", "module", "write", "from-data", "pointer"};
        int steps = r.range(6, 26);
        create();
        for (int s = 0; s < steps; ++s)
        {
            int op = pool.empty() ? 0 : r.weighted({18, 20, 12, 12, 10, 12, 8, 8, 5, 16});
            if (pool.size() > 7) { op = 3; }
            c.see(uint64_t(op));
            c.note(names[op]);
            switch (op)
            {
                case 0: create(); break;
                case 1: grow(pool[r.below(pool.size())]); break;
                case 2: rename(pool[r.below(pool.size())]); break;
                case 3: { size_t i = r.below(pool.size()); c.note("  " + pool[i].id); pool.erase(pool.begin() + long(i)); break; }
                case 4: copy_one(); break;
                case 5: if (data.size() < 6) { make_data(); } else { data.erase(data.begin()); } break;
                case 6: if (entries.size() < 6) { to_module(); } break;
                case 7:
                    if (!data.empty())
                    {
                        LiveData& x = data[r.below(data.size())];
                        GenOpt o; o.max_elems = 2;
                        fill_data(x, gen_value(r, *x.t, o));
                    }
                    break;
                case 8:     // type object copied out of a data, which then is destroyed
                    if (!data.empty())
                    {
                        size_t i = r.below(data.size());
                        TDp t = snap(data[i].t);
                        const DynamicType& o = data[i].d->type();
                        switch (t->k)
                        {
                            CPY(STRUCT, StructType) CPY(UNION, UnionType) CPY(SEQ, SequenceType) CPY(ARR, ArrayType) CPY(MAP, MapType)
                            default: break;
                        }
                        if (r.chance(50)) { data.erase(data.begin() + long(i)); }
                    }
                    break;
            }
            if (op == 9) { pointers(); }
            c.count((std::string("op.") + names[op]).c_str());
            check_all(names[op]);
        }
        c.see(pool.empty() ? 0 : sig(*pool[0].t));
        c.nontrivial = true;
        if (r.chance(50)) { mod.reset(); entries.clear(); }
        while (!pool.empty()) { pool.erase(pool.begin() + long(r.below(pool.size()))); }
        check_all("end");
        if (r.chance(50)) { held.clear(); }
        if (r.chance(50)) { mod.reset(); entries.clear(); }
    }
};
} // namespace

MON_WORKLOAD(type_values) { TypeHist h(c); h.run(); }

// Data of a type managed by a shared_ptr (as the ones of a module) share the type object
MON_PROBE(c11_shared_type)
{
    auto s = std::make_shared<StructType>("S");
    s->add_member("a", primitive_type<int32_t>());
    DynamicData d(*s);
    s->add_member("b", StringType());
    if (static_cast<const StructType&>(d.type()).members().size() != 1) { c.fail("data-follows-managed-type", "a member added to a type managed by a std::shared_ptr appears in the type of the existing data"); }
}
MON_PROBE(c11_module_type)
{
    idl::Module m;
    StructType s("S");
    s.add_member("a", primitive_type<int32_t>());
    m.structure(s);
    DynamicData d(m.structure("S"));
    m.structure("S").add_member("b", StringType());
    if (static_cast<const StructType&>(d.type()).members().size() != 1) { c.fail("data-follows-module-type", "a member added to the structure of a module appears in the type of the existing data"); }
}
MON_PROBE(c11_enum_copy_next)
{
    EnumerationType<uint32_t> e("E");
    e.add_enumerator("a", 5);
    StructType s("S");
    s.add_member("e", e);
    auto copy = copy_through_ptr<EnumerationType<uint32_t>>(s.member("e").type());
    copy->add_enumerator("b");
    if (copy->value("b") != 6) { c.fail("copy-next-value", cat("the copy continues with ", copy->value("b"))); }
}

// ------------------------------------------------------------------ enumerations (C21)
namespace {

template<class E>
struct EnumProg
{
    Case& c; Rng& r;
    struct Obj { std::shared_ptr<EnumerationType<E>> e; std::vector<std::pair<std::string, E>> m; };
    std::vector<Obj> pool;
    static constexpr uint64_t MAX = std::numeric_limits<E>::max();
    explicit EnumProg(Case& cc) : c(cc), r(cc.rng) {}

    void check_one(Obj& o, const std::string& after)
    {
        auto& e = *o.e;
        c.count("enum.checks");
        if (e.enumerators().size() != o.m.size()) { c.die("enumerators:" + after, cat(e.enumerators().size(), " enumerators, declared ", o.m.size())); }
        std::set<E> vals;
        for (auto& x : o.m)
        {
            vals.insert(x.second);
            auto it = e.enumerators().find(x.first);
            if (it == e.enumerators().end() || it->second != x.second || !e.has_enumerator(x.first) || e.value(x.first) != x.second)
            {
                c.die("mapping:" + after, cat(x.first, " declared ", +x.second));
            }
            if (e.enumerator(x.second) != x.first) { c.die("reverse:" + after, cat(+x.second, " is ", e.enumerator(x.second), " declared ", x.first)); }
        }
        auto probe = [&](E v)
            {
                bool w = vals.count(v) == 1;
                if (e.is_allowed_value(v) != w) { c.die("allowed:" + after, cat("is_allowed_value(", +v, ") is ", !w)); }
                if (!w && !e.enumerator(v).empty()) { c.die("reverse:" + after, cat(+v, " is ", e.enumerator(v))); }
            };
        if (sizeof(E) == 1) { for (unsigned v = 0; v < 256; ++v) { probe(E(v)); } }
        else
        {
            for (int i = 0; i < 8; ++i) { probe(E(r.next())); }
            for (auto& x : o.m) { probe(E(x.second + 1)); probe(E(x.second - 1)); }
            probe(0); probe(E(MAX));
        }
        if (e.has_enumerator("none of them") || !refused([&] { e.value("none of them"); })) { c.die("unknown:" + after, "unknown enumerator reported"); }
        c.count("enum.values.probed", 10);
    }

    bool full(const Obj& o) { return !o.m.empty() && o.m.back().second == E(MAX); }
    uint64_t next(const Obj& o) { return o.m.empty() ? 0 : uint64_t(o.m.back().second) + 1; }

    void step(Obj& o)
    {
        std::string n = fresh_name(r, "e") + std::to_string(o.m.size());
        switch (r.below(9))
        {
            case 0: case 1: case 2:
                c.note("add " + n);
                if (full(o)) { if (!refused([&] { o.e->add_enumerator(n); })) { c.die("accepted-after-maximum", n); } c.count("rejections"); break; }
                { E v = E(next(o)); o.e->add_enumerator(n); o.m.push_back({n, v}); }
                break;
            case 3: case 4:
            {
                uint64_t v = next(o);
                switch (r.below(4)) { case 0: break; case 1: v += r.below(5); break; case 2: v += r.below(MAX / 4 + 1); break; case 3: if (r.chance(25)) { v = MAX - r.below(3); } break; }
                if (v > MAX) { v = MAX; }
                bool ok = !full(o) && v >= next(o);
                c.note(cat("add ", n, "=", v, ok ? "" : " (refused)"));
                if (!ok) { if (!refused([&] { o.e->add_enumerator(n, E(v)); })) { c.die("accepted-not-greater", cat(n, "=", v)); } c.count("rejections"); break; }
                o.e->add_enumerator(n, E(v)); o.m.push_back({n, E(v)});
                break;
            }
            case 5:     // not greater than the last one
                if (!o.m.empty())
                {
                    uint64_t top = o.m.back().second;
                    uint64_t v = r.chance(50) ? top : r.below(top + 1);
                    c.note(cat("add ", n, "=", v, " (refused)"));
                    if (!refused([&] { o.e->add_enumerator(n, E(v)); })) { c.die("accepted-not-greater", cat(n, "=", v, " after ", top)); }
                    c.count("rejections");
                }
                break;
            case 6:     // repeated name
                if (!o.m.empty() && !full(o))
                {
                    std::string d = r.pick(o.m).first;
                    c.note("add repeated " + d);
                    bool imp = r.chance(50);
                    if (!refused([&] { if (imp) { o.e->add_enumerator(d); } else { o.e->add_enumerator(d, E(next(o))); } })) { c.die("accepted-repeated-name", d); }
                    c.count("rejections");
                }
                break;
            case 7:
            {
                c.note("copy");
                Obj q;
                if (r.chance(40)) { q.e = copy_through_ptr<EnumerationType<E>>(*o.e); }
                else if (r.chance(50))
                {
                    StructType s("S");
                    s.add_member("m", *o.e);
                    StructType s2(s);
                    q.e = copy_through_ptr<EnumerationType<E>>(s2.member("m").type());
                }
                else
                {
                    AliasType a(SequenceType(*o.e), "A");
                    DynamicData d(a);
                    DynamicData x(*o.e); d.push(x);
                    q.e = copy_through_ptr<EnumerationType<E>>(d[0].type());
                }
                q.m = o.m;
                if (pool.size() < 4) { pool.push_back(std::move(q)); } // o is not used any more
                break;
            }
            case 8: break;
        }
    }

    void run()
    {
        Obj o;
        o.e.reset(new EnumerationType<E>(fresh_name(r, "E")));
        pool.push_back(std::move(o));
        int steps = r.range(3, 24);
        for (int s = 0; s < steps; ++s)
        {
            size_t i = r.below(pool.size());
            step(pool[i]);
            for (auto& x : pool) { check_one(x, "step"); }
        }
        c.see(mon::mix64(sizeof(E), pool.size()));
        for (auto& x : pool) { for (auto& y : x.m) { c.see(y.second); } }
        c.nontrivial = !pool[0].m.empty();
        for (auto& x : pool) { if (!x.m.empty()) { write(x); } }
    }

    // accepted and refused writes through every path
    void write(Obj& o)
    {
        const EnumerationType<E>& e = *o.e;
        std::set<E> vals;
        for (auto& x : o.m) { vals.insert(x.second); }
        AliasType al(e, "Alias");
        StructType parent("P");
        parent.add_member("p", e);
        StructType st("S", &parent);
        st.add_member("m", e);
        st.add_member("al", al);
        st.add_member("arr", ArrayType(e, 3));
        st.add_member("seq", SequenceType(e));
        st.add_member("map", MapType(e, e));
        UnionType un("U", e);
        un.add_case_member<E>({o.m[0].second}, Member("um", e));
        st.add_member("un", un);
        DynamicData d(st);
        DynamicData single(e);
        std::map<std::string, E> now;
        std::vector<E> seq;
        std::map<E, E> mp;
        E first = o.m[0].second;
        // every location is written once with a declared value, as the default 0 can be undeclared
        auto put = [&](WritableDynamicDataRef x, E v, int how)
            {
                switch (how)
                {
                    case 0: x = v; break;
                    case 1: x.value<E>(v); break;
                    default: { DynamicData t(e); t = v; x = t.ref(); break; }
                }
            };
        auto at = [&](const std::string& p) -> WritableDynamicDataRef
            {
                if (p == "single") { return single.ref(); }
                if (p == "p" || p == "m" || p == "al") { return d[p]; }
                if (p == "un") { return d["un"]["um"]; }
                return d["arr"][size_t(p[1] - '0')];
            };
        static const char* locs[] = {"single", "p", "m", "al", "a0", "a1", "a2", "un"};
        for (auto l : locs) { put(at(l), first, int(r.below(3))); now[l] = first; }
        auto read = [&](const std::string& after)
            {
                for (auto l : locs)
                {
                    ReadableDynamicDataRef x = at(l);
                    if (x.value<E>() != now[l]) { c.die("value:" + after, cat(l, " holds ", +x.value<E>(), " expected ", +now[l])); }
                    c.count("enum.reads");
                }
                auto sq = d["seq"];
                if (sq.size() != seq.size()) { c.die("sequence:" + after, cat(sq.size(), " elements, pushed ", seq.size())); }
                for (size_t i = 0; i < seq.size(); ++i) { if (sq[i].value<E>() != seq[i]) { c.die("sequence:" + after, cat("element ", i)); } }
                auto m = d["map"];
                if (m.size() != mp.size()) { c.die("map:" + after, cat(m.size(), " pairs, stored ", mp.size())); }
                for (auto& x : mp)
                {
                    DynamicData k(e); k = x.first;
                    if (!m.has_key(k) || m.at(k).template value<E>() != x.second) { c.die("map:" + after, cat("key ", +x.first)); }
                }
            };
        read("start");
        int steps = r.range(8, 24);
        for (int s = 0; s < steps; ++s)
        {
            bool good = r.chance(50);
            E v = E(r.next());
            if (r.chance(50)) { v = E(r.pick(o.m).second + E(r.range(-1, 1))); }
            if (good) { v = r.pick(o.m).second; }
            good = vals.count(v) == 1;
            std::string l = locs[r.below(8)];
            int how = int(r.below(3));
            switch (r.below(4))
            {
                case 0: case 1:
                    c.note(cat(l, " <- ", +v, good ? "" : " (refused)"));
                    if (good) { put(at(l), v, how); now[l] = v; }
                    else if (!refused([&] { put(at(l), v, how); })) { c.die(cat("accepted-undeclared:", how), cat(+v, " in ", l)); }
                    break;
                case 2:
                    c.note(cat("push ", +v, good ? "" : " (refused)"));
                    if (good)
                    {
                        DynamicData t(e);
                        t = v;
                        d["seq"].push(t);
                        seq.push_back(v);
                    }
                    else if (!refused([&] { d["seq"].push(v); })) { c.die("accepted-undeclared:push", cat(+v)); }
                    break;
                case 3:
                {
                    E k = r.pick(o.m).second;
                    DynamicData kd(e); kd = k;
                    c.note(cat("map[", +k, "] <- ", +v, good ? "" : " (refused)"));
                    if (good) { d["map"][kd] = v; mp[k] = v; }
                    else if (mp.count(k) && !refused([&] { d["map"][kd] = v; })) { c.die("accepted-undeclared:map", cat(+v)); }
                    break;
                }
            }
            c.count(good ? "enum.accepted" : "enum.refused");
            read("write");
        }
    }
};
} // namespace

MON_WORKLOAD(enum_prog)
{
    switch (c.rng.below(3))
    {
        case 0: { EnumProg<uint8_t> p(c); p.run(); break; }
        case 1: { EnumProg<uint16_t> p(c); p.run(); break; }
        default: { EnumProg<uint32_t> p(c); p.run(); break; }
    }
}

namespace {
struct TwoEnums
{
    EnumerationType<uint32_t> a{"A"}, b{"B"};
    TwoEnums()
    {
        a.add_enumerator("x", 1);
        b.add_enumerator("y", 7);
    }
};
template<class F>
void undeclared(Case& c, const char* key, F&& f)
{
    TwoEnums t;
    DynamicData da(t.a), db(t.b);
    da = uint32_t(1);
    db = uint32_t(7);
    try { f(t, da, db); }
    catch (const std::runtime_error&) {}
    if (!t.a.is_allowed_value(da.value<uint32_t>())) { c.fail(key, cat("the enumeration holds the undeclared value ", da.value<uint32_t>())); }
}
}
MON_PROBE(c21_other_enum_assign) { undeclared(c, "undeclared-by-data-assignment", [](TwoEnums&, DynamicData& a, DynamicData& b) { a = b; }); }
MON_PROBE(c21_other_enum_ref_assign) { undeclared(c, "undeclared-by-reference-assignment", [](TwoEnums&, DynamicData& a, DynamicData& b) { a.ref() = b.ref(); }); }
MON_PROBE(c21_uint_assign)
{
    undeclared(c, "undeclared-by-integer-assignment", [](TwoEnums&, DynamicData& a, DynamicData&) { DynamicData n(primitive_type<uint32_t>()); n = uint32_t(9); a = n; });
}
MON_PROBE(c21_other_enum_convert)
{
    TwoEnums t;
    DynamicData db(t.b);
    db = uint32_t(7);
    try
    {
        DynamicData da(db, t.a);
        if (!t.a.is_allowed_value(da.value<uint32_t>())) { c.fail("undeclared-by-conversion", cat("the converted enumeration holds the undeclared value ", da.value<uint32_t>())); }
    }
    catch (const std::runtime_error&) {}
}
MON_PROBE(c21_other_enum_push)
{
    TwoEnums t;
    DynamicData db(t.b);
    db = uint32_t(7);
    DynamicData s(SequenceType(t.a));
    try { s.push(db); }
    catch (const std::runtime_error&) {}
    if (s.size() && !t.a.is_allowed_value(s[0].value<uint32_t>())) { c.fail("undeclared-by-push", "the element of the sequence holds an undeclared value"); }
}
MON_PROBE(c21_default_value)
{
    EnumerationType<uint8_t> e("E");
    e.add_enumerator("b", 3).add_enumerator("a", 4);
    if (!e.is_allowed_value(e.default_value())) { c.fail("default-value", cat(+e.default_value())); }
}
MON_PROBE(c21_after_maximum)
{
    EnumerationType<uint8_t> e("E");
    e.add_enumerator("a", 255);
    if (!refused([&] { e.add_enumerator("b"); })) { c.fail("after-maximum", cat("accepted with value ", +e.value("b"))); }
    if (!refused([&] { e.add_enumerator("d", 0); })) { c.fail("after-maximum", "0 accepted"); }
}
MON_PROBE(c22_signed_labels)
{
    UnionType u("U", primitive_type<int8_t>());
    u.add_case_member<int>({-1, -128}, Member("m", primitive_type<int32_t>()));
    auto l = u.get_labels("m");
    std::set<int64_t> s(l.begin(), l.end());
    if (s != std::set<int64_t>({-1, -128})) { c.fail("signed-labels", "the labels -1 and -128 are not reported"); }
}

// Declarations that must be refused while a type is being built, and questions it must refuse to answer (C13)
namespace {
void misuse_questions(Case& c, const AggregationType& a, const TD& t)
{
    Rng& r = c.rng;
    size_t n = a.members().size();
    size_t i = r.chance(50) ? n : r.chance(50) ? n + size_t(r.below(4)) : r.chance(50) ? size_t(-1) : n + size_t(r.next() >> 8);
    if (!refused([&] { a.member(i); })) { c.die("member-index", cat("member(", i, ") of ", n, " members is answered")); }
    std::string name = r.chance(50) || !n ? fresh_name(r, "absent") + "?" : a.members()[r.below(n)].name() + (r.chance(50) ? " " : "_");
    bool known = false;
    for (auto& m : a.members()) { known |= m.name() == name; }
    if (!known && !refused([&] { a.member(name); })) { c.die("member-name", cat("member(\"", name, "\") is answered")); }
    if (a.has_member(name) != known) { c.die("has_member", name); }
    if (!a.has_parent() && !refused([&] { a.parent(); })) { c.die("parent", "the parent of a type without parent is answered"); }
    c.count("misuse.questions");
    expect_type(c, a, t, "after-refused-question");
}

// a DynamicData of a member that is not there
void misuse_data(Case& c, const AggregationType& a, const TD& t)
{
    Rng& r = c.rng;
    DynamicData d(a);
    size_t n = a.members().size();
    if (t.k == STRUCT)
    {
        size_t i = n + (r.chance(70) ? 0 : size_t(r.below(9)));
        DynamicData before(d);
        if (!refused([&] { d[i]; }) || !refused([&] { const DynamicData& k = d; k[i]; })) { c.die("data-index", cat("[", i, "] of ", n, " members is answered")); }
        if (!refused([&] { d["absent?"]; })) { c.die("data-name", "an absent member is answered"); }
        if (!(before == d)) { c.die("data-state", "changed by a refused access"); }
    }
    else
    {
        if (!refused([&] { d["absent?"]; })) { c.die("data-name", "an absent case is answered"); }
        for (auto& m : t.mem)
        {
            const DynamicData& k = d;
            (void)k;
            if (!a.has_member(m.name)) { c.die("data-case", m.name); }
        }
    }
    c.count("misuse.data");
}

void misuse_struct(Case& c)
{
    Rng& r = c.rng;
    GenOpt o; o.depth = 2; o.max_members = 4; o.max_bound = 6; o.max_dim = 3;
    TD t; t.k = STRUCT; t.name = fresh_name(r, "S");
    std::unique_ptr<StructType> s;
    if (r.chance(40))
    {
        GenOpt p = o; p.root = STRUCT;
        t.parent = gen_type(r, p);
        s.reset(new StructType(t.name, static_cast<const StructType*>(&real(*t.parent))));
    }
    else { s.reset(new StructType(t.name)); }
    c.note("inherits " + (t.parent ? show(*t.parent) : std::string("nothing")));
    int n = r.range(1, 8);
    std::set<std::string> used;
    for (auto m : t.all()) { used.insert(m->name); }
    for (int i = 0; i < n; ++i)
    {
        if (r.chance(60))
        {
            Mem m; m.name = fresh_name(r, "m"); m.type = gen_type(r, o);
            if (!used.insert(m.name).second) { continue; }
            Member mm(m.name, real(*m.type));
            if (r.chance(30)) { m.id = r.range(0, 999); mm.id(m.id); }
            if (r.chance(30)) { m.key = true; mm.key(true); }
            if (r.chance(30)) { m.opt = true; mm.optional(true); }
            s->add_member(mm);
            t.mem.push_back(m);
            expect_type(c, *s, t, "declared");
        }
        else if (!used.empty())
        {
            auto it = used.begin(); std::advance(it, long(r.below(used.size())));
            TDp other = gen_type(r, o);
            c.note(cat("again ", *it, " as ", show(*other)));
            bool no = true;
            switch (r.below(3))
            {
                case 0: no = refused([&] { s->add_member(*it, real(*other)); }); break;
                case 1: no = refused([&] { Member m(*it, real(*other)); m.id(7).key(true); s->add_member(m); }); break;
                default: no = refused([&] { s->add_member(*it, SequenceType(real(*other), 3)); }); break;
            }
            if (!no) { c.die("duplicate-member", cat("a second member '", *it, "' is accepted")); }
            c.count("misuse.duplicate-member");
            expect_type(c, *s, t, "after-duplicate-member");
        }
        if (r.chance(50)) { misuse_questions(c, *s, t); }
    }
    c.see(sig(t));
    c.nontrivial = true;
    misuse_questions(c, *s, t);
    misuse_data(c, *s, t);
}

void misuse_union(Case& c)
{
    Rng& r = c.rng;
    GenOpt o; o.depth = 2; o.max_members = 4; o.max_bound = 6; o.max_dim = 3;
    TD t; t.k = UNION; t.name = fresh_name(r, "U");
    static const K kinds[] = {U8, I16, U16, I32, U32, I64, U64, I8, BOOL};
    K k = kinds[r.below(9)];
    t.a = mk_prim(k);
    if (r.chance(20)) { t.a = wrap(ALIAS, t.a); t.a->name = fresh_name(r, "A"); }
    int64_t lo = k == U8 || k == U16 || k == U32 || k == U64 || k == BOOL ? 0 : -100, hi = k == BOOL ? 1 : 100;
    UnionType u(t.name, real(*t.a));
    std::set<int64_t> labels;
    bool has_default = false;
    int n = r.range(2, 10);
    auto fresh_label = [&](int64_t& l) { for (int i = 0; i < 20; ++i) { l = r.range(int(lo), int(hi)); if (!labels.count(l)) { return true; } } return false; };
    std::vector<int64_t> postponed; // labels of refused members: still free
    for (int i = 0; i < n; ++i)
    {
        std::vector<int64_t> l;
        if (!postponed.empty() && r.chance(70)) { int64_t x = r.pick(postponed); if (labels.insert(x).second) { l.push_back(x); } }
        for (int q = r.range(1, 3); q > 0; --q) { int64_t x; if (fresh_label(x)) { labels.insert(x); l.push_back(x); } }
        Mem m; m.name = fresh_name(r, "m"); m.type = gen_type(r, o);
        bool dup = false;
        for (auto& x : t.mem) { dup |= x.name == m.name; }
        bool dflt = !has_default && r.chance(30);
        if (!dup && (!l.empty() || dflt) && r.chance(60))
        {
            m.labels = l; m.is_default = dflt;
            has_default |= dflt;
            u.add_case_member(l, Member(m.name, real(*m.type)), dflt);
            t.mem.push_back(m);
            expect_type(c, u, t, "declared");
        }
        else
        {
            for (auto x : l) { labels.erase(x); }
            std::vector<int64_t> bad = l;
            std::string name = m.name, why;
            bool d = false;
            switch (r.below(5))
            {
                case 0:
                    if (labels.empty()) { continue; }
                    { auto it = labels.begin(); std::advance(it, long(r.below(labels.size()))); bad.insert(bad.begin() + long(r.below(bad.size() + 1)), *it); }
                    d = !has_default && r.chance(30);
                    why = "a label in use";
                    break;
                case 1:
                    if (t.mem.empty() || (l.empty() && has_default)) { continue; }
                    name = r.pick(t.mem).name; d = !has_default && (l.empty() || r.chance(50)); why = "a name in use";
                    break;
                case 2:
                    if (!has_default) { continue; }
                    d = true; why = "a second default"; break;
                case 3: bad.clear(); why = "no label"; break;
                default: if (l.empty()) { continue; } name = "discriminator"; why = "the name of the discriminator"; break;
            }
            std::string shown;
            for (auto x : bad) { shown += cat(" ", x); }
            c.note(cat("refused: ", why, ", labels", shown, d ? " default" : "", ", name ", name));
            if (!refused([&] { u.add_case_member(bad, Member(name, real(*m.type)), d); })) { c.die("case-accepted", cat("a case with ", why, " is accepted by ", show(t))); }
            c.count("misuse.case");
            postponed.insert(postponed.end(), l.begin(), l.end());
            expect_type(c, u, t, "after-refused-case");
        }
        if (r.chance(40)) { misuse_questions(c, u, t); }
    }
    c.see(sig(t));
    c.nontrivial = true;
    if (!t.mem.empty())
    {
        misuse_questions(c, u, t);
        misuse_data(c, u, t);
        // every case still works as declared
        DynamicData d(u);
        for (auto& m : t.mem)
        {
            d[m.name];
            if (d.current_case().name() != m.name) { c.die("case", m.name); }
            if (!m.labels.empty() && std::find(m.labels.begin(), m.labels.end(), d.d().cast<int64_t>()) == m.labels.end()) { c.die("label", m.name); }
        }
    }
}

template<class T>
void misuse_enum(Case& c)
{
    Rng& r = c.rng;
    EnumerationType<T> e("E");
    std::map<std::string, T> values;
    std::map<std::string, T> refused_names;
    uint64_t next = 0;
    int n = r.range(3, 14);
    std::string log;
    auto check = [&](const char* when)
        {
            std::map<std::string, T> got;
            for (auto& x : e.enumerators()) { got[x.first] = x.second; }
            if (got != values) { c.die("enumerators", cat(when, ":", log)); }
            for (auto& v : values)
            {
                if (!e.has_enumerator(v.first) || e.value(v.first) != v.second || !e.is_allowed_value(v.second)) { c.die("enumerator", cat(when, " ", v.first, ":", log)); }
            }
        };
    for (int i = 0; i < n; ++i)
    {
        std::string name = cat("e", r.below(9));
        bool have = values.count(name) != 0, ok = true;
        int how = int(r.below(3));
        uint64_t v = next;
        if (how == 0) { log += cat(" ", name); ok = refused([&] { e.add_enumerator(name); }); }
        else
        {
            bool lower = how == 2 && next > 0;
            v = lower ? r.below(next) : next + r.below(4);
            if (v > std::numeric_limits<T>::max()) { continue; }
            log += cat(" ", name, "=", v);
            ok = refused([&] { e.add_enumerator(name, T(v)); });
        }
        bool must = have || v < next;
        if (must != ok) { c.die(must ? "accepted" : "refused", cat("the last of", log)); }
        if (!must) { values[name] = T(v); next = v + 1; }
        else { c.count("misuse.enumerator"); log += "!"; }
        check(must ? "after a refused enumerator" : "declared");
        std::string absent = cat("x", r.below(9));
        if (!refused([&] { e.value(absent); })) { c.die("value", absent); }
    }
    c.see(mon::mix64(std::hash<std::string>()(log), sizeof(T)));
    c.note(log);
    c.nontrivial = true;
}
}

MON_WORKLOAD(type_misuse)
{
    Rng& r = c.rng;
    switch (r.below(8))
    {
        case 0: case 1: case 2: misuse_struct(c); break;
        case 3: case 4: case 5: misuse_union(c); break;
        case 6:
            switch (r.below(3))
            {
                case 0: misuse_enum<uint8_t>(c); break;
                case 1: misuse_enum<uint16_t>(c); break;
                default: misuse_enum<uint32_t>(c); break;
            }
            break;
        default:
        {
            GenOpt o; o.depth = 2; o.max_members = 3; o.max_bound = 4; o.max_dim = 3;
            TDp t = gen_type(r, o);
            const TD& x = t->res();
            c.see(sig(*t));
            c.note("type " + show(*t));
            c.nontrivial = true;
            if (!refused([&] { ArrayType a(real(*t), std::vector<uint32_t>{}); })) { c.die("array", "without dimensions"); }
            bool disc = (x.k != F32 && x.k != F64 && x.k != F128 && is_prim(x.k)) || is_enum(x.k);
            // a discriminator of an alias of an alias is accepted too
            if (!disc && !refused([&] { UnionType u("U", real(*t)); })) { c.die("discriminator", show(*t)); }
            if (disc && refused([&] { UnionType u("U", real(*t)); })) { c.die("discriminator-refused", show(*t)); }
            c.count("misuse.types");
            expect_type(c, real(*t), *t, "after-refused-use");
            break;
        }
    }
}
