// Threads that own their data, and threads that only read shared data, types and modules (C19).
// Built with ThreadSanitizer; what every thread observes is also compared with a sequential execution.
#include "model.hpp"
#include "typecheck.hpp"
#include "walk.hpp"
#include "utf.hpp"
#include <xtypes/idl/Module.hpp>
#include <xtypes/idl/generator.hpp>
#include <atomic>
#include <sched.h>
#include <thread>
using namespace mdl;
using eprosima::xtypes::idl::Module;
namespace gen = eprosima::xtypes::idl::generator;

void thread_history(Case& c, const std::vector<TDp>& given);

namespace {

// The threads of a case. Nothing but relaxed counters is shared by the harness, so that it orders nothing.
struct Crew
{
    static const size_t LOG = 4096;
    Case& c;
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    std::atomic<uint32_t> ticket{0};
    std::vector<std::atomic<uint8_t>> order;
    explicit Crew(Case& c) : c(c), order(LOG) {}

    void step(int me, Rng& delay)
    {
        uint32_t t = ticket.fetch_add(1, std::memory_order_relaxed);
        if (t < LOG) { order[t].store(uint8_t(me + 1), std::memory_order_relaxed); }
        switch (delay.below(12))
        {
            case 0: sched_yield(); break;
            case 1: { volatile int x = 0; for (int i = int(delay.below(2000)); i > 0; --i) { x = i; } (void)x; break; }
            default: break;
        }
    }

    void run(int n, const std::function<void(Case&, int)>& body)
    {
        std::vector<std::unique_ptr<Case>> cases;
        std::vector<Rng> delays;
        for (int i = 0; i < n; ++i)
        {
            cases.emplace_back(new Case(c.rng.next()));
            cases.back()->local = true;
            delays.emplace_back(c.rng.next());
        }
        std::vector<std::thread> threads;
        for (int i = 0; i < n; ++i)
        {
            threads.emplace_back([&, i]
                {
                    Case& my = *cases[size_t(i)];
                    my.tick = [&, i] { step(i, delays[size_t(i)]); };
                    ready.fetch_add(1);
                    while (!go.load()) { sched_yield(); }
                    try { body(my, i); }
                    catch (const mon::Violation& v) { my.fail(v.key, v.detail); }
                    catch (const std::exception& e) { my.fail("unexpected-exception", e.what()); }
                    my.tick = nullptr;
                });
        }
        while (ready.load() != n) { sched_yield(); }
        go.store(true);
        for (auto& t : threads) { t.join(); }
        uint32_t len = std::min<uint32_t>(ticket.load(), LOG);
        uint64_t switches = 0;
        for (uint32_t i = 0; i < len; ++i)
        {
            uint8_t o = order[i].load();
            c.see(o);
            if (i && o != order[i - 1].load()) { ++switches; }
        }
        c.count("threads", uint64_t(n));
        c.count("thread.steps", len);
        c.count("thread.switches", switches);
        if (switches > uint64_t(n)) { c.count("cases.interleaved"); c.nontrivial = true; }
        for (int i = 0; i < n; ++i)
        {
            for (auto& q : cases[size_t(i)]->counts) { c.count(q.first.c_str(), q.second); }
            if (!cases[size_t(i)]->failure.empty())
            {
                c.note(cat("thread ", i, ":\n", cases[size_t(i)]->log));
                c.die("thread-result", cat("thread ", i, " of ", n, ": ", cases[size_t(i)]->failure));
            }
        }
    }
};

// the harness builds real types on demand: everything is built before the threads start
void prebuild(const TD& t)
{
    real(t);
    if (t.a) { prebuild(*t.a); }
    if (t.b) { prebuild(*t.b); }
    if (t.parent) { prebuild(*t.parent); }
    for (auto& m : t.mem) { prebuild(*m.type); }
}

struct Step
{
    Case& c;
    void operator()(const char* what) const { c.note(what); c.count(what); }
};

size_t visit_all(ReadableDynamicDataRef ref, std::string& text)
{
    size_t n = 0;
    ref.for_each([&](const DynamicData::ReadableNode& x)
        {
            ++n;
            text += x.type().name();
            text += x.from_member() ? x.from_member()->name() : std::to_string(x.from_index() & 0xff);
            text += x.data().type().is_primitive_type() ? x.data().cast<std::string>() : "";
            text += std::to_string(x.deep());
        });
    return n;
}

size_t iterate(ReadableDynamicDataRef ref, const TD& t0)
{
    const TD& t = t0.res();
    size_t n = 1;
    switch (t.k)
    {
        case ARR: case SEQ: for (auto&& x : ref) { n += iterate(x, *t.a); } break;
        case MAP: for (auto&& p : ref) { n += iterate(p[0], *t.a) + iterate(p[1], *t.b); } break;
        case STRUCT:
        {
            auto ms = t.all();
            size_t i = 0;
            for (auto it = ref.items().begin(); it != ref.items().end(); ++it) { n += iterate((*it).data(), *ms[i++]->type); }
            break;
        }
        default: break;
    }
    return n;
}

// what a sequential reader sees
struct Shared
{
    TDp t;
    V v;
    std::unique_ptr<DynamicData> owner;
    std::unique_ptr<DynamicData> equal, other;
    bool other_equal = false;
    std::string text, trace;
    uint64_t hash = 0;
    size_t nodes = 0, visited = 0;
    bool keyed = false;
};

} // namespace

// every thread owns its data; the types are shared
MON_WORKLOAD_NOLEAK(conc_own)
{
    Rng& r = c.rng;
    std::vector<TDp> shared;
    if (r.chance(80))
    {
        int n = r.range(1, 2);
        for (int i = 0; i < n; ++i)
        {
            GenOpt o;
            static const int roots[] = {-1, STRUCT, STRUCT, SEQ, MAP, UNION, ARR, ALIAS};
            o.root = roots[r.below(8)];
            o.depth = r.range(1, 3);
            shared.push_back(gen_type(r, o));
            prebuild(*shared.back());
            c.see(sig(*shared.back()));
            c.note("shared type " + show(*shared.back()));
        }
    }
    Crew crew(c);
    crew.run(r.range(2, 4), [&](Case& my, int) { thread_history(my, shared); });
}

// concurrent readers of the same data
MON_WORKLOAD_NOLEAK(conc_read)
{
    Rng& r = c.rng;
    GenOpt o = trav_opts(r);
    o.depth = r.range(1, 3);
    Shared s;
    s.t = gen_type(r, o);
    prebuild(*s.t);
    TDp again = clone_desc(s.t);
    prebuild(*again);
    const TD& t = *s.t;
    s.v = gen_value(r, t, o, 80);
    select_all(r, t, s.v, o);
    mend(r, t, s.v);
    c.see(sig(t));
    c.note("type " + show(t));
    c.note("value " + show(t, s.v));
    s.owner.reset(mk(t, s.v, r));
    s.equal.reset(mk(t, s.v, r));
    V ov = gen_value(r, t, o, 60);
    select_all(r, t, ov, o);
    mend(r, t, ov);
    s.other.reset(mk(t, ov, r));
    const DynamicData& d = *s.owner;
    {
        std::string e = check(d, t, s.v, r);
        if (!e.empty()) { c.die("setup", e); }
        s.text = d.to_string();
        s.hash = d.hash();
        s.visited = visit_all(d, s.trace);
        s.nodes = iterate(d, t);
        s.other_equal = d == *s.other;
    }
    bool container = r.chance(30);      // the readers may share a reference object and a place inside other data
    std::unique_ptr<DynamicData> holder;
    if (container)
    {
        holder.reset(new DynamicData(SequenceType(real(t))));
        holder->push(d);
        holder->push(*s.other);
    }
    const ReadableDynamicDataRef ref = container ? static_cast<const DynamicData&>(*holder)[0] : d.ref();
    Crew crew(c);
    crew.run(r.range(2, 4), [&](Case& my, int)
        {
            Rng& q = my.rng;
            Step step{my};
            V mine = s.v;
            std::unique_ptr<DynamicData> own;
            int n = q.range(6, 16);
            for (int i = 0; i < n; ++i)
            {
                switch (q.below(13))
                {
                    case 0: case 1:
                    {
                        step("conc.read-tree");
                        std::string e = check(ref, t, mine, q);
                        if (!e.empty()) { my.die("read", e); }
                        break;
                    }
                    case 2:
                    {
                        step("conc.render");
                        if (d.to_string() != s.text) { my.die("render", "another text than before"); }
                        std::ostringstream os;
                        os << d;
                        if (os.str() != s.text) { my.die("render", "another text than before"); }
                        break;
                    }
                    case 3:
                        step("conc.hash");
                        if (ref.hash() != s.hash) { my.die("hash", "another hash than before"); }
                        break;
                    case 4:
                        step("conc.compare");
                        if (!(ref == *s.equal) || *s.equal != d) { my.die("compare", "equal data compare different"); }
                        if ((d == *s.other) != s.other_equal || (*s.other != ref) == s.other_equal) { my.die("compare", "another answer than before"); }
                        break;
                    case 5:
                    {
                        step("conc.visit");
                        std::string trace;
                        size_t k = visit_all(d, trace);
                        if (k != s.visited || trace != s.trace) { my.die("visit", cat(k, " nodes visited, before ", s.visited)); }
                        break;
                    }
                    case 6:
                        step("conc.iterate");
                        if (iterate(ref, t) != s.nodes) { my.die("iterate", "another number of children than before"); }
                        break;
                    case 7: case 8:
                    {
                        step("conc.copy");
                        own.reset(q.chance(50) ? new DynamicData(d) : new DynamicData(ref, real(t)));
                        V w = mine;
                        std::string e = check(*own, t, w, q);
                        if (!e.empty()) { my.die("copy", e); }
                        break;
                    }
                    case 9:
                        if (own)
                        {
                            step("conc.assign");
                            if (q.chance(50)) { *own = *s.other; }
                            else { own->ref() = s.other->ref(); }
                            *own = d;
                            V w = mine;
                            std::string e = check(*own, t, w, q);
                            if (!e.empty()) { my.die("assign", e); }
                        }
                        break;
                    case 10:
                    {
                        step("conc.convert");
                        DynamicData k(ref, real(*again));
                        V w = mine;
                        std::string e = check(k, *again, w, q);
                        if (!e.empty()) { my.die("convert", e); }
                        break;
                    }
                    case 11:
                        if (own)
                        {
                            step("conc.write-own");
                            descend(own->ref(), t, mine, q, 30, [&](WritableDynamicDataRef x, const TD& xt, V& xv)
                                {
                                    if (xt.k == ALIAS || !(is_flat(xt.k) || is_string(xt.k))) { return; }
                                    if (is_string(xt.k)) { xv = clip_text(xt, gen_text(q, xt)); } else if (is_enum(xt.k)) { xv = gen_enum(q, xt); } else { xv = gen_prim(q, xt.k, false); }
                                    assign_leaf(x, xt, xv, q);
                                }, [](const TD& x) { return is_flat(x.k) || is_string(x.k); });
                            std::string e = check(*own, t, mine, q);
                            if (!e.empty()) { my.die("own", e); }
                            mine = s.v;
                            own.reset();
                        }
                        break;
                    default:
                    {
                        step("conc.element");
                        const TD& u = t.res();
                        size_t at = q.below(s.v.e.size());
                        const ReadableDynamicDataRef x = (u.k == SEQ || u.k == ARR) && !s.v.e.empty() ? ref[at] : u.k == STRUCT && !s.v.e.empty() ? ref[u.all()[at]->name] : ref;
                        DynamicData y(x);
                        if (y != x || x != y) { my.die("element", "a copy of an element differs from it"); }
                        if (y.hash() != x.hash()) { my.die("element", "a copy of an element has another hash"); }
                        break;
                    }
                }
            }
        });
    std::string e = check(d, t, s.v, r);
    if (!e.empty()) { c.die("after", e); }
}

// concurrent use of the same types
MON_WORKLOAD_NOLEAK(conc_types)
{
    Rng& r = c.rng;
    std::vector<TDp> ts;
    std::vector<const DynamicType*> types;
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        GenOpt o;
        o.depth = r.range(1, 3);
        static const int roots[] = {-1, STRUCT, STRUCT, UNION, E32, E8, ALIAS, MAP, ARR, SEQ};
        o.root = roots[r.below(10)];
        ts.push_back(gen_type(r, o));
        prebuild(*ts.back());
        types.push_back(&real(*ts.back()));
        c.see(sig(*ts.back()));
        c.note("type " + show(*ts.back()));
    }
    size_t k = ts.size();
    std::vector<TypeConsistency> matrix;
    std::vector<std::string> walks;
    auto walk = [](const DynamicType& t)
        {
            std::string s;
            t.for_each([&](const DynamicType::TypeNode& x) { s += cat(x.type().name(), "/", x.deep(), "/", x.from_index(), "/", x.from_member() ? x.from_member()->name() : "", ";"); });
            return s;
        };
    for (size_t i = 0; i < k; ++i)
    {
        walks.push_back(walk(*types[i]));
        for (size_t j = 0; j < k; ++j) { matrix.push_back(types[i]->is_compatible(*types[j])); }
    }
    Crew crew(c);
    crew.run(r.range(2, 4), [&](Case& my, int)
        {
            Rng& q = my.rng;
            Step step{my};
            int m = q.range(6, 16);
            for (int z = 0; z < m; ++z)
            {
                size_t i = q.below(k), j = q.below(k);
                const DynamicType& t = *types[i];
                switch (q.below(8))
                {
                    case 0:
                    {
                        step("conc.introspect");
                        std::string e = check_type(t, *ts[i]);
                        if (!e.empty()) { my.die("introspect", e); }
                        break;
                    }
                    case 1:
                        step("conc.compatible");
                        if (t.is_compatible(*types[j]) != matrix[i * k + j]) { my.die("compatible", "another answer than before"); }
                        break;
                    case 2:
                    {
                        step("conc.copy-type");
                        if (is_prim(ts[i]->k)) { break; }
                        auto copy = copy_type(t, *ts[i]);
                        std::string e = check_type(*copy, *ts[i]);
                        if (!e.empty()) { my.die("copy-type", e); }
                        break;
                    }
                    case 3:
                        step("conc.walk-type");
                        if (walk(t) != walks[i]) { my.die("walk-type", "another walk than before"); }
                        break;
                    case 4:
                    {
                        step("conc.compose");
                        StructType own("Own");
                        own.add_member("a", t);
                        own.add_member(Member("b", SequenceType(*types[j], 4)).id(3));
                        own.add_member("c", ArrayType(t, 2));
                        StructType deep("Deep", &own);
                        deep.add_member("d", MapType(StringType(), t, 3));
                        if (own.memory_size() != t.memory_size() * 3 + SequenceType(*types[j], 4).memory_size()) { my.die("compose", cat("memory size ", own.memory_size())); }
                        V dv = default_value(*ts[i]);
                        DynamicData x(deep);
                        std::string e = check(static_cast<const DynamicData&>(x)["a"], *ts[i], dv, q);
                        if (!e.empty()) { my.die("compose", e); }
                        e = check_type(deep.member("a").type(), *ts[i]);
                        if (!e.empty()) { my.die("compose", e); }
                        break;
                    }
                    case 5:
                    {
                        step("conc.default-data");
                        V dv = default_value(*ts[i]);
                        DynamicData x(t), y(t);
                        std::string e = check(x, *ts[i], dv, q);
                        if (!e.empty()) { my.die("default", e); }
                        break;
                    }
                    case 6:
                    {
                        step("conc.alias");
                        AliasType a(t, "A"), b(a, "B");
                        if (&a.rget() == nullptr || b.memory_size() != t.memory_size() || b.is_compatible(t) != TypeConsistency::EQUALS) { my.die("alias", "the alias differs from its target"); }
                        DynamicData x(b);
                        break;
                    }
                    default:
                    {
                        step("conc.new-data");
                        GenOpt o;
                        V v = gen_value(q, *ts[i], o, 60);
                        std::unique_ptr<DynamicData> x(mk(*ts[i], v, q));
                        std::string e = check(*x, *ts[i], v, q);
                        if (!e.empty()) { my.die("new-data", e); }
                        break;
                    }
                }
            }
        });
}

namespace {

struct Grove
{
    Module root;
    std::vector<Module*> mods;
    std::vector<std::string> names;     // to ask for
};

std::string describe(const DynamicType& t)
{
    std::string s = cat(t.name(), "/", uint32_t(t.kind()), "/", t.memory_size(), ";");
    t.for_each([&](const DynamicType::TypeNode& x) { s += x.type().name() + ","; });
    return s;
}

std::string ask(const Module& m, const std::string& n, int q)
{
    std::ostringstream o;
    switch (q)
    {
        case 0: o << m.has_structure(n); if (m.has_structure(n)) { o << describe(m.structure(n)); } break;
        case 1: o << m.has_union(n); if (m.has_union(n)) { o << describe(m.union_switch(n)); } break;
        case 2: o << m.has_enum_32(n); if (m.has_enum_32(n)) { o << describe(m.enum_32(n)); } break;
        case 3: o << m.has_alias(n); if (m.has_alias(n)) { o << describe(m.alias(n)); } break;
        case 4: o << m.has_constant(n) << m.constant(n).to_string() << m.is_const_from_enum(n); break;
        case 5: o << m.has_symbol(n) << m.has_symbol(n, false) << m.symbol_count(n) << m.has_submodule(n); break;
        case 6: for (auto& p : m.get_all_types(true)) { o << p.first << "=" << describe(*p.second) << "\n"; } break;
        case 7: m.for_each([&](const Module& x) { o << x.name() << "|" << x.scope() << "|"; }); break;
        case 8: o << m.scope() << "|" << m.name(); break;
        default: o << gen::module(m); break;
    }
    return o.str();
}
const int QUESTIONS = 10;

} // namespace

// concurrent lookups in the same modules, text generated from them, data of their types
MON_WORKLOAD_NOLEAK(conc_modules)
{
    Rng& r = c.rng;
    Grove g;
    g.mods.push_back(&g.root);
    g.names = {"", "::", "absent", "A::absent", "::A::B", "A"};
    int n = r.range(0, 4);
    static const char* const names[] = {"A", "B", "C"};
    for (int i = 0; i < n; ++i)
    {
        Module* m = r.pick(g.mods);
        Module* x = &m->create_submodule(names[r.below(3)]);
        bool is_new = true;
        for (auto* y : g.mods) { if (y == x) { is_new = false; } }
        if (is_new) { g.mods.push_back(x); }
    }
    int serial = 0;
    std::vector<const DynamicType*> made;
    for (auto* m : g.mods)
    {
        int k = r.range(0, 4);
        for (int i = 0; i < k; ++i)
        {
            std::string name = cat("D", serial++);
            switch (r.below(5))
            {
                case 0: case 1:
                {
                    StructType s(name);
                    int q = r.range(1, 3);
                    for (int j = 0; j < q; ++j)
                    {
                        std::string mn = cat("m", j);
                        if (!made.empty() && r.chance(50)) { s.add_member(mn, *made[r.below(made.size())]); }
                        else if (r.chance(50)) { s.add_member(mn, SequenceType(primitive_type<double>(), 5)); }
                        else { s.add_member(mn, MapType(primitive_type<int32_t>(), StringType())); }
                    }
                    m->structure(s);
                    made.push_back(&static_cast<const Module&>(*m).structure(name));
                    break;
                }
                case 2:
                {
                    UnionType u(name, primitive_type<int32_t>());
                    u.add_case_member<int32_t>({int32_t(1)}, Member("a", primitive_type<float>()));
                    u.add_case_member<int32_t>({int32_t(2), int32_t(7)}, Member("b", StringType()), true);
                    m->union_switch(u);
                    break;
                }
                case 3:
                {
                    EnumerationType<uint32_t> e(name);
                    e.add_enumerator(cat("X", serial)); e.add_enumerator(cat("Y", serial));
                    m->enum_32(std::move(e));
                    break;
                }
                default:
                {
                    DynamicData d(primitive_type<int32_t>());
                    d = int32_t(serial);
                    m->create_constant(name, d);
                    m->add_alias(AliasType(primitive_type<int16_t>(), name + "a"));
                    g.names.push_back(name + "a");
                }
            }
            g.names.push_back(name);
            g.names.push_back("::" + (m->scope().empty() ? name : m->scope() + "::" + name));
            if (!m->name().empty()) { g.names.push_back(m->name() + "::" + name); }
        }
        c.see(mon::hash_str(m->scope()) + uint64_t(k));
    }
    struct Q { const Module* m; std::string n; int q; std::string want; };
    std::vector<Q> asked;
    int k = r.range(10, 30);
    for (int i = 0; i < k; ++i)
    {
        Q q;
        q.m = r.pick(g.mods);
        q.n = r.pick(g.names);
        q.q = int(r.below(QUESTIONS));
        try { q.want = ask(*q.m, q.n, q.q); } catch (const std::exception& e) { q.want = cat("throws ", e.what()); }
        c.see(mon::hash_str(q.want));
        asked.push_back(q);
    }
    Crew crew(c);
    crew.run(r.range(2, 4), [&](Case& my, int)
        {
            Rng& q = my.rng;
            Step step{my};
            int m = q.range(8, 24);
            for (int i = 0; i < m; ++i)
            {
                const Q& x = asked[q.below(asked.size())];
                step("conc.lookup");
                std::string got;
                try { got = ask(*x.m, x.n, x.q); } catch (const std::exception& e) { got = cat("throws ", e.what()); }
                if (got != x.want) { my.die("lookup", cat("question ", x.q, " '", x.n, "' in ", x.m->scope(), ": ", got, " before: ", x.want)); }
                if (!made.empty() && q.chance(25))
                {
                    step("conc.module-data");
                    DynamicData a(*made[q.below(made.size())]);
                    DynamicData b(a);
                    if (a != b || a.to_string() != b.to_string()) { my.die("module-data", "a copy differs"); }
                }
            }
        });
}

// conversions of texts and operators on own values
MON_WORKLOAD_NOLEAK(conc_strings)
{
    Rng& r = c.rng;
    c.see(r.next());
    const String16Type t16;
    const StringType t8;
    const WStringType tw;
    Crew crew(c);
    crew.run(r.range(2, 4), [&](Case& my, int)
        {
            Rng& q = my.rng;
            Step step{my};
            DynamicData a(t8), b(t16), w(tw), x(primitive_type<int32_t>()), y(primitive_type<double>());
            int m = q.range(8, 24);
            for (int i = 0; i < m; ++i)
            {
                step("conc.text");
                Points p;
                size_t len = q.below(q.chance(20) ? 300 : 30);
                for (size_t j = 0; j < len; ++j)
                {
                    uint32_t cp = q.chance(60) ? uint32_t(q.range(32, 126)) : q.chance(60) ? uint32_t(q.range(0x80, 0xD7FF)) : uint32_t(q.range(0x10000, 0x10FFFF));
                    p.push_back(cp);
                }
                std::u16string s16 = enc16(p);
                std::string s8 = enc8(p);
                if (eprosima::code_conversion_tool<char16_t>(s8) != s16) { my.die("text", "UTF-8 to UTF-16"); }
                if (eprosima::code_conversion_tool<char>(s16) != s8) { my.die("text", "UTF-16 to UTF-8"); }
                a = s8; b = s16; w = encw(p);
                if (a.value<std::string>() != s8 || b.value<std::u16string>() != s16 || w.value<std::wstring>() != encw(p)) { my.die("text", "stored texts"); }
                if (b.to_string().find(s8) == std::string::npos) { my.die("text", "rendered text"); }
                int32_t n = int32_t(q.next()) / 65536;
                x = n; y = double(n) / 3;
                if (x.cast<std::string>() != std::to_string(n) || x.cast<double>() != double(n) || y.value<double>() != double(n) / 3) { my.die("text", "casts"); }
                DynamicData z = x * x;
                if (z.value<int32_t>() != n * n) { my.die("text", "product"); }
            }
        });
}
