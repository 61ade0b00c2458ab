// Module trees and scoped lookups against a reference resolver (C17).
#include "model.hpp"
#include <xtypes/idl/Module.hpp>
using namespace mdl;
using eprosima::xtypes::idl::Module;

namespace {

enum Kind { STRU, UNI, ENU, ALI, CON, NK };
const char* const KN[] = {"structure", "union", "enumeration", "alias", "constant"};

struct Scope
{
    std::string name;
    Scope* outer = nullptr;
    std::map<std::string, std::unique_ptr<Scope>> inner;
    std::map<std::string, uint32_t> defs[NK];      // name -> mark
    std::set<std::string> from_enum;
    Module* real = nullptr;

    std::string path() const { return outer && !outer->path().empty() ? outer->path() + "::" + name : name; }
    std::string scoped(const std::string& n) const { std::string p = path(); return p.empty() ? n : p + "::" + n; }
    bool declares(const std::string& n) const
    {
        for (auto& d : defs) { if (d.count(n)) { return true; } }
        return inner.count(n) != 0;
    }
    bool defines(const std::string& n) const { for (auto& d : defs) { if (d.count(n)) { return true; } } return false; }
};

struct Found { const Scope* s = nullptr; std::string name; bool unspecified = false; };

// IDL name resolution: the first identifier in the innermost scope that declares it, the rest strictly inside.
Found resolve(const Scope& from, const std::string& name)
{
    std::vector<std::string> parts;
    size_t p = 0;
    bool absolute = name.compare(0, 2, "::") == 0;
    if (absolute) { p = 2; }
    for (;;)
    {
        size_t q = name.find("::", p);
        parts.push_back(name.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) { break; }
        p = q + 2;
    }
    for (auto& x : parts) { if (x.empty()) { return {}; } }
    Found f;
    const Scope* s = &from;
    if (absolute) { while (s->outer) { s = s->outer; } }
    else
    {
        while (s && !s->declares(parts[0])) { s = s->outer; }
        if (!s) { return f; }
        // a definition that is not a module hides an outer module of its name: not exercised
        if (parts.size() > 1 && !s->inner.count(parts[0])) { f.unspecified = true; return f; }
    }
    for (size_t i = 0; i + 1 < parts.size(); ++i)
    {
        auto it = s->inner.find(parts[i]);
        if (it == s->inner.end()) { return f; }
        s = it->second.get();
    }
    if (!s->declares(parts.back())) { return f; }
    f.s = s;
    f.name = parts.back();
    return f;
}

StructType make_struct(const std::string& n, uint32_t mark) { StructType s(n); s.add_member(cat("m", mark), primitive_type<int32_t>()); return s; }
UnionType make_union(const std::string& n, uint32_t mark)
{
    UnionType u(n, primitive_type<int32_t>());
    u.add_case_member<int32_t>({int32_t(mark)}, Member(cat("m", mark), primitive_type<float>()));
    return u;
}
struct MarkedEnum : EnumerationType<uint32_t> { MarkedEnum(const std::string& n, uint32_t mark) : EnumerationType<uint32_t>(n) { add_enumerator(cat("m", mark), mark); } };
AliasType make_alias(const std::string& n, uint32_t mark) { return AliasType(StringType(mark), n); }
DynamicData make_const(uint32_t mark)
{
    if (mark % 3 == 0) { DynamicData d(primitive_type<uint32_t>()); d = mark; return d; }
    if (mark % 3 == 1) { StringType t; DynamicData d(t); d = std::to_string(mark); return d; }
    DynamicData d(primitive_type<double>()); d = double(mark); return d;
}
bool const_is(const DynamicData& d, uint32_t mark)
{
    if (mark % 3 == 0) { return d.type().kind() == TypeKind::UINT_32_TYPE && d.value<uint32_t>() == mark; }
    if (mark % 3 == 1) { return d.type().kind() == TypeKind::STRING_TYPE && d.value<std::string>() == std::to_string(mark); }
    return d.type().kind() == TypeKind::FLOAT_64_TYPE && d.value<double>() == double(mark);
}
const uint32_t EXTENDED = 1u << 31;     // a structure got a second member later
bool type_is(const DynamicType& t, Kind k, uint32_t mark)
{
    switch (k)
    {
        case STRU: return t.kind() == TypeKind::STRUCTURE_TYPE && static_cast<const StructType&>(t).members().size() == (mark & EXTENDED ? 2 : 1) && static_cast<const StructType&>(t).has_member(cat("m", mark & ~EXTENDED));
        case UNI: return t.kind() == TypeKind::UNION_TYPE && static_cast<const UnionType&>(t).has_member(cat("m", mark));
        case ENU: return t.kind() == TypeKind::ENUMERATION_TYPE && static_cast<const EnumerationType<uint32_t>&>(t).has_enumerator(cat("m", mark));
        case ALI: return t.kind() == TypeKind::ALIAS_TYPE && static_cast<const AliasType&>(t).rget().kind() == TypeKind::STRING_TYPE
                && static_cast<const StringType&>(static_cast<const AliasType&>(t).rget()).bounds() == mark;
        default: return false;
    }
}

bool has(const Module& m, Kind k, const std::string& n)
{
    switch (k)
    {
        case STRU: return m.has_structure(n);
        case UNI: return m.has_union(n);
        case ENU: return m.has_enum_32(n);
        case ALI: return m.has_alias(n);
        default: return m.has_constant(n);
    }
}
const DynamicType& get(const Module& m, Kind k, const std::string& n)
{
    switch (k)
    {
        case STRU: return m.structure(n);
        case UNI: return m.union_switch(n);
        case ENU: return m.enum_32(n);
        default: return m.alias(n);
    }
}
const DynamicType& get_mutable(Module& m, Kind k, const std::string& n)
{
    switch (k)
    {
        case STRU: return m.structure(n);
        case UNI: return m.union_switch(n);
        case ENU: return m.enum_32(n);
        default: return m.alias(n);
    }
}

struct Tree
{
    Module root;
    Scope top;
    std::vector<Scope*> all;
    Tree() { top.real = &root; all.push_back(&top); }
};

const char* const NAMES[] = {"x", "y", "z", "w", "A", "Ax", "B"};
const char* const MODS[] = {"A", "B", "C", "AA", "x1"};
std::string def_name(Rng& r) { return NAMES[r.chance(85) ? r.below(4) : r.below(7)]; }
std::string mod_name(Rng& r) { return MODS[r.chance(80) ? r.below(3) : r.below(5)]; }

std::string lookup_name(Rng& r, Tree& t)
{
    // from a real place, in part damaged
    Scope* s = r.pick(t.all);
    std::string leaf = def_name(r);
    if (r.chance(60))
    {
        std::vector<std::string> here;
        for (auto& d : s->defs) { for (auto& p : d) { here.push_back(p.first); } }
        if (!here.empty()) { leaf = r.pick(here); }
    }
    std::vector<std::string> path{leaf};
    for (Scope* q = s; q && q->outer; q = q->outer) { path.insert(path.begin(), q->name); }
    int form = r.range(0, 9);
    if (form >= 4 && path.size() > 1) { path.erase(path.begin(), path.begin() + long(r.below(path.size()))); }
    if (form == 8) { path.insert(path.begin(), mod_name(r)); }
    std::string n;
    for (auto& p : path) { n += (n.empty() ? "" : "::") + p; }
    if (form < 2 || r.chance(8)) { n = "::" + n; }
    if (form == 9)
    {
        switch (r.range(0, 6))
        {
            case 0: n = leaf; break;
            case 1: n += "::"; break;
            case 2: n = "::::" + n; break;
            case 3: { size_t q = n.rfind("::"); if (q != std::string::npos) { n.insert(q, "::"); } else { n = "A::::" + n; } break; }
            case 4: n = r.chance(50) ? "" : "::"; break;
            case 5: n = cat(mod_name(r), "::", mod_name(r), "::", leaf); break;
            default: n = cat(leaf, "::", leaf); break;
        }
    }
    return n;
}

void check_lookup(Case& c, Tree& t, Scope& s, const std::string& name, const char* when)
{
    Found f = resolve(s, name);
    if (f.unspecified) { return; }
    std::string what = cat(when, ": '", name, "' from '", s.path(), "'");
    const Module& m = *s.real;
    for (int q = 0; q < NK; ++q)
    {
        Kind k = Kind(q);
        const uint32_t* mark = nullptr;
        if (f.s) { auto it = f.s->defs[k].find(f.name); if (it != f.s->defs[k].end()) { mark = &it->second; } }
        bool h = has(m, k, name);
        if (h != (mark != nullptr)) { c.die(cat("has:", KN[k]), cat(what, ": has ", KN[k], " is ", h, " expected ", mark != nullptr)); }
        if (k == CON)
        {
            DynamicData d = m.constant(name);
            if (mark && !const_is(d, *mark)) { c.die("get:constant", cat(what, ": another value: ", d.to_string())); }
            continue;
        }
        for (int form = 0; form < 2; ++form)
        {
            const DynamicType* got = nullptr;
            try { got = form ? &get_mutable(*s.real, k, name) : &get(m, k, name); } catch (const std::exception&) {}
            if ((got != nullptr) != (mark != nullptr)) { c.die(cat("get:", KN[k]), cat(what, ": the ", KN[k], got ? " is found but must not" : " is not found")); }
            if (got && !type_is(*got, k, *mark)) { c.die(cat("get:", KN[k]), cat(what, ": another definition: ", got->name())); }
            if (got && got->name() != f.s->scoped(f.name)) { c.die(cat("name:", KN[k]), cat(what, ": its name is ", got->name(), " instead of ", f.s->scoped(f.name))); }
        }
    }
    // generic retrieval
    size_t kinds = 0;
    int only = -1;
    for (int q = 0; q < CON; ++q) { if (f.s && f.s->defs[q].count(f.name)) { ++kinds; only = q; } }
    DynamicType::Ptr p = s.real->type(name);
    if ((p.get() != nullptr) != (kinds > 0)) { c.die("type", cat(what, ": type() ", p.get() ? "finds it but must not" : "does not find it")); }
    if (kinds == 1)
    {
        if (!type_is(*p, Kind(only), f.s->defs[only].at(f.name))) { c.die("type", cat(what, ": type() gives another definition: ", p->name())); }
        std::string n = p->name();
        if (n.compare(0, 2, "::") == 0) { n = n.substr(2); }
        if (n != f.s->scoped(f.name)) { c.die("type-name", cat(what, ": type() names it ", p->name())); }
        p->name("Renamed");    // a copy: the module does not notice
    }
    // recursive: what is seen from here, otherwise from the modules inside
    {
        bool unspecified = false, all_one = true;
        std::pair<const Scope*, int> seen{nullptr, -1};
        std::function<void(const Scope&)> below = [&](const Scope& q)
            {
                Found g = resolve(q, name);
                unspecified |= g.unspecified;
                for (int k = 0; g.s && k < CON; ++k)
                {
                    if (!g.s->defs[k].count(g.name)) { continue; }
                    if (seen.first && seen != std::make_pair(g.s, k)) { all_one = false; }
                    seen = {g.s, k};
                }
                for (auto& i : q.inner) { below(*i.second); }
            };
        below(s);
        if (kinds == 1) { seen = {f.s, only}; all_one = true; }
        if (!unspecified && kinds < 2)
        {
            DynamicType::Ptr q = s.real->type(name, true);
            if ((q.get() != nullptr) != (seen.first != nullptr)) { c.die("type-recursive", cat(what, ": type(, true) ", q.get() ? "finds it but must not" : "does not find it")); }
            if (q.get() && all_one)
            {
                std::string leaf = name.substr(name.rfind("::") == std::string::npos ? 0 : name.rfind("::") + 2);
                if (!type_is(*q, Kind(seen.second), seen.first->defs[seen.second].at(leaf))) { c.die("type-recursive", cat(what, ": type(, true) gives another definition: ", q->name())); }
                if (!kinds) { c.count("lookups.only-recursive"); }
            }
        }
    }
    c.count(f.s ? "lookups.found" : "lookups.absent");
    (void)t;
}

// What the whole tree must answer
void check_all(Case& c, Tree& t, const char* when)
{
    for (Scope* s : t.all)
    {
        const Module& m = *s->real;
        std::string where = cat(when, ": module '", s->path(), "': ");
        if (m.name() != s->name) { c.die("module-name", cat(where, "name ", m.name())); }
        if (m.scope() != s->path()) { c.die("module-scope", cat(where, "scope ", m.scope())); }
        if (s->real->submodule_size() != s->inner.size()) { c.die("submodules", cat(where, s->real->submodule_size(), " submodules instead of ", s->inner.size())); }
        std::set<std::string> names;
        for (auto& i : s->inner) { names.insert(i.first); }
        for (auto x : NAMES) { names.insert(x); }
        for (auto x : MODS) { names.insert(x); }
        for (auto& n : names)
        {
            auto it = s->inner.find(n);
            bool h = it != s->inner.end();
            if (m.has_submodule(n) != h) { c.die("has_submodule", cat(where, n, " ", !h)); }
            if ((s->real->submodule(n).get() != nullptr) != h || (h && s->real->submodule(n).get() != it->second->real)) { c.die("submodule", cat(where, n)); }
            for (int form = 0; form < 2; ++form)
            {
                const Module* got = nullptr;
                try { got = form ? &(*s->real)[n] : &m[n]; } catch (const std::exception&) {}
                if (got != (h ? it->second->real : nullptr)) { c.die("submodule-at", cat(where, n)); }
            }
            if (m.has_symbol(n, false) != s->declares(n)) { c.die("has_symbol", cat(where, n, " without outer modules ", !s->declares(n))); }
            unsigned count = 0;
            for (const Scope* q = s; q; q = q->outer) { count += q->declares(n); }
            if (m.has_symbol(n) != (count > 0)) { c.die("has_symbol", cat(where, n, " ", count == 0)); }
            if (m.symbol_count(n) != count) { c.die("symbol_count", cat(where, n, " ", m.symbol_count(n), " instead of ", count)); }
            if (m.is_const_from_enum(n) != (s->from_enum.count(n) != 0)) { c.die("is_const_from_enum", cat(where, n)); }
        }
        for (int k = 0; k < NK; ++k) { for (auto& d : s->defs[k]) { check_lookup(c, t, *s, d.first, when); check_lookup(c, t, *s, "::" + s->scoped(d.first), when); } }
        // visits
        std::vector<const Module*> seen, want;
        std::function<void(const Scope&)> below = [&](const Scope& q) { for (auto& i : q.inner) { want.push_back(i.second->real); below(*i.second); } };
        below(*s);
        m.for_each_submodule([&](const Module& x) { seen.push_back(&x); });
        if (seen != want) { c.die("for_each_submodule", cat(where, seen.size(), " visited of ", want.size())); }
        seen.clear(); want.insert(want.begin(), s->real);
        m.for_each([&](const Module& x) { seen.push_back(&x); });
        if (seen != want) { c.die("for_each", cat(where, seen.size(), " visited of ", want.size())); }
        seen.clear(); want.clear();
        for (auto& i : s->inner) { want.push_back(i.second->real); }
        m.for_each_submodule([&](const Module& x) { seen.push_back(&x); }, false);
        if (seen != want) { c.die("for_each_submodule", cat(where, seen.size(), " direct ones visited of ", want.size())); }
        // inventory
        std::map<std::string, const Scope*> types, plain;
        std::function<void(const Scope&)> fill = [&](const Scope& q)
            {
                for (int k = 0; k < CON; ++k) { for (auto& d : q.defs[k]) { types[q.scoped(d.first)] = &q; plain[d.first] = &q; } }
                for (auto& i : q.inner) { fill(*i.second); }
            };
        fill(*s);
        auto got = m.get_all_types(true);
        if (got.size() != types.size()) { c.die("get_all_types", cat(where, got.size(), " types instead of ", types.size())); }
        for (auto& g : got)
        {
            if (!types.count(g.first)) { c.die("get_all_types", cat(where, "unknown ", g.first)); }
            if (g.second->name() != g.first) { c.die("get_all_types", cat(where, g.first, " is named ", g.second->name())); }
        }
        auto got2 = m.get_all_types();
        if (got2.size() != plain.size()) { c.die("get_all_types", cat(where, got2.size(), " plain names instead of ", plain.size())); }
        for (auto& g : got2) { if (!plain.count(g.first)) { c.die("get_all_types", cat(where, "unknown ", g.first)); } }
        c.count("modules.checked");
    }
}

bool define(Case& c, Scope& s, Kind k, const std::string& n, uint32_t mark, bool replace, int form)
{
    (void)c;
    Module& m = *s.real;
    switch (k)
    {
        case STRU:
            if (!replace && form == 0)
            {
                StructType t = make_struct(n, mark);
                bool ok = m.structure(t);
                // the type keeps its name when refused and is independent of the module afterwards
                if (!ok && t.name() != n) { throw mon::Violation{"refused-name", cat("a refused structure is renamed to ", t.name())}; }
                t.add_member("later", primitive_type<int8_t>());
                return ok;
            }
            return m.structure(make_struct(n, mark), replace);
        case UNI:
            if (!replace && form == 0)
            {
                UnionType t = make_union(n, mark);
                bool ok = m.union_switch(t);
                if (!ok && t.name() != n) { throw mon::Violation{"refused-name", cat("a refused union is renamed to ", t.name())}; }
                return ok;
            }
            return m.union_switch(make_union(n, mark), replace);
        case ENU: return m.enum_32(MarkedEnum(n, mark), replace);
        case ALI:
            if (form == 0)
            {
                AliasType a = make_alias(n, mark);
                bool ok = m.add_alias(a);
                if (!ok && a.name() != n) { throw mon::Violation{"refused-name", cat("a refused alias is renamed to ", a.name())}; }
                return ok;
            }
            if (form == 1) { return m.add_alias(make_alias(n, mark)); }
            return m.create_alias(DynamicType::Ptr(StringType(mark)), n);
        default: return m.create_constant(n, make_const(mark), replace, form == 0);
    }
}

} // namespace

MON_WORKLOAD(mod_program)
{
    Rng& r = c.rng;
    Tree t;
    uint32_t mark = 0;
    int steps = r.range(10, 60);
    c.see(uint64_t(steps));
    for (int i = 0; i < steps; ++i)
    {
        Scope* s = r.pick(t.all);
        int op = r.weighted({14, 34, 10, 30, 6, 4});
        if (op == 0)            // module
        {
            if (t.all.size() > 14) { continue; }
            std::string n = mod_name(r);
            c.note(cat("module '", s->path(), "' / ", n));
            c.see(mon::hash_str(s->scoped(n)));
            Module& m = s->real->create_submodule(n);
            auto it = s->inner.find(n);
            if (it != s->inner.end())
            {
                if (&m != it->second->real) { c.die("create_submodule", cat("the module ", s->scoped(n), " is created twice")); }
            }
            else
            {
                auto x = std::make_unique<Scope>();
                x->name = n; x->outer = s; x->real = &m;
                t.all.push_back(x.get());
                s->inner.emplace(n, std::move(x));
            }
        }
        else if (op == 1)       // definition
        {
            Kind k = Kind(r.below(NK));
            std::string n = def_name(r);
            bool exists = s->defs[k].count(n) != 0;
            bool replace = k != ALI && r.chance(20);
            int form = r.range(0, 2);
            ++mark;
            c.note(cat(KN[k], " '", s->path(), "' / ", n, replace ? " replace" : ""));
            c.see(mon::hash_str(s->scoped(n)) + uint64_t(k));
            bool ok = define(c, *s, k, n, mark, replace, form);
            if (ok != (!exists || replace)) { c.die(cat("define:", KN[k]), cat("the ", exists ? "second" : "first", " ", KN[k], " '", n, "' of '", s->path(), "' is ", ok ? "accepted" : "refused")); }
            if (ok)
            {
                s->defs[k][n] = mark;
                if (k == CON) { if (form == 0) { s->from_enum.insert(n); } else { s->from_enum.erase(n); } }
            }
            c.count(ok ? "definitions.accepted" : "definitions.refused");
            check_lookup(c, t, *s, n, ok ? "after a definition" : "after a refused definition");
        }
        else if (op == 2)       // refused definition
        {
            Kind k = Kind(r.below(NK));
            std::string n = cat(r.chance(50) ? "A" : "", "::", def_name(r));
            ++mark;
            c.note(cat("scoped ", KN[k], " '", s->path(), "' / ", n));
            bool ok = define(c, *s, k, n, mark, k != ALI && r.chance(50), r.range(0, 2));
            if (ok) { c.die(cat("define-scoped:", KN[k]), cat("a ", KN[k], " with the scoped name ", n, " is accepted")); }
            c.count("definitions.refused");
        }
        else if (op == 3)       // lookups
        {
            for (int q = 0; q < 4; ++q)
            {
                std::string n = lookup_name(r, t);
                Scope* from = r.pick(t.all);
                c.note(cat("lookup '", n, "' from '", from->path(), "'"));
                check_lookup(c, t, *from, n, "lookup");
            }
        }
        else if (op == 4)       // change a definition in its place
        {
            std::vector<std::string> here;
            for (auto& d : s->defs[STRU]) { here.push_back(d.first); }
            if (here.empty()) { continue; }
            std::string n = r.pick(here);
            std::string name = r.chance(50) ? "::" + s->scoped(n) : n;
            Scope* from = name == n ? s : r.pick(t.all);
            Found f = resolve(*from, name);
            if (f.s != s) { continue; }
            if (s->defs[STRU][n] & EXTENDED) { continue; }
            c.note(cat("change ", name));
            from->real->structure(name).add_member("extra", primitive_type<char>());
            s->defs[STRU][n] |= EXTENDED;
            check_lookup(c, t, *s, n, "after a change in place");
        }
        else
        {
            check_all(c, t, "check");
        }
    }
    check_all(c, t, "end");
    c.nontrivial = t.all.size() > 1;
}

// Every name from every scope
MON_WORKLOAD(mod_names)
{
    Rng& r = c.rng;
    Tree t;
    uint32_t mark = 0;
    int mods = r.range(2, 8);
    for (int i = 0; i < mods; ++i)
    {
        Scope* s = r.pick(t.all);
        std::string n = mod_name(r);
        Module& m = s->real->create_submodule(n);
        if (!s->inner.count(n))
        {
            auto x = std::make_unique<Scope>();
            x->name = n; x->outer = s; x->real = &m;
            t.all.push_back(x.get());
            s->inner.emplace(n, std::move(x));
        }
    }
    for (Scope* s : t.all)
    {
        int n = r.range(0, 3);
        for (int i = 0; i < n; ++i)
        {
            Kind k = Kind(r.below(NK));
            std::string name = def_name(r);
            if (s->defs[k].count(name)) { continue; }
            define(c, *s, k, name, ++mark, false, r.range(0, 2));
            s->defs[k][name] = mark;
            c.see(mon::hash_str(s->scoped(name)) + uint64_t(k));
        }
    }
    // suffixes of every path of the tree, relative and absolute
    std::set<std::string> names;
    for (Scope* s : t.all)
    {
        std::vector<std::string> path;
        for (Scope* q = s; q->outer; q = q->outer) { path.insert(path.begin(), q->name); }
        for (auto leaf : {"x", "y", "z", "A"})
        {
            for (size_t from = 0; from <= path.size(); ++from)
            {
                std::string n;
                for (size_t i = from; i < path.size(); ++i) { n += path[i] + "::"; }
                names.insert(n + leaf);
                if (r.chance(30)) { names.insert("::" + n + leaf); }
            }
        }
    }
    for (Scope* s : t.all) { for (auto& n : names) { check_lookup(c, t, *s, n, "sweep"); } }
    c.nontrivial = mark > 0;
}
