// Traversals of data and types, element and member iterators (C12).
#include "model.hpp"
#include "typecheck.hpp"
#include "walk.hpp"
#include <algorithm>
using namespace mdl;

namespace {

template<class NODE>
std::string compare_node(const NODE& got, const std::vector<Node>& nodes, size_t i)
{
    const Node& n = nodes[i];
    std::string w = at(nodes, i) + ": ";
    if (got.type().kind() != n.kind) { return cat(w, "kind ", uint32_t(got.type().kind()), " expected ", uint32_t(n.kind)); }
    if (got.type().name() != n.type_name) { return cat(w, "type ", got.type().name(), " expected ", n.type_name); }
    if (got.deep() != n.depth) { return cat(w, "depth ", got.deep(), " expected ", n.depth); }
    if (((uint64_t(got.from_index()) ^ n.index) & n.mask) != 0) { return cat(w, "index ", got.from_index(), " expected ", n.index); }
    if ((got.from_member() != nullptr) != !n.member.empty()) { return cat(w, "member ", got.from_member() ? got.from_member()->name() : "none", " expected ", n.member); }
    if (got.from_member())
    {
        if (got.from_member()->name() != n.member) { return cat(w, "member ", got.from_member()->name(), " expected ", n.member); }
        if (n.member_type && got.from_member()->type().name() != real_name(*n.member_type)) { return cat(w, "type of the member ", got.from_member()->type().name(), " expected ", real_name(*n.member_type)); }
    }
    if (got.has_parent() != (n.parent >= 0)) { return cat(w, "has_parent ", got.has_parent()); }
    return "";
}

// the whole chain of parents
std::string compare_chain(const DynamicData::ReadableNode& got, const std::vector<Node>& nodes, size_t i)
{
    std::string e = compare_node(got, nodes, i);
    if (!e.empty()) { return e; }
    if (nodes[i].id != got.data().instance_id()) { return cat(at(nodes, i), ": the data is at another place"); }
    if (nodes[i].parent >= 0)
    {
        e = compare_chain(got.parent(), nodes, size_t(nodes[i].parent));
        return e.empty() ? e : cat("parent of ", at(nodes, i), ": ", e);
    }
    bool thrown = false;
    try { got.parent(); } catch (const std::runtime_error&) { thrown = true; }
    return thrown ? "" : "parent() of the root was accepted";
}
std::string compare_chain(const DynamicType::TypeNode& got, const std::vector<Node>& nodes, size_t i)
{
    std::string e = compare_node(got, nodes, i);
    if (!e.empty()) { return e; }
    if (nodes[i].parent >= 0)
    {
        e = compare_chain(got.parent(), nodes, size_t(nodes[i].parent));
        return e.empty() ? e : cat("parent of ", at(nodes, i), ": ", e);
    }
    return "";
}

std::string new_leaf(Rng& r, const TD& t, V& w)
{
    if (is_string(t.k)) { w = gen_text(r, t); }
    else if (is_enum(t.k)) { w = gen_enum(r, t); }
    else { w = gen_prim(r, t.k, false); }
    return "";
}

} // namespace

MON_WORKLOAD(trav_data)
{
    Rng& r = c.rng;
    GenOpt o = trav_opts(r);
    TDp t = gen_type(r, o);
    V v = gen_value(r, *t, o, r.chance(80) ? 85 : 40);
    select_all(r, *t, v, o);
    c.see(sig(*t));
    c.note("type " + show(*t));
    c.note("value " + show(*t, v));
    std::unique_ptr<DynamicData> d(mk(*t, v, r));
    std::string e = check(*d, *t, v, r);
    if (!e.empty()) { c.die("setup", e); }
    // sometimes the root is a place inside other data
    std::unique_ptr<DynamicData> holder;
    if (r.chance(20))
    {
        holder.reset(new DynamicData(SequenceType(real(*t))));
        holder->push(*d);
    }
    WritableDynamicDataRef root = holder ? (*holder)[0] : d->ref();
    std::string what = cat(show(*t), "  ", show(*t, v));
    Expect x;
    x.add(root, *t, v, -1, 0, 0, ~0ull, "", nullptr, false, r);
    auto& nodes = x.nodes;
    c.see(nodes.size());
    c.nontrivial = true;

    for (int form = 0; form < 3; ++form)
    {
        size_t seen = 0;
        std::string err;
        auto visit = [&](const DynamicData::ReadableNode& n)
            {
                if (!err.empty()) { return; }
                if (seen >= nodes.size()) { err = cat("more than ", nodes.size(), " nodes are visited"); ++seen; return; }
                err = compare_chain(n, nodes, seen);
                if (err.empty() && nodes[seen].t)
                {
                    std::string q = check(n.data(), *nodes[seen].t, *nodes[seen].v, r);
                    if (!q.empty()) { err = at(nodes, seen) + ": value " + q; }
                }
                ++seen;
                c.count("nodes.visited");
            };
        bool result = form == 0
            ? static_cast<const ReadableDynamicDataRef&>(root).for_each(visit)
            : form == 1 ? static_cast<const WritableDynamicDataRef&>(root).for_each(std::function<void(const DynamicData::ReadableNode&)>(visit))
            : root.for_each([&](DynamicData::WritableNode& n) { visit(n); });
        if (!err.empty()) { c.die("visit", cat(err, "   ", what)); }
        if (seen != nodes.size()) { c.die("visit-count", cat(seen, " nodes visited of ", nodes.size(), "   ", what)); }
        if (!result) { c.die("visit-result", cat("a complete traversal returned false   ", what)); }
    }

    // stops where the visitor says, and returns what it says
    for (int i = 0; i < 3; ++i)
    {
        size_t stop = r.below(nodes.size()), seen = 0;
        bool value = r.chance(50);
        std::string err;
        bool result = i % 2
            ? root.for_each([&](DynamicData::WritableNode& n) { if (err.empty()) { err = compare_node(n, nodes, std::min(seen, nodes.size() - 1)); } if (seen++ == stop) { throw value; } })
            : static_cast<const ReadableDynamicDataRef&>(root).for_each([&](const DynamicData::ReadableNode& n) { if (err.empty()) { err = compare_node(n, nodes, std::min(seen, nodes.size() - 1)); } if (seen++ == stop) { throw value; } });
        if (!err.empty()) { c.die("stopped-visit", cat(err, "   ", what)); }
        if (seen != stop + 1) { c.die("stop", cat("stopped at node ", stop, " but ", seen, " were visited   ", what)); }
        if (result != value) { c.die("stop-result", cat("the visitor returned ", value, " and for_each ", result, "   ", what)); }
        c.count("visits.stopped");
    }

    // writes through the visitor
    {
        size_t i = 0, written = 0;
        int pct = r.range(10, 90);
        root.for_each([&](DynamicData::WritableNode& n)
            {
                if (i < nodes.size())
                {
                    Node& w = nodes[i];
                    if (w.t && !w.in_key && (is_flat(w.t->k) || is_string(w.t->k)) && r.chance(pct))
                    {
                        V q;
                        new_leaf(r, *w.t, q);
                        assign_leaf(n.data(), *w.t, q, r);
                        *w.v = is_string(w.t->k) ? clip_text(*w.t, q) : q;
                        ++written;
                    }
                }
                ++i;
            });
        if (i != nodes.size()) { c.die("visit-count-writing", cat(i, " nodes visited of ", nodes.size(), "   ", what)); }
        e = check(root, *t, v, r);
        if (!e.empty()) { c.die("visitor-writes", cat(e, " after ", written, " writes   ", what)); }
        c.count("visitor.writes", written);
    }
}

// ------------------------------------------------------------------ types
namespace {

void expect_types(std::vector<Node>& out, const TD& t, long parent, size_t depth, uint64_t index, const std::string& member, const TD* mt)
{
    Node n;
    n.t = &t; n.parent = parent; n.depth = depth; n.index = index; n.member = member; n.member_type = mt;
    n.type_name = real_name(t); n.kind = kind_of(t.k);
    out.push_back(n);
    long me = long(out.size()) - 1;
    const TD& s = t.res();
    switch (s.k)
    {
        case ARR: case SEQ: expect_types(out, *s.a, me, depth + 1, 0, "", nullptr); break;
        case STRUCT: { auto ms = s.all(); for (size_t i = 0; i < ms.size(); ++i) { expect_types(out, *ms[i]->type, me, depth + 1, i, ms[i]->name, ms[i]->type.get()); } break; }
        case UNION:
            expect_types(out, *s.a, me, depth + 1, 0, "discriminator", s.a.get());
            for (size_t i = 0; i < s.mem.size(); ++i) { expect_types(out, *s.mem[i].type, me, depth + 1, i + 1, s.mem[i].name, s.mem[i].type.get()); }
            break;
        case MAP: case PAIR:
        {
            if (s.k == MAP)
            {
                Node p;
                p.parent = me; p.depth = depth + 1; p.index = 0; p.kind = TypeKind::PAIR_TYPE;
                TD pt; pt.k = PAIR; pt.a = s.a; pt.b = s.b;
                p.type_name = real_name(pt);
                out.push_back(p);
                me = long(out.size()) - 1;
                ++depth;
            }
            const Node* owner = &out[size_t(me)];
            if (owner->member.empty() && owner->parent >= 0) { owner = &out[size_t(owner->parent)]; }
            std::string m = owner->member;
            const TD* ot = owner->member_type;
            expect_types(out, *s.a, me, depth + 1, 0, m, ot);
            expect_types(out, *s.b, me, depth + 1, 1, m, ot);
            break;
        }
        default: break;
    }
}

} // namespace

MON_WORKLOAD(trav_types)
{
    Rng& r = c.rng;
    GenOpt o = trav_opts(r);
    TDp t = gen_type(r, o);
    c.see(sig(*t));
    c.note("type " + show(*t));
    const DynamicType& d = real(*t);
    std::vector<Node> nodes;
    expect_types(nodes, *t, -1, 0, 0, "", nullptr);
    c.nontrivial = true;
    size_t seen = 0;
    std::string err;
    bool result = d.for_each([&](const DynamicType::TypeNode& n)
        {
            if (!err.empty()) { return; }
            if (seen >= nodes.size()) { err = cat("more than ", nodes.size(), " types are visited"); ++seen; return; }
            err = compare_chain(n, nodes, seen);
            if (err.empty() && nodes[seen].t) { err = check_type(n.type(), *nodes[seen].t, at(nodes, seen)); }
            ++seen;
            c.count("types.visited");
        });
    if (!err.empty()) { c.die("type-visit", cat(err, "   ", show(*t))); }
    if (seen != nodes.size()) { c.die("type-visit-count", cat(seen, " types visited of ", nodes.size(), "   ", show(*t))); }
    if (!result) { c.die("type-visit-result", "a complete traversal returned false"); }
    for (int i = 0; i < 2; ++i)
    {
        size_t stop = r.below(nodes.size());
        bool value = r.chance(50);
        seen = 0;
        result = d.for_each([&](const DynamicType::TypeNode&) { if (seen++ == stop) { throw value; } });
        if (seen != stop + 1) { c.die("type-stop", cat("stopped at ", stop, " but ", seen, " types were visited   ", show(*t))); }
        if (result != value) { c.die("type-stop-result", cat("the visitor returned ", value, " and for_each ", result)); }
    }
}

// ------------------------------------------------------------------ iterators
namespace {

std::string iterate(Case& c, WritableDynamicDataRef ref, const TD& t0, V& v, Rng& r, const std::string& p);

// children of a collection through the forms of the iterators
std::string iterate(Case& c, WritableDynamicDataRef ref, const TD& t0, V& v, Rng& r, const std::string& p)
{
    const TD& t = t0.res();
    ReadableDynamicDataRef ro(ref);
    std::string e;
    if (is_string(t.k) || t.k == ARR || t.k == SEQ || t.k == MAP)
    {
        size_t n = t.k == STR ? v.s.size() : t.k == WSTR ? v.w.size() : t.k == STR16 ? v.u.size() : t.k == MAP ? v.m.size() : v.e.size();
        std::vector<size_t> ids;
        size_t i = 0;
        for (auto it = ro.begin(); it != ro.end(); ++it, ++i)
        {
            if (i >= n) { return cat(p, ": the iteration goes beyond the ", n, " elements"); }
            ReadableDynamicDataRef x = *it;
            ids.push_back(x.instance_id());
            c.count("elements.iterated");
            switch (t.k)
            {
                case STR: if (x.value<char>() != v.s[i]) { return cat(p, ": character ", i); } break;
                case WSTR: if (x.value<wchar_t>() != v.w[i]) { return cat(p, ": character ", i); } break;
                case STR16: if (x.value<char16_t>() != v.u[i]) { return cat(p, ": character ", i); } break;
                case ARR: case SEQ:
                    e = check(x, *t.a, v.e[i], r, cat(p, "[", i, "]"));
                    if (!e.empty()) { return e; }
                    if (x.instance_id() != ro[i].instance_id()) { return cat(p, ": element ", i, " of the iteration is not element ", i); }
                    break;
                default:
                {
                    bool known = false;
                    for (auto& q : v.m)
                    {
                        if (check(x[0], *t.a, q.first, r).empty())
                        {
                            known = true;
                            e = check(x[1], *t.b, q.second, r, p + "{}");
                            if (!e.empty()) { return e; }
                        }
                    }
                    if (!known) { return cat(p, ": an iterated key is unknown"); }
                    break;
                }
            }
        }
        if (i != n) { return cat(p, ": ", i, " elements iterated of ", n); }
        if (std::set<size_t>(ids.begin(), ids.end()).size() != n) { return cat(p, ": an element is iterated twice"); }
        // the other forms: postfix, writable, copies, assignment
        size_t k = 0;
        auto wend = ref.end();
        for (auto it = ref.begin(); !(it == wend); it++, ++k)
        {
            if (k >= n || (*it).instance_id() != ids[k]) { return cat(p, ": element ", k, " differs between the forms of iteration"); }
        }
        if (k != n) { return cat(p, ": ", k, " elements iterated of ", n, " (postfix)"); }
        k = 0;
        for (auto&& x : ref) { if (k >= n || x.instance_id() != ids[k]) { return cat(p, ": element ", k, " differs in the range for"); } ++k; }
        if (k != n) { return cat(p, ": ", k, " elements iterated of ", n, " (range)"); }
        if (n > 0)
        {
            size_t a = r.below(n);
            auto it = ro.begin();
            for (size_t q = 0; q < a; ++q) { auto before = it; auto old = it++; if (!(old == before) || old == it) { return cat(p, ": postfix increment"); } }
            auto copy(it);
            if (copy != it || (*copy).instance_id() != ids[a]) { return cat(p, ": copied iterator"); }
            auto other = ro.end();
            other = it;
            if (other != it || (*other).instance_id() != ids[a]) { return cat(p, ": assigned iterator"); }
            // an iterator of data of another type, assigned
            DynamicData alien{SequenceType{StringType()}};
            alien.push<std::string>("alien");
            const ReadableDynamicDataRef& ar = alien;
            auto foreign = ar.begin();
            foreign = it;
            ReadableDynamicDataRef x = *foreign;
            if (foreign != it || x.instance_id() != ids[a] || x.type().kind() != (*it).type().kind() || x.type().name() != (*it).type().name())
            {
                return cat(p, ": an iterator assigned from one of ", show(t), " gives data of type ", x.type().name());
            }
            foreign = ar.begin();
            if ((*foreign).value<std::string>() != "alien") { return cat(p, ": reassigned iterator"); }
            if (++it != ro.end() && a + 1 == n) { return cat(p, ": the end is not reached"); }
        }
        // writes
        if (t.k == ARR || t.k == SEQ)
        {
            const TD& et = t.a->res();
            if (is_flat(et.k) || is_string(et.k))
            {
                size_t q = 0;
                for (auto it = ref.begin(); it != ref.end(); ++it, ++q)
                {
                    if (r.chance(40)) { V w; new_leaf(r, et, w); assign_leaf(*it, et, w, r); v.e[q] = is_string(et.k) ? clip_text(et, w) : w; c.count("iterator.writes"); }
                }
            }
            for (size_t q = 0; q < v.e.size() && e.empty(); ++q) { e = iterate(c, ref[q], *t.a, v.e[q], r, cat(p, "[", q, "]")); }
        }
        if (t.k == MAP)
        {
            const TD& vt = t.b->res();
            if (is_flat(vt.k) || is_string(vt.k))
            {
                for (auto&& x : ref)
                {
                    if (!r.chance(40)) { continue; }
                    for (auto& q : v.m)
                    {
                        if (check(x[0], *t.a, q.first, r).empty())
                        {
                            V w; new_leaf(r, vt, w); assign_leaf(x[1], vt, w, r); q.second = is_string(vt.k) ? clip_text(vt, w) : w;
                            c.count("iterator.writes");
                        }
                    }
                }
            }
            for (auto& q : v.m)
            {
                std::unique_ptr<DynamicData> key(mk(*t.a, q.first, r));
                e = iterate(c, ref.at(*key), *t.b, q.second, r, p + "{}");
                if (!e.empty()) { break; }
            }
        }
        return e;
    }
    if (t.k == STRUCT)
    {
        auto ms = t.all();
        const StructType& st = static_cast<const StructType&>(ref.type());
        size_t i = 0;
        for (auto&& m : ro.items())
        {
            if (i >= ms.size()) { return cat(p, ": more members than declared"); }
            if (m.member().name() != ms[i]->name || m.member().type().name() != real_name(*ms[i]->type)) { return cat(p, ": member ", i, " of the iteration is ", m.member().name()); }
            if (m.kind() != st.member(i).type().kind()) { return cat(p, ": kind of member ", i); }
            if (m.data().instance_id() != ro[i].instance_id()) { return cat(p, ": data of member ", i, " is at another place"); }
            e = check(m.data(), *ms[i]->type, v.e[i], r, p + "." + ms[i]->name);
            if (!e.empty()) { return e; }
            c.count("members.iterated");
            ++i;
        }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size()); }
        i = 0;
        for (auto&& m : ref.citems()) { if (i >= ms.size() || m.member().name() != ms[i]->name || m.data().instance_id() != ro[i].instance_id()) { return cat(p, ": citems() member ", i); } ++i; }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size(), " (citems)"); }
        i = 0;
        for (auto&& m : ref.items())
        {
            if (i >= ms.size() || m.member().name() != ms[i]->name || m.data().instance_id() != ro[i].instance_id()) { return cat(p, ": items() member ", i); }
            const TD& et = ms[i]->type->res();
            if ((is_flat(et.k) || is_string(et.k)) && r.chance(40))
            {
                V w; new_leaf(r, et, w); assign_leaf(m.data(), et, w, r); v.e[i] = is_string(et.k) ? clip_text(et, w) : w;
                c.count("iterator.writes");
            }
            ++i;
        }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size(), " (items)"); }
        i = 0;
        auto items = ref.items();
        auto last = items.end();
        for (auto it = items.begin(); it != last; it++) { if (i >= ms.size() || (*it).member().name() != ms[i]->name) { return cat(p, ": items() with postfix increment, member ", i); } ++i; }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size(), " (postfix)"); }
        // the other forms: through references that are gone, copies, assignment, constant pairs
        i = 0;
        for (auto&& m : WritableDynamicDataRef(ref).items()) { if (i >= ms.size() || m.member().name() != ms[i]->name || m.data().instance_id() != ro[i].instance_id()) { return cat(p, ": items() of a temporary, member ", i); } ++i; }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size(), " (temporary)"); }
        i = 0;
        for (auto&& m : ReadableDynamicDataRef(ro).items()) { if (i >= ms.size() || m.member().name() != ms[i]->name || m.data().instance_id() != ro[i].instance_id()) { return cat(p, ": items() of a read-only temporary, member ", i); } ++i; }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size(), " (read-only temporary)"); }
        i = 0;
        auto ritems = WritableDynamicDataRef(ref).citems();
        for (auto it = ritems.begin(); it != ritems.end(); ++i)
        {
            auto before = it;
            auto old = it++;
            if (!(old == before) || old == it) { return cat(p, ": postfix increment of the iterator of the members"); }
            const auto pair = *old;
            if (i >= ms.size() || pair.member().name() != ms[i]->name || pair.data().instance_id() != ro[i].instance_id()) { return cat(p, ": citems() with postfix increment, member ", i); }
        }
        if (i != ms.size()) { return cat(p, ": ", i, " members iterated of ", ms.size(), " (postfix, read-only)"); }
        if (!ms.empty())
        {
            size_t a = r.below(ms.size());
            auto it = ref.items();
            for (size_t q = 0; q < a; ++q) { auto before = it; auto old = it++; if (!(old == before) || old == it) { return cat(p, ": postfix increment of the iterator of the members"); } }
            auto copy(it);
            const WritableDynamicDataRef::MemberPair pair = *copy;
            if (copy != it || pair.member().name() != ms[a]->name || pair.data().instance_id() != ro[a].instance_id()) { return cat(p, ": copied iterator of the members"); }
            auto again = copy.begin();
            if ((*again).member().name() != ms[0]->name || (a == 0) != (again == copy)) { return cat(p, ": begin() of an advanced iterator of the members"); }
            for (size_t q = a; q < ms.size(); ++q) { ++copy; }
            if (copy != it.end() || copy != ref.items().end()) { return cat(p, ": the end of the members is not reached"); }
            c.count("member-iterators.checked");
        }
        for (size_t q = 0; q < ms.size() && e.empty(); ++q) { e = iterate(c, ref[q], *ms[q]->type, v.e[q], r, p + "." + ms[q]->name); }
        return e;
    }
    if (t.k == UNION)
    {
        // the members of a union: the data of the others cannot be reached, nor the discriminator changed
        const UnionType& ut = static_cast<const UnionType&>(ref.type());
        auto refused = [&](std::function<void()> f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; };
        for (int form = 0; form < 3; ++form)
        {
            size_t i = 0;
            auto look = [&](const ReadableDynamicDataRef::MemberPair& m) -> std::string
                {
                    if (i > t.mem.size()) { return "more members than declared"; }
                    const std::string& name = i ? t.mem[i - 1].name : std::string("discriminator");
                    if (m.member().name() != name || m.kind() != ut.member(i).type().kind()) { return cat("member ", i, " of the iteration is ", m.member().name(), ", expected ", name); }
                    if (i == 0)
                    {
                        if (m.data().instance_id() != ro.d().instance_id()) { return "the discriminator is at another place"; }
                        if (v.label_known && disc_value(m.data(), t.a->res()) != disc_value(ro.d(), t.a->res())) { return "the value of the discriminator"; }
                    }
                    else if (int(i) - 1 == v.active)
                    {
                        if (m.data().instance_id() != ro[name].instance_id()) { return cat("the data of ", name, " is at another place"); }
                        std::string q = check(m.data(), *t.mem[i - 1].type, v.e[0], r, p + "." + name);
                        if (!q.empty()) { return q; }
                    }
                    else if (!refused([&] { m.data(); })) { return cat("the data of ", name, ", which is not selected, is accessible"); }
                    ++i;
                    c.count("union-members.iterated");
                    return "";
                };
            if (form == 0) { for (auto&& m : ro.items()) { e = look(m); if (!e.empty()) { return cat(p, ": ", e); } } }
            else if (form == 1) { for (auto&& m : ref.citems()) { e = look(m); if (!e.empty()) { return cat(p, ": ", e); } } }
            else
            {
                for (auto&& m : ref.items())
                {
                    bool selected = i > 0 && int(i) - 1 == v.active;
                    if (selected)
                    {
                        if (m.data().instance_id() != ro[m.member().name()].instance_id()) { return cat(p, ": the data to write of ", m.member().name(), " is at another place"); }
                        const TD& et = t.mem[i - 1].type->res();
                        if ((is_flat(et.k) || is_string(et.k)) && r.chance(40))
                        {
                            V w; new_leaf(r, et, w); assign_leaf(m.data(), et, w, r); v.e[0] = is_string(et.k) ? clip_text(et, w) : w;
                            c.count("iterator.writes");
                        }
                    }
                    else if (!refused([&] { m.data(); })) { return cat(p, ": items() lets ", m.member().name(), " be written"); }
                    e = look(m);
                    if (!e.empty()) { return cat(p, ": ", e, " (items)"); }
                }
            }
            if (i != t.mem.size() + 1) { return cat(p, ": ", i, " members iterated of ", t.mem.size() + 1); }
        }
    }
    if (t.k == UNION) { const Mem& m = t.mem[size_t(v.active)]; return iterate(c, ref[m.name], *m.type, v.e[0], r, p + "." + m.name); }
    if (t.k == PAIR) { return iterate(c, ref[1], *t.b, v.e[1], r, p + ".second"); }
    return "";
}

} // namespace

MON_WORKLOAD(trav_iter)
{
    Rng& r = c.rng;
    GenOpt o = trav_opts(r);
    TDp t = gen_type(r, o);
    V v = gen_value(r, *t, o, 85);
    select_all(r, *t, v, o);
    c.see(sig(*t));
    c.note("type " + show(*t));
    c.note("value " + show(*t, v));
    std::unique_ptr<DynamicData> d(mk(*t, v, r));
    c.nontrivial = true;
    std::string e = iterate(c, d->ref(), *t, v, r, "$");
    if (!e.empty()) { c.die("iteration", cat(e, "   ", show(*t))); }
    e = check(*d, *t, v, r);
    if (!e.empty()) { c.die("iterator-writes", cat(e, "   ", show(*t))); }
}
