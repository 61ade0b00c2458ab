// Reference walk over data: what a traversal must visit, in order.
#pragma once
#include "model.hpp"
#include "typecheck.hpp"
#include "utf.hpp"
using namespace mdl;
namespace {
// What must be visited, computed from the model and the public accessors.
struct Node
{
    const TD* t = nullptr;          // resolved type (declared one in type traversals)
    V* v = nullptr;
    long parent = -1;
    size_t depth = 0;
    uint64_t index = 0, mask = ~0ull;
    std::string member;             // "" : none
    const TD* member_type = nullptr;
    std::string type_name;
    TypeKind kind = TypeKind::NO_TYPE;
    size_t id = 0;                  // instance
    bool in_key = false;
};

std::string own_name(const TD& t) { return real_name(t); }

struct Expect
{
    std::vector<Node> nodes;
    std::vector<const V*> map_owner;

    void add(ReadableDynamicDataRef ref, const TD& t0, V& v, long parent, size_t depth, uint64_t index, uint64_t mask,
            const std::string& member, const TD* member_type, bool in_key, Rng& r)
    {
        const TD& t = t0.res();
        Node n;
        n.t = &t; n.v = &v; n.parent = parent; n.depth = depth; n.index = index; n.mask = mask; n.member = member; n.member_type = member_type;
        n.type_name = ref.type().name(); n.kind = ref.type().kind(); n.id = ref.instance_id(); n.in_key = in_key;
        nodes.push_back(n);
        long me = long(nodes.size()) - 1;
        switch (t.k)
        {
            case ARR: case SEQ:
                for (size_t i = 0; i < v.e.size(); ++i) { add(ref[i], *t.a, v.e[i], me, depth + 1, i, ~0ull, "", nullptr, in_key, r); }
                break;
            case STRUCT:
            {
                auto ms = t.all();
                for (size_t i = 0; i < ms.size(); ++i) { add(ref[ms[i]->name], *ms[i]->type, v.e[i], me, depth + 1, i, ~0ull, ms[i]->name, ms[i]->type.get(), in_key, r); }
                break;
            }
            case PAIR: pair(ref, t, v.e[0], v.e[1], me, depth, in_key, r); break;
            case MAP:
            {
                // the order of the pairs is the one of the iterators
                std::vector<bool> used(v.m.size(), false);
                size_t i = 0;
                for (auto&& p : ref)
                {
                    ReadableDynamicDataRef key = p[0];
                    size_t which = v.m.size();
                    for (size_t q = 0; q < v.m.size() && which == v.m.size(); ++q)
                    {
                        if (!used[q] && check(key, *t.a, v.m[q].first, r).empty()) { which = q; }
                    }
                    if (which == v.m.size()) { throw mon::Violation{"map-iteration", "a visited key is not one of the stored ones or is visited twice"}; }
                    used[which] = true;
                    Node pn;
                    pn.parent = me; pn.depth = depth + 1; pn.index = i; pn.in_key = in_key;
                    pn.type_name = p.type().name(); pn.kind = TypeKind::PAIR_TYPE; pn.id = p.instance_id();
                    nodes.push_back(pn);
                    pair(p, t, v.m[which].first, v.m[which].second, long(nodes.size()) - 1, depth + 1, in_key, r);
                    ++i;
                }
                if (i != v.m.size()) { throw mon::Violation{"map-iteration", cat(i, " pairs visited of ", v.m.size())}; }
                break;
            }
            case UNION:
            {
                const Mem& m = t.mem[size_t(v.active)];
                size_t w = with_prim(is_enum(t.a->res().k) ? enum_base(t.a->res().k) : t.a->res().k, [](auto tag) { return sizeof(typename decltype(tag)::type); });
                uint64_t mk = w >= 8 ? ~0ull : (1ull << (8 * w)) - 1;
                add(ref[m.name], *m.type, v.e[0], me, depth + 1, uint64_t(disc_value(ref.d(), t.a->res())), mk, m.name, m.type.get(), in_key, r);
                break;
            }
            default: break;
        }
    }

    void pair(ReadableDynamicDataRef ref, const TD& t, V& a, V& b, long me, size_t depth, bool in_key, Rng& r)
    {
        // the member that holds the pair (or the map of the pair), as the library documents nothing else
        const Node* owner = &nodes[size_t(me)];
        if (owner->member.empty() && owner->parent >= 0) { owner = &nodes[size_t(owner->parent)]; }
        std::string member = owner->member;
        const TD* mt = owner->member_type;
        bool is_map = nodes[size_t(me)].t == nullptr;
        add(ref[0], *t.a, a, me, depth + 1, 0, ~0ull, member, mt, in_key || is_map, r);
        add(ref[1], *t.b, b, me, depth + 1, 1, ~0ull, member, mt, in_key, r);
    }
};

std::string at(const std::vector<Node>& nodes, size_t i)
{
    std::string s;
    for (long q = long(i); q >= 0; q = nodes[size_t(q)].parent) { s = cat("/", nodes[size_t(q)].member.empty() ? std::to_string(nodes[size_t(q)].index) : nodes[size_t(q)].member, s); }
    return cat("node ", i, " at ", s, " (", nodes[i].type_name, ")");
}

void select_all(Rng& r, const TD& t0, V& v, const GenOpt& o)
{
    const TD& t = t0.res();
    switch (t.k)
    {
        case ARR: case SEQ: for (auto& x : v.e) { select_all(r, *t.a, x, o); } break;
        case PAIR: select_all(r, *t.a, v.e[0], o); select_all(r, *t.b, v.e[1], o); break;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { select_all(r, *ms[i]->type, v.e[i], o); } break; }
        case MAP:
        {
            std::set<std::string> seen;
            std::vector<std::pair<V, V>> keep;
            for (auto& p : v.m)
            {
                select_all(r, *t.a, p.first, o);
                select_all(r, *t.b, p.second, o);
                if (seen.insert(ser(*t.a, p.first)).second) { keep.push_back(p); }
            }
            v.m = keep;
            break;
        }
        case UNION:
            if (v.active < 0)
            {
                v.active = int(r.below(t.mem.size()));
                const Mem& m = t.mem[size_t(v.active)];
                v.e.assign(1, gen_value(r, *m.type, o, 80));
                v.label_known = true;
                v.label = m.labels.empty() ? disc_default(*t.a) : m.labels[r.below(m.labels.size())];
            }
            select_all(r, *t.mem[size_t(v.active)].type, v.e[0], o);
            break;
        default: break;
    }
}

GenOpt trav_opts(Rng& r)
{
    GenOpt o;
    o.depth = r.range(0, 4);
    o.max_elems = r.chance(10) ? 9 : 4;
    static const int roots[] = {-1, STRUCT, STRUCT, STRUCT, UNION, MAP, MAP, SEQ, ARR, PAIR, STR, ALIAS};
    o.root = roots[r.below(12)];
    return o;
}

bool well_formed(const TD& t, const V& v)
{
    Points p;
    switch (t.k)
    {
        case STR16: return dec16(v.u, p);
        case C16: return dec16(std::u16string(1, v.get<char16_t>()), p);
        case WSTR: for (wchar_t w : v.w) { uint32_t c = uint32_t(w); if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) { return false; } } return true;
        case WC: { uint32_t c = uint32_t(v.get<wchar_t>()); return c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000); }
        default: return true;
    }
}

uint32_t code(Rng& r)
{
    static const uint32_t from[] = {0, 0x20, 0x80, 0x800, 0xE000, 0x10000}, to[] = {0x20, 0x7F, 0x800, 0xD800, 0x10000, 0x110000};
    size_t i = r.chance(60) ? 1 : r.below(6);
    return from[i] + uint32_t(r.below(to[i] - from[i]));
}

// replaces text that is not well formed; keys that become equal are removed
void mend(Rng& r, const TD& t0, V& v)
{
    const TD& t = t0.res();
    switch (t.k)
    {
        case ARR: case SEQ: for (auto& x : v.e) { mend(r, *t.a, x); } break;
        case PAIR: mend(r, *t.a, v.e[0]); mend(r, *t.b, v.e[1]); break;
        case STRUCT: { auto ms = t.all(); for (size_t i = 0; i < ms.size(); ++i) { mend(r, *ms[i]->type, v.e[i]); } break; }
        case UNION: if (v.active >= 0) { mend(r, *t.mem[size_t(v.active)].type, v.e[0]); } break;
        case MAP:
        {
            std::set<std::string> seen;
            std::vector<std::pair<V, V>> keep;
            for (auto& p : v.m)
            {
                mend(r, *t.a, p.first);
                mend(r, *t.b, p.second);
                if (seen.insert(ser(*t.a, p.first)).second) { keep.push_back(p); }
            }
            v.m = keep;
            break;
        }
        default:
            if (well_formed(t, v)) { break; }
            if (t.k == C16) { uint32_t c; do { c = code(r); } while (c > 0xFFFF); v.set<char16_t>(char16_t(c)); }
            else if (t.k == WC) { v.set<wchar_t>(wchar_t(code(r))); }
            else if (t.k == WSTR) { for (auto& w : v.w) { uint32_t c = uint32_t(w); if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) { w = wchar_t(code(r)); } } }
            else
            {
                size_t n = v.u.size();
                Points p;
                while (n) { uint32_t c = code(r); if (c > 0xFFFF && n < 2) { continue; } n -= c > 0xFFFF ? 2 : 1; p.push_back(c); }
                v.u = enc16(p);
            }
    }
}

} // namespace
