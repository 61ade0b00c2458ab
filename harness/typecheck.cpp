#include "typecheck.hpp"
#include <algorithm>
namespace mdl {

TypeKind kind_of(K k)
{
    switch (k)
    {
        case BOOL: return TypeKind::BOOLEAN_TYPE;
        case I8: return TypeKind::INT_8_TYPE;
        case U8: return TypeKind::UINT_8_TYPE;
        case I16: return TypeKind::INT_16_TYPE;
        case U16: return TypeKind::UINT_16_TYPE;
        case I32: return TypeKind::INT_32_TYPE;
        case U32: return TypeKind::UINT_32_TYPE;
        case I64: return TypeKind::INT_64_TYPE;
        case U64: return TypeKind::UINT_64_TYPE;
        case F32: return TypeKind::FLOAT_32_TYPE;
        case F64: return TypeKind::FLOAT_64_TYPE;
        case F128: return TypeKind::FLOAT_128_TYPE;
        case C8: return TypeKind::CHAR_8_TYPE;
        case C16: return TypeKind::CHAR_16_TYPE;
        case WC: return TypeKind::WIDE_CHAR_TYPE;
        case E8: case E16: case E32: return TypeKind::ENUMERATION_TYPE;
        case STR: return TypeKind::STRING_TYPE;
        case WSTR: return TypeKind::WSTRING_TYPE;
        case STR16: return TypeKind::STRING16_TYPE;
        case ARR: return TypeKind::ARRAY_TYPE;
        case SEQ: return TypeKind::SEQUENCE_TYPE;
        case MAP: return TypeKind::MAP_TYPE;
        case STRUCT: return TypeKind::STRUCTURE_TYPE;
        case UNION: return TypeKind::UNION_TYPE;
        case ALIAS: return TypeKind::ALIAS_TYPE;
        case PAIR: return TypeKind::PAIR_TYPE;
        default: return TypeKind::NO_TYPE;
    }
}

static const char* prim_name(K k)
{
    switch (k)
    {
        case BOOL: return "bool"; case I8: return "int8_t"; case U8: return "uint8_t"; case I16: return "int16_t"; case U16: return "uint16_t";
        case I32: return "int32_t"; case U32: return "uint32_t"; case I64: return "int64_t"; case U64: return "uint64_t"; case F32: return "float";
        case F64: return "double"; case F128: return "long double"; case C8: return "char"; case C16: return "char16_t"; case WC: return "wchar_t";
        default: return "";
    }
}

std::string real_name(const TD& t)
{
    std::string n = t.n ? "_" + std::to_string(t.n) : "";
    switch (t.k)
    {
        case STR: return "std::string" + n;
        case WSTR: return "std::wstring" + n;
        case STR16: return "std::u16string" + n;
        case ARR: return "array_" + std::to_string(t.n) + "_" + real_name(*t.a);
        case SEQ: return "sequence" + n + "_" + real_name(*t.a);
        case MAP: return "map" + n + "_pair_" + real_name(*t.a) + "_" + real_name(*t.b);
        case PAIR: return "pair_" + real_name(*t.a) + "_" + real_name(*t.b);
        default: return is_prim(t.k) ? prim_name(t.k) : t.name;
    }
}

template<class F>
static bool throws(F&& f)
{
    try { f(); }
    catch (const std::runtime_error&) { return true; }
    return false;
}

template<class E>
static std::string check_enum(const DynamicType& d, const TD& t, const std::string& p)
{
    const auto& e = static_cast<const EnumerationType<E>&>(d);
    if (e.enumerators().size() != t.enums.size()) { return cat(p, ": ", e.enumerators().size(), " enumerators, declared ", t.enums.size()); }
    std::set<E> vals;
    for (auto& x : t.enums)
    {
        vals.insert(E(x.second));
        if (!e.has_enumerator(x.first)) { return cat(p, ": enumerator ", x.first, " missing"); }
        if (e.value(x.first) != E(x.second)) { return cat(p, ": enumerator ", x.first, " is ", e.value(x.first), " declared ", x.second); }
        if (!e.is_allowed_value(E(x.second))) { return cat(p, ": value ", x.second, " not allowed"); }
        if (e.enumerator(E(x.second)) != x.first) { return cat(p, ": enumerator(", x.second, ") is ", e.enumerator(E(x.second))); }
    }
    for (uint32_t v : {0u, 1u, 2u, 3u, 7u, 100u, 255u, 256u, 65535u, 65536u, 0xffffffffu})
    {
        E x = E(v);
        if (e.is_allowed_value(x) != (vals.count(x) == 1)) { return cat(p, ": is_allowed_value(", +x, ") wrong"); }
        if (!vals.count(x) && e.enumerator(x) != "") { return cat(p, ": enumerator(", +x, ") should be empty"); }
    }
    for (auto& x : t.enums)
    {
        E next = E(E(x.second) + E(1));
        if (e.is_allowed_value(next) != (vals.count(next) == 1)) { return cat(p, ": is_allowed_value(", +next, ") wrong"); }
    }
    if (e.has_enumerator("no such name")) { return cat(p, ": unknown enumerator reported"); }
    if (!throws([&] { e.value("no such name"); })) { return cat(p, ": value() of an unknown enumerator accepted"); }
    if (d.memory_size() != sizeof(E)) { return cat(p, ": memory size ", d.memory_size()); }
    return "";
}

std::string check_type(const DynamicType& d, const TD& t, const std::string& p, bool check_name)
{
    if (d.kind() != kind_of(t.k)) { return cat(p, ": kind ", uint32_t(d.kind()), " declared ", kname(t.k)); }
    if (check_name && d.name() != real_name(t)) { return cat(p, ": name ", d.name(), " declared ", real_name(t)); }
    bool col = is_string(t.k) || t.k == ARR || t.k == SEQ || t.k == MAP, agg = t.k == STRUCT || t.k == UNION;
    if (d.is_primitive_type() != is_prim(t.k)) { return cat(p, ": is_primitive_type ", d.is_primitive_type()); }
    if (d.is_enumerated_type() != is_enum(t.k)) { return cat(p, ": is_enumerated_type ", d.is_enumerated_type()); }
    if (d.is_collection_type() != col) { return cat(p, ": is_collection_type ", d.is_collection_type()); }
    if (d.is_aggregation_type() != agg) { return cat(p, ": is_aggregation_type ", d.is_aggregation_type()); }
    if (d.is_constructed_type() == is_prim(t.k)) { return cat(p, ": is_constructed_type ", d.is_constructed_type()); }
    if (d.memory_size() != ref_size(t)) { return cat(p, ": memory size ", d.memory_size(), " expected ", ref_size(t)); }
    std::string e;
    switch (t.k)
    {
        case E8: return check_enum<uint8_t>(d, t, p);
        case E16: return check_enum<uint16_t>(d, t, p);
        case E32: return check_enum<uint32_t>(d, t, p);
        case STR: case WSTR: case STR16:
        {
            auto& s = static_cast<const MutableCollectionType&>(d);
            if (s.bounds() != t.n) { return cat(p, ": bounds ", s.bounds(), " declared ", t.n); }
            TypeKind ck = t.k == STR ? TypeKind::CHAR_8_TYPE : t.k == WSTR ? TypeKind::WIDE_CHAR_TYPE : TypeKind::CHAR_16_TYPE;
            if (s.content_type().kind() != ck) { return cat(p, ": content of the string"); }
            return "";
        }
        case SEQ:
        {
            auto& s = static_cast<const SequenceType&>(d);
            if (s.bounds() != t.n) { return cat(p, ": bounds ", s.bounds(), " declared ", t.n); }
            return check_type(s.content_type(), *t.a, p + "<>", check_name);
        }
        case ARR:
        {
            auto& s = static_cast<const ArrayType&>(d);
            if (s.dimension() != t.n) { return cat(p, ": dimension ", s.dimension(), " declared ", t.n); }
            return check_type(s.content_type(), *t.a, p + "[]", check_name);
        }
        case MAP:
        {
            auto& s = static_cast<const MapType&>(d);
            if (s.bounds() != t.n) { return cat(p, ": bounds ", s.bounds(), " declared ", t.n); }
            if (s.content_type().kind() != TypeKind::PAIR_TYPE) { return cat(p, ": content of the map"); }
            auto& q = static_cast<const PairType&>(s.content_type());
            e = check_type(q.first(), *t.a, p + "<key>", check_name);
            return e.empty() ? check_type(q.second(), *t.b, p + "<value>", check_name) : e;
        }
        case PAIR:
        {
            auto& q = static_cast<const PairType&>(d);
            e = check_type(q.first(), *t.a, p + ".first", check_name);
            return e.empty() ? check_type(q.second(), *t.b, p + ".second", check_name) : e;
        }
        case ALIAS:
        {
            auto& a = static_cast<const AliasType&>(d);
            if (&a.get() != &*a || a.operator->() != &a.get()) { return cat(p, ": accesses to the aliased type disagree"); }
            if (a.rget().kind() != kind_of(t.res().k)) { return cat(p, ": rget() kind ", uint32_t(a.rget().kind())); }
            e = check_type(a.rget(), t.res(), p + "=>", check_name);
            return e.empty() ? check_type(a.get(), *t.a, p + "=", check_name) : e;
        }
        case STRUCT:
        {
            auto& s = static_cast<const StructType&>(d);
            auto ms = t.all();
            if (s.has_parent() != bool(t.parent)) { return cat(p, ": has_parent ", s.has_parent()); }
            if (t.parent)
            {
                e = check_type(s.parent(), t.parent->res(), p + ":parent", check_name);
                if (!e.empty()) { return e; }
            }
            else if (!throws([&] { s.parent(); })) { return cat(p, ": parent() without parent accepted"); }
            if (s.members().size() != ms.size()) { return cat(p, ": ", s.members().size(), " members, declared ", ms.size()); }
            size_t off = 0;
            for (size_t i = 0; i < ms.size(); ++i)
            {
                const Member& m = s.members()[i];
                if (m.name() != ms[i]->name) { return cat(p, ": member ", i, " is ", m.name(), " declared ", ms[i]->name); }
                if (&s.member(i) != &m) { return cat(p, ": member(", i, ") is another one"); }
                if (!s.has_member(m.name())) { return cat(p, ": has_member(", m.name(), ") false"); }
                if (&s.member(m.name()) != &m) { return cat(p, ": member(", m.name(), ") is another one"); }
                if (m.has_id() != (ms[i]->id >= 0)) { return cat(p, ".", m.name(), ": has_id ", m.has_id()); }
                if (m.get_id() != ms[i]->id) { return cat(p, ".", m.name(), ": id ", m.get_id()); }
                if (m.is_key() != ms[i]->key) { return cat(p, ".", m.name(), ": key ", m.is_key()); }
                if (m.is_optional() != ms[i]->opt) { return cat(p, ".", m.name(), ": optional ", m.is_optional()); }
                if (m.offset() != off) { return cat(p, ".", m.name(), ": offset ", m.offset(), " expected ", off); }
                off += ref_size(*ms[i]->type);
                e = check_type(m.type(), *ms[i]->type, p + "." + m.name(), check_name);
                if (!e.empty()) { return e; }
            }
            if (s.has_member("no such member") || s.has_member("")) { return cat(p, ": unknown member reported"); }
            if (!throws([&] { s.member("no such member"); })) { return cat(p, ": unknown member returned"); }
            if (!throws([&] { s.member(ms.size()); })) { return cat(p, ": member out of range returned"); }
            return "";
        }
        case UNION:
        {
            auto& u = static_cast<const UnionType&>(d);
            e = check_type(u.discriminator(), *t.a, p + ".d", check_name);
            if (!e.empty()) { return e; }
            auto cs = u.get_case_members();
            if (cs.size() != t.mem.size() || u.members().size() != t.mem.size() + 1) { return cat(p, ": ", cs.size(), " cases, declared ", t.mem.size()); }
            std::string def;
            for (size_t i = 0; i < cs.size(); ++i)
            {
                const Mem& m = t.mem[i];
                if (cs[i] != m.name) { return cat(p, ": case ", i, " is ", cs[i], " declared ", m.name); }
                if (!u.has_member(m.name) || &u.member(m.name) != &u.member(i + 1)) { return cat(p, ": lookups of ", m.name, " disagree"); }
                if (u.member(m.name).get_id() != m.id) { return cat(p, ".", m.name, ": id ", u.member(m.name).get_id()); }
                auto l = u.get_labels(m.name);
                std::set<int64_t> got(l.begin(), l.end()), want(m.labels.begin(), m.labels.end());
                if (got != want || got.size() != l.size())
                {
                    std::string s;
                    for (auto x : l) { s += std::to_string(x) + ","; }
                    return cat(p, ".", m.name, ": labels ", s, " declared in ", show(t));
                }
                if (u.is_default(m.name) != m.is_default) { return cat(p, ".", m.name, ": is_default ", u.is_default(m.name)); }
                if (m.is_default) { def = m.name; }
                e = check_type(u.member(m.name).type(), *m.type, p + "." + m.name, check_name);
                if (!e.empty()) { return e; }
            }
            if (u.get_default() != def) { return cat(p, ": default ", u.get_default(), " declared ", def); }
            if (!u.get_labels("no such member").empty() || u.is_default("no such member")) { return cat(p, ": labels of an unknown member"); }
            if (!throws([&] { u.member("no such member"); })) { return cat(p, ": unknown member returned"); }
            return "";
        }
        default: return "";
    }
}

std::shared_ptr<DynamicType> copy_type(const DynamicType& d, const TD& t)
{
#define CP(CLS) return std::make_shared<CLS>(static_cast<const CLS&>(d));
    switch (t.k)
    {
        case STR: CP(StringType)
        case WSTR: CP(WStringType)
        case STR16: CP(String16Type)
        case ARR: CP(ArrayType)
        case SEQ: CP(SequenceType)
        case MAP: CP(MapType)
        case PAIR: CP(PairType)
        case ALIAS: CP(AliasType)
        case STRUCT: CP(StructType)
        case UNION: CP(UnionType)
        default: break;
    }
    // primitives are never copied; enumerations are copied by whatever contains them
    StructType box("box");
    box.add_member("m", d);
    StructType copy(box);
    auto keep = std::make_shared<StructType>(copy);
    return std::shared_ptr<DynamicType>(keep, const_cast<DynamicType*>(&keep->member(0).type()));
}
}
