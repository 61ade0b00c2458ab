// Directed cases of defects that are listed as known findings.
#include "model.hpp"
#include <xtypes/idl/Module.hpp>
#include <xtypes/idl/generator.hpp>
using namespace mdl;

// int32 and float (same width, both "signed") are EQUALS, and an assignment between EQUALS types copies the memory
MON_PROBE(c07_float_from_int32)
{
    DynamicData f(primitive_type<float>());
    DynamicData i(primitive_type<int32_t>());
    i = int32_t(5);
    try { f = i; if (f.value<float>() != 5.f) { c.fail("float-from-int32", cat("float = int32 5 stores ", f.value<float>())); } }
    catch (const std::runtime_error&) {}
}
MON_PROBE(c07_double_ref_from_int64)
{
    StructType s("S");
    s.add_member("d", primitive_type<double>());
    s.add_member("l", primitive_type<int64_t>());
    DynamicData x(s);
    x["l"] = int64_t(5);
    try { x["d"] = x["l"]; if (x["d"].value<double>() != 5.) { c.fail("double-from-int64", cat("double member = int64 member 5 stores ", x["d"].value<double>())); } }
    catch (const std::runtime_error&) {}
}
MON_PROBE(c07_push_int32_to_floats)
{
    DynamicData s(SequenceType(primitive_type<float>()));
    DynamicData i(primitive_type<int32_t>());
    i = int32_t(5);
    try { s.push(i); if (s[0].value<float>() != 5.f) { c.fail("float-element-from-int32", cat("push of int32 5 into a sequence of float stores ", s[0].value<float>())); } }
    catch (const std::runtime_error&) {}
}
MON_PROBE(c01_bool_from_int8)
{
    DynamicData b(primitive_type<bool>());
    DynamicData i(primitive_type<int8_t>());
    i = int8_t(5);
    try { b = i; } catch (const std::runtime_error&) { return; }
    unsigned char raw;
    std::memcpy(&raw, &b.value<bool>(), 1);
    if (raw > 1) { c.fail("invalid-bool", cat("bool = int8 5 leaves the byte ", int(raw), " in a bool")); }
}
static void labels(UnionType& u, int a, int s)
{
    u.add_case_member<int32_t>({a}, Member("a", ArrayType(primitive_type<int64_t>(), 4)));
    u.add_case_member<int32_t>({s}, Member("s", StringType()));
}
MON_PROBE(c01_union_other_labels)
{
    // the label 1 of the source selects the integer, in the target the string
    UnionType u("U", primitive_type<int32_t>()), v("U", primitive_type<int32_t>());
    labels(u, 1, 2);
    labels(v, 2, 1);
    DynamicData a(u), b(v);
    a["a"][0] = int64_t(8);     // read as the text of a string
    a["a"][1] = int64_t(100);
    try { b = a; } catch (const std::runtime_error&) { return; }
}
MON_PROBE(c01_alignment)
{
    StructType s("S");
    s.add_member("c", primitive_type<char>());
    s.add_member("l", primitive_type<int64_t>());
    DynamicData x(s);
    size_t at = reinterpret_cast<size_t>(&x["l"].value<int64_t>());
    asm volatile("" : "+r"(at));    // the compiler believes that it is aligned
    if (at % alignof(int64_t)) { c.fail("misaligned", cat("an int64 member behind a char lives at an address that is ", at % alignof(int64_t), " modulo 8")); }
}
MON_PROBE(c06_bool_default)
{
    UnionType u("U", primitive_type<bool>());
    u.add_case_member<bool>({true}, Member("a", primitive_type<int32_t>()));
    u.add_case_member<bool>({}, Member("b", primitive_type<int32_t>()), true);
    DynamicData x(u);
    x["b"] = 7;
    unsigned char raw;
    std::memcpy(&raw, &x.d().value<bool>(), 1);
    if (raw > 1) { c.fail("invalid-bool-discriminator", cat("a union switched by bool with its default member without labels selected has the byte ", int(raw), " as discriminator")); }
}
MON_PROBE(c18_mutual_modules)
{
    // A::x is needed by B::y and B::z by A::w
    using namespace eprosima::xtypes::idl;
    Module root;
    Module& a = root.create_submodule("A");
    Module& b = root.create_submodule("B");
    StructType x("x"), y("y"), z("z"), w("w");
    x.add_member("i", primitive_type<int32_t>());
    z.add_member("i", primitive_type<int32_t>());
    a.structure(x);
    b.structure(z);
    y.add_member("x", a.structure("x"));
    w.add_member("z", b.structure("z"));
    b.structure(y);
    a.structure(w);
    std::string t = generator::module(root);
    size_t dx = t.find("struct x"), dz = t.find("struct z"), uy = t.find("A::x x"), uw = t.find("B::z z");
    if (dx == std::string::npos || dz == std::string::npos || uy == std::string::npos || uw == std::string::npos) { c.die("mutual-missing", t); }
    if (dx > uy || dz > uw) { c.fail("mutual-order", "a module is used before it is declared when two modules need each other\n" + t); }
}
