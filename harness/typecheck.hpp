// Reads a real type back through the introspection API and compares it with its declaration.
#pragma once
#include "model.hpp"
namespace mdl {
// "" when the type reports exactly what the descriptor declares
std::string check_type(const DynamicType& d, const TD& t, const std::string& path = "T", bool check_name = true);
std::string real_name(const TD& t);         // name the library derives for unnamed types
std::shared_ptr<DynamicType> copy_type(const DynamicType& d, const TD& t);  // through the copy constructor
TypeKind kind_of(K k);
}
