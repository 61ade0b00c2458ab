// Reference model: type descriptors and plain value trees, independent of the library,
// plus adapters that build the real types/data and read them back through the public API.
#pragma once
#include "runner.hpp"
#include <xtypes/xtypes.hpp>
#include <memory>
#include <map>

namespace mdl {
using namespace eprosima::xtypes;
using mon::Case;
using mon::Rng;
using mon::cat;

enum K : int
{
    BOOL, I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F128, C8, C16, WC,    // primitives
    E8, E16, E32,                                                               // enumerations
    STR, WSTR, STR16,                                                           // strings
    ARR, SEQ, MAP, STRUCT, UNION, ALIAS, PAIR,
    NKINDS
};
inline bool is_prim(K k) { return k <= WC; }
inline bool is_enum(K k) { return k >= E8 && k <= E32; }
inline bool is_string(K k) { return k >= STR && k <= STR16; }
inline bool is_float(K k) { return k >= F32 && k <= F128; }
inline bool is_flat(K k) { return k <= E32; }
const char* kname(K k);
inline K enum_base(K k) { return k == E8 ? U8 : k == E16 ? U16 : U32; }

template<class T> struct Tag { using type = T; };
template<class F>
decltype(auto) with_prim(K k, F&& f)
{
    switch (k)
    {
        case BOOL: return f(Tag<bool>{});
        case I8: return f(Tag<int8_t>{});
        case U8: case E8: return f(Tag<uint8_t>{});
        case I16: return f(Tag<int16_t>{});
        case U16: case E16: return f(Tag<uint16_t>{});
        case I32: return f(Tag<int32_t>{});
        case U32: case E32: return f(Tag<uint32_t>{});
        case I64: return f(Tag<int64_t>{});
        case U64: return f(Tag<uint64_t>{});
        case F32: return f(Tag<float>{});
        case F64: return f(Tag<double>{});
        case F128: return f(Tag<long double>{});
        case C8: return f(Tag<char>{});
        case C16: return f(Tag<char16_t>{});
        case WC: return f(Tag<wchar_t>{});
        default: abort();
    }
}

struct TD;
using TDp = std::shared_ptr<TD>;

struct Mem
{
    std::string name;
    TDp type;
    int id = -1;
    bool key = false, opt = false;
    std::vector<int64_t> labels;
    bool is_default = false;
};

struct TD
{
    K k = I32;
    std::string name;       // struct/union/alias/enum
    uint32_t n = 0;         // bound or dimension
    TDp a, b;               // content / aliased / discriminator / map key ; map value
    TDp parent;             // struct
    std::vector<Mem> mem;   // own members (struct) or cases (union)
    std::vector<std::pair<std::string, uint32_t>> enums;
    std::vector<int> enum_implicit; // 1 when declared without value
    bool pooled = false;    // built with make_shared (shared_from_this works) or plain
    std::shared_ptr<DynamicType> dt;

    std::vector<const Mem*> all() const; // flattened members (struct)
    const TD& res() const { const TD* t = this; while (t->k == ALIAS) { t = t->a.get(); } return *t; }
};

const DynamicType& real(const TD& t);           // builds on demand
const DynamicType& real(const TDp& t);
std::shared_ptr<DynamicType> build_fresh(const TD& t); // new real type object from the descriptor
TDp clone_desc(const TDp& t);                   // deep copy without the real object
std::string show(const TD& t);
uint64_t sig(const TD& t);
size_t ref_size(const TD& t);                   // reference memory size

struct V
{
    unsigned char raw[16] = {0};        // primitives & enums
    std::string s; std::wstring w; std::u16string u;
    std::vector<V> e;                   // array/seq/struct elements; union: 0 or 1 element
    std::vector<std::pair<V, V>> m;     // map
    int active = -1;                    // union: index in mem
    bool label_known = false; int64_t label = 0;

    template<class T> T get() const { T t; memcpy(&t, raw, sizeof(T)); return t; }
    template<class T> void set(T t);
};
template<class T> inline void V::set(T t) { memset(raw, 0, 16); memcpy(raw, &t, sizeof(T)); }
template<> inline void V::set<long double>(long double t) { memset(raw, 0, 16); memcpy(raw, &t, 10); }

V default_value(const TD& t);
std::string ser(const TD& t, const V& v);       // canonical content (bitwise for numbers; maps sorted)
std::string ser_sem(const TD& t, const V& v);   // like ser (kept for readability)
bool same(const TD& t, const V& a, const V& b);
std::string show(const TD& t, const V& v);

struct GenOpt
{
    int depth = 3;
    bool uni = true, map = true, seq = true, str = true, enm = true, arr = true, stru = true, alias = true, inherit = true, pair = true;
    bool fpspecial = false;     // NaN, -0.0, inf
    bool f128 = true;
    bool bool_union = true;
    uint32_t max_bound = 9, max_dim = 5;
    int max_members = 5;
    int max_elems = 4;
    int root = -1;              // force the kind of the root
    bool big = false;           // allow larger collections
    bool shrunk_labels_only = false;
};
TDp gen_type(Rng& r, const GenOpt& o);
TDp gen_key_type(Rng& r, const GenOpt& o);
V gen_value(Rng& r, const TD& t, const GenOpt& o, int fill = 60); // fill: percent of non-default leaves
V gen_prim(Rng& r, K k, bool fpspecial);
V gen_enum(Rng& r, const TD& t);
V gen_text(Rng& r, const TD& t, size_t max_len = 40);
std::string fresh_name(Rng& r, const char* prefix);
TDp mk_prim(K k);
int64_t disc_default(const TD& disc); // implicit default label

// all values (labels) of the discriminator
int64_t disc_value(ReadableDynamicDataRef r, const TD& disc);
void set_disc(WritableDynamicDataRef r, const TD& disc, int64_t value, Rng& rng);
DynamicData mk_disc(const TD& disc, int64_t value);

// real data
void fill(WritableDynamicDataRef ref, const TD& t, const V& v, Rng& r);   // ref currently holds defaults
DynamicData* mk(const TD& t, const V& v, Rng& r);                      // heap allocated
void assign_leaf(WritableDynamicDataRef ref, const TD& t, const V& v, Rng& r); // prim/enum/string, any old content

// Monitor: read everything through the public API and compare; "" when equal. May refine union labels in v.
std::string check(const ReadableDynamicDataRef& ref, const TD& t, V& v, Rng& r, const std::string& path = "$");
// Read a plain value tree out of real data (used where the model does not predict).
size_t count_leaves(const TD& t, const V& v);

V clip_text(const TD& t, V v);  // apply the bound of a string type

struct Loc { const TD* t; V* v; };
// random descent; f(ref, td, v) is called at the selected place (within the lifetime of the references)
using LocFn = std::function<void(WritableDynamicDataRef, const TD&, V&)>;
void descend(WritableDynamicDataRef ref, const TD& t, V& v, Rng& r, int stop_percent, const LocFn& f, const std::function<bool(const TD&)>& want);

} // namespace mdl
