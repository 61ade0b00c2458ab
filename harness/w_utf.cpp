// UTF-8 / UTF-16 conversions against an independent codec (C15).
#include "model.hpp"
#include "utf.hpp"
#include <xtypes/StringConversion.hpp>
using namespace mdl;

namespace {

uint32_t point(Rng& r)
{
    switch (r.range(0, 9))
    {
        case 0: return uint32_t(r.below(0x80));
        case 1: return uint32_t(0x80 + r.below(0x780));
        case 2: return uint32_t(0x800 + r.below(0xD000));
        case 3: return uint32_t(0xE000 + r.below(0x2000));
        case 4: return uint32_t(0x10000 + r.below(0x100000));
        case 5: return 0;
        case 6: return 0x10FFFFu - uint32_t(r.below(2));
        case 7: return uint32_t(0xFFFF - r.below(2));
        case 8: { static const uint32_t edge[] = {0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0xFFFFF, 0x100000}; return edge[r.below(13)]; }
        default: return uint32_t(0x10000 + r.below(0x400));
    }
}

std::string hex(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x ", c); o += b; } return o; }
std::string hex(const std::u16string& s) { std::string o; char b[8]; for (char16_t c : s) { snprintf(b, sizeof b, "%04x ", unsigned(c)); o += b; } return o; }
template<class S> std::string around(const S& a, const S& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
    size_t from = i < 4 ? 0 : i - 4;
    return cat("first difference at unit ", i, " (", hex(a.substr(from, 10)), "/ ", hex(b.substr(from, 10)), "), ", a.size(), " units instead of ", b.size());
}

void to16(Case& c, const std::string& s)
{
    Points p;
    bool ok = dec8(s, p);
    std::u16string got;
    bool thrown = false;
    try { got = c.rng.chance(50) ? eprosima::code_conversion_tool<char16_t>(s) : eprosima::code_conversion_tool<char16_t>(std::string_view(s)); }
    catch (const std::exception&) { thrown = true; }
    if (ok && thrown) { c.die("utf8-refused", cat("well-formed UTF-8 of ", s.size(), " bytes refused: ", hex(s.substr(0, 200)))); }
    if (!ok && !thrown) { c.die("utf8-accepted", cat("UTF-8 that is not well formed accepted: ", hex(s.substr(0, 200)))); }
    if (ok && got != enc16(p)) { c.die("utf8-to-16", around(got, enc16(p))); }
    c.count(ok ? "texts.converted" : "texts.refused");
}
void to8(Case& c, const std::u16string& s)
{
    Points p;
    bool ok = dec16(s, p);
    std::string got;
    bool thrown = false;
    try { got = c.rng.chance(50) ? eprosima::code_conversion_tool<char>(s) : eprosima::code_conversion_tool<char>(std::u16string_view(s)); }
    catch (const std::exception&) { thrown = true; }
    if (ok && thrown) { c.die("utf16-refused", cat("well-formed UTF-16 of ", s.size(), " units refused: ", hex(s.substr(0, 100)))); }
    if (!ok && !thrown) { c.die("utf16-accepted", cat("UTF-16 that is not well formed accepted: ", hex(s.substr(0, 100)))); }
    if (ok && got != enc8(p)) { c.die("utf16-to-8", around(got, enc8(p))); }
    c.count(ok ? "texts.converted" : "texts.refused");
}

Points text(Rng& r)
{
    static const int lens[] = {0, 1, 15, 16, 17, 20, 21, 22, 31, 32, 33, 42, 43, 62, 63, 64, 65, 66, 85, 127, 128, 129, 191, 192, 193, 256, 320};
    size_t n = r.chance(50) ? size_t(lens[r.below(sizeof lens / sizeof *lens)]) : r.below(400);
    if (r.chance(2)) { n = r.below(5000); }
    Points v(n);
    bool uniform = r.chance(50);
    uint32_t x = point(r);
    for (auto& c : v) { c = uniform && !r.chance(10) ? x : point(r); }
    if (uniform && n && r.chance(50)) { for (auto& c : v) { c = x; } v[r.below(n)] = point(r); }
    return v;
}

} // namespace

// Every code point, alone and behind prefixes that move it over the positions of an internal buffer.
MON_WORKLOAD(utf_points)
{
    uint32_t block = uint32_t(c.index % 1088) * 1024;
    c.see(block);
    uint32_t filler = point(c.rng);
    size_t before = c.rng.below(70);
    for (uint32_t cp = block; cp < block + 1024; ++cp)
    {
        Points one{cp};
        bool surrogate = cp >= 0xD800 && cp < 0xE000;
        std::string s = enc8(one);      // for surrogates, the ill-formed three bytes
        to16(c, s);
        Points many(before, filler);
        std::string s2 = enc8(many) + s;
        std::u16string w = surrogate ? std::u16string(1, char16_t(cp)) : enc16(one), w2 = enc16(many) + w;
        to8(c, w);
        to16(c, s2);
        to8(c, w2);
        before = (before + 1) % 131;
    }
    c.nontrivial = true;
}

// Long texts whose multi-unit characters fall on every offset.
MON_WORKLOAD(utf_texts)
{
    Points v = text(c.rng);
    c.see(mon::hash_str(enc8(v)));
    to16(c, enc8(v));
    to8(c, enc16(v));
    // there and back
    std::string s = enc8(v);
    std::string back = eprosima::code_conversion_tool<char>(eprosima::code_conversion_tool<char16_t>(s));
    if (back != s) { c.die("there-and-back", around(back, s)); }
    std::u16string w = enc16(v);
    std::u16string back16 = eprosima::code_conversion_tool<char16_t>(eprosima::code_conversion_tool<char>(w));
    if (back16 != w) { c.die("there-and-back", around(back16, w)); }
    c.nontrivial = v.size() > 1;
}

// The same texts damaged in one place.
MON_WORKLOAD(utf_damaged)
{
    Rng& r = c.rng;
    Points v = text(r);
    if (v.empty()) { v.push_back(point(r)); }
    std::string s = enc8(v);
    std::u16string w = enc16(v);
    switch (r.range(0, 6))
    {
        case 0: s.resize(r.below(s.size())); w.resize(r.below(w.size())); break;
        case 1: s[r.below(s.size())] ^= char(1 << r.below(8)); w[r.below(w.size())] ^= char16_t(1 << r.below(16)); break;
        case 2: s.insert(r.below(s.size() + 1), 1, char(r.next())); w.insert(r.below(w.size() + 1), 1, char16_t(0xD800 + r.below(0x800))); break;
        case 3: s.erase(r.below(s.size()), 1); w.erase(r.below(w.size()), 1); break;
        case 4:     // encoded surrogates, overlong forms, values over the last code point
        {
            static const char* const bad[] = {"\xED\xA0\x80", "\xED\xBF\xBF", "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80",
                "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\x80", "\xBF", "\xED\xA0\x80\xED\xB0\x80"};
            s.insert(enc8(Points(v.begin(), v.begin() + long(r.below(v.size() + 1)))).size(), bad[r.below(16)]);
            w.insert(enc16(Points(v.begin(), v.begin() + long(r.below(v.size() + 1)))).size(), r.chance(50) ? u"\xDC00\xD800" : u"\xD800");
            break;
        }
        case 5:     // cut inside the last character
        {
            uint32_t last = uint32_t(0x10000 + r.below(0x100000));
            uint32_t last8 = r.chance(50) ? last : r.chance(50) ? uint32_t(0x800 + r.below(0xD000)) : uint32_t(0x80 + r.below(0x700));
            std::string tail = enc8({last8});
            s += tail.substr(0, 1 + r.below(tail.size() - 1));
            w += enc16({last})[0];
            break;
        }
        default:    // several damages
            for (int i = 0; i < 3; ++i) { s[r.below(s.size())] = char(r.next()); w[r.below(w.size())] = char16_t(0xD700 + r.below(0xA00)); }
    }
    c.see(mon::hash_str(s));
    to16(c, s);
    to8(c, w);
    c.nontrivial = true;
}

// All texts of one and two bytes, and a walk over those of three and four.
MON_WORKLOAD(utf_bytes)
{
    uint32_t first = uint32_t(c.index % 256);
    c.see(c.index);
    if (c.index < 256)
    {
        to16(c, std::string(1, char(first)));
        for (int b = 0; b < 256; ++b) { std::string s; s += char(first); s += char(b); to16(c, s); }
    }
    static const unsigned char lead[] = {0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xC2, 0xDF};
    static const unsigned char next[] = {0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xBF, 0xC0, 0xED, 0xFF};
    for (int i = 0; i < 300; ++i)
    {
        std::string s(c.rng.below(66), 'x');
        s += char(c.rng.chance(70) ? lead[c.rng.below(sizeof lead)] : first);
        int n = c.rng.range(1, 4);
        for (int k = 0; k < n; ++k) { s += char(c.rng.chance(70) ? next[c.rng.below(sizeof next)] : c.rng.below(256)); }
        to16(c, s);
    }
    c.nontrivial = true;
}

// Texts held by data: strings of the three kinds cast to UTF-8.
MON_WORKLOAD(utf_data)
{
    Rng& r = c.rng;
    Points v = text(r);
    c.see(mon::hash_str(enc8(v)));
    bool damaged = r.chance(30);
    std::u16string w = enc16(v);
    std::wstring wide = encw(v);
    if (damaged)
    {
        w.insert(r.below(w.size() + 1), 1, char16_t(0xD800 + r.below(0x800)));
        Points left;
        if (dec16(w, left)) { return; }     // a pair was split by itself: still well formed
        wide.insert(r.below(wide.size() + 1), 1, wchar_t(r.chance(50) ? 0xD800 + r.below(0x800) : r.chance(50) ? 0x110000 + r.below(0x1000) : uint32_t(r.next() | 0x200000)));
    }
    StringType st; WStringType wt; String16Type ut;
    DynamicData s(st), ws(wt), us(ut);
    s = enc8(v);
    ws = wide;
    us = w;
    if (s.cast<std::string>() != enc8(v)) { c.die("cast-string", around(s.cast<std::string>(), enc8(v))); }
    for (int i = 0; i < 2; ++i)
    {
        const DynamicData& d = i ? us : ws;
        bool thrown = false;
        std::string got;
        try { got = d.cast<std::string>(); } catch (const std::exception&) { thrown = true; }
        const char* kind = i ? "u16string" : "wstring";
        if (damaged && !thrown) { c.die(cat("cast-accepted:", kind), "a text that is not well formed is converted"); }
        if (!damaged && thrown) { c.die(cat("cast-refused:", kind), "a well-formed text is refused"); }
        if (!damaged && got != enc8(v)) { c.die(cat("cast:", kind), around(got, enc8(v))); }
        c.count(damaged ? "texts.refused" : "texts.converted");
    }
    c.nontrivial = true;
}
