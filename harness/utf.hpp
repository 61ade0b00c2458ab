// Independent UTF codec.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace {
using Points = std::vector<uint32_t>;

// Decoders accept exactly what Unicode calls well formed.
bool dec8(const std::string& s, Points& o)
{
    size_t i = 0;
    while (i < s.size())
    {
        unsigned char c = static_cast<unsigned char>(s[i]);
        size_t n;
        uint32_t cp, mn;
        if (c < 0x80) { o.push_back(c); ++i; continue; }
        if (c >= 0xC2 && c <= 0xDF) { n = 1; cp = c & 31; mn = 0x80; }
        else if ((c & 0xF0) == 0xE0) { n = 2; cp = c & 15; mn = 0x800; }
        else if (c >= 0xF0 && c <= 0xF4) { n = 3; cp = c & 7; mn = 0x10000; }
        else { return false; }
        if (i + n >= s.size()) { return false; }
        for (size_t k = 1; k <= n; ++k)
        {
            unsigned char d = static_cast<unsigned char>(s[i + k]);
            if ((d & 0xC0) != 0x80) { return false; }
            cp = cp << 6 | (d & 63u);
        }
        if (cp < mn || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) { return false; }
        o.push_back(cp);
        i += n + 1;
    }
    return true;
}
bool dec16(const std::u16string& s, Points& o)
{
    for (size_t i = 0; i < s.size(); ++i)
    {
        uint32_t c = s[i];
        if (c >= 0xD800 && c < 0xDC00)
        {
            if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) { return false; }
            o.push_back(0x10000 + ((c - 0xD800) << 10) + (uint32_t(s[i + 1]) - 0xDC00));
            ++i;
        }
        else if (c >= 0xDC00 && c < 0xE000) { return false; }
        else { o.push_back(c); }
    }
    return true;
}
std::u16string enc16(const Points& v)
{
    std::u16string r;
    for (uint32_t c : v)
    {
        if (c < 0x10000) { r += char16_t(c); }
        else { c -= 0x10000; r += char16_t(0xD800 + (c >> 10)); r += char16_t(0xDC00 + (c & 1023)); }
    }
    return r;
}
std::string enc8(const Points& v)
{
    std::string r;
    for (uint32_t c : v)
    {
        if (c < 0x80) { r += char(c); }
        else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xF0 | c >> 18); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
    }
    return r;
}
std::wstring encw(const Points& v) { std::wstring r; for (uint32_t c : v) { r += wchar_t(c); } return r; }

} // namespace
