// Alphabets shared by the spaces.
#pragma once
#include "model.hpp"

namespace m {

// The alphabet of edits, simplest first. Every entry is one call on the real tag and on the model.
inline int edit_count() { return 24; }

inline void edit(ID3v2_Tag* t, Tag& M, int i)
{
    static const Str PNG = Str("\x89PNG\0\x1a\0", 7);
    switch (i)
    {
        case 0: set_named(t, M, 2, latin("a")); break;
        case 1: del_named(t, M, 2); break;
        case 2: set_named(t, M, 0, utf16("bc")); break;
        case 3: del_named(t, M, 0); break;
        case 4: set_comment_frame(t, M, true, "eng", latin("d"), latin("added")); break;
        case 5: del_comment_at(t, M, 0); break;
        case 6: del_comment_at(t, M, 1); break;
        case 7: set_apic_frame(t, M, true, latin("image/png"), 4, latin("pic"), PNG); break;
        case 8: del_apic_at(t, M, 0); break;
        case 9: del_apic_at(t, M, 1); break;
        case 10: set_comment(t, M, "spa", utf16("set")); break;
        case 11: set_cover(t, M, latin("image/jpeg"), Str("\xff\xd8\0", 3)); break;
        case 12: set_text(t, M, "TXXX", latin("k"), Str("\x40\x01", 2)); break;
        case 13: del_frame(t, M, "PRIV"); break;
        case 14: set_comment_frame(t, M, false, "fra", utf16("D"), utf16("longer comment"), Str("\x20\x08", 2)); break;
        case 15: set_apic_frame(t, M, false, latin("x/y"), 255, utf16("description", true), "", Str("\xff\xff", 2)); break;
        case 16: del_comment(t, M); break;
        case 17: del_cover(t, M); break;
        case 18: set_named(t, M, 2, latin("")); break;
        case 19: del_frame(t, M, "TXXX"); break;
        case 20: del_comment_at(t, M, 2); break;
        case 21: del_apic_at(t, M, 2); break;
        case 22: set_named(t, M, 2, utf16("a much longer title than before", true)); break;
        case 23: del_comment_at(t, M, -1); break;
    }
}

// Lengths around which sizes change their encoding
inline std::vector<size_t> lengths(size_t small, bool big)
{
    std::vector<size_t> v;
    for (size_t i = 0; i <= small; i++) v.push_back(i);
    std::vector<size_t> edges = {127, 128, 255, 256, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536};
    if (big)
        for (size_t e : {131072, 262144, 1 << 20, 1 << 21}) edges.push_back(e);
    for (size_t e : edges)
        for (long d = -14; d <= 14; d++)
            if (e + d > small && (v.empty() || e + d > v.back())) v.push_back(e + d);
    return v;
}

inline Str string_of(int kind, size_t n) // n characters
{
    Str s(n, 'a');
    for (size_t i = 0; i < n; i++) s[i] = 'a' + i % 26;
    if (kind == 0) return latin(s);
    return utf16(s, kind == 2);
}

// Edits, write, read back
inline ID3v2_Tag* write_and_read(const Str& file, ID3v2_Tag* t)
{
    mc::op("write");
    ID3v2_write_tag(file.c_str(), t);
    mc::op("read");
    return ID3v2_read_tag(file.c_str());
}

} // namespace m
