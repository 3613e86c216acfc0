// The calls that rewrite a file, each one with the contents before and after it.
#pragma once
#include "common.hpp"
#include "compat.hpp"
#include "sysio.hpp"

namespace m {

struct Rewrite
{
    Str file, before, after;
    Tag M;
    ID3v2_Tag* t = nullptr;
    ID3v2_tag* c = nullptr;
    int kind = 0;
    static const int KINDS = 12;
    static bool is_delete(int k) { return k == 3 || k == 4 || k == 7; }

    Rewrite(int k, const Str& audio) : kind(k)
    {
        file = path("f");
        static const Str small = tag_bytes(3, {{"TIT2", Str("\0old", 4)}}, 20);
        static const Str large = tag_bytes(4, {{"TALB", Str("\0old", 4)}, {"PRIV", Str(5000, 'p')}}, 4000);
        static const Str footer = tag_bytes(4, {{"TIT2", Str("\0x", 2)}}, 0, 0x10);
        Tag title;
        title.set(text_frame("TALB", utf16("album")));
        // the same size everywhere, other bytes everywhere: a mixture of old and new shows
        const Str long_old = Str(k == 9 ? 5 : 6000, 'o'), long_new = Str(6000, 'n');
        title.set(text_frame("TIT2", latin(long_old)));
        title.padding = 2048 + k;
        title.written();
        switch (k)
        {
            case 0: before = audio; break;             // a file without tag
            case 1: before = small + audio; break;     // the tag grows
            case 2: before = large + audio; break;     // the tag shrinks
            case 3: before = small + audio; break;     // deletion
            case 4: before = large + audio; break;
            case 5: before = footer + audio; break;    // a tag with a picture that takes several buffers
            case 6: before = small + audio; break;     // old API
            case 7: before = footer + audio; break;
            default: before = wire_of(title) + audio; break; // a tag of this library: the same size, nothing to change, smaller
        }
        if (k < 3 || k == 5)
        {
            t = start(k == 5 ? bases()[6] : bases()[0], M);
            set_named(t, M, 2, latin("title"));
            if (k == 5) set_cover(t, M, latin("image/png"), pattern(2, 9000));
        }
        if (k == 6)
        {
            c = new_tag();
            compat::set(c, 0, latin("title"));
            M.set(text_frame("TIT2", latin("title")));
        }
        if (k >= 8)
        {
            M = title;
            if (k == 10)
            {
                c = load_tag_with_buffer(before.data(), before.size() - audio.size());
                compat::set(c, 0, latin(long_new));
                M.set(text_frame("TIT2", latin(long_new)));
            }
            else
                t = parse(before);
            if (k == 8) set_named(t, M, 2, latin(long_new));
            if (k == 11) del_named(t, M, 2);
        }
        if (!is_delete(k))
        {
            M.written();
            after = wire_of(M);
        }
        after += audio_of(before);
        put_file(file, before);
        mc::op("file: %zu bytes before (%zu of audio), %zu after", before.size(), audio_of(before).size(), after.size());
    }
    void call()
    {
        const char* f = file.c_str();
        switch (kind)
        {
            case 3:
            case 4: ID3v2_delete_tag(f); break;
            case 6:
            case 10: set_tag(f, c); break;
            case 7: remove_tag(f); break;
            default: ID3v2_write_tag(f, t);
        }
    }
    void release()
    {
        if (t) ID3v2_Tag_free(t);
        if (c) free_tag(c);
    }
    const char* name() const
    {
        static const char* const N[KINDS] = {"write_tag", "write_tag", "write_tag", "delete_tag", "delete_tag", "write_tag", "set_tag", "remove_tag",
                                              "write_tag", "write_tag", "set_tag", "write_tag"};
        return N[kind];
    }
};

} // namespace m
