// C01: writing a tag and reading it back returns the same frames.
#include "names.hpp"
#include "scenario.hpp"
using namespace m;

// Writes the tag, reads the file back, compares and goes on with the tag that was read.
static ID3v2_Tag* round_trip(const Str& file, ID3v2_Tag* t, Tag& M, const char* when)
{
    ID3v2_Tag* r = write_and_read(file, t);
    if (!r) mc::violation("%s: no tag is found in the written file", when);
    // the tag in memory still has the same frames
    same(t, M, FRAMES, "tag in memory after the write");
    same(r, M, FRAMES, when);
    ID3v2_Tag_free(t);
    M.written();
    return r;
}

static void one(ID3v2_Tag* t, Tag& M, const Str& audio = "audio")
{
    Str file = path("f");
    put_file(file, audio);
    t = round_trip(file, t, M, "tag read back");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C01, edits, "every starting tag, every sequence of edits of the alphabet up to the depth, a write and a read after all of them, then another edit, write and read")
{
    const Base& b = mc::pick(bases());
    Tag M;
    Str file = path("f");
    ID3v2_Tag* t = start(b, M);
    // The file has the tag that was read, or none
    put_file(file, b.bytes + "\xff\xfb\x90");
    int n = mc::tier(2, 3);
    for (int i = 0; i < n; i++) edit(t, M, mc::choose(edit_count()));
    t = round_trip(file, t, M, "tag read back");
    edit(t, M, mc::choose(edit_count()));
    t = round_trip(file, t, M, "tag read back after a second write");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C01, rounds, "up to five (thorough: six) rounds of edit, write and read on the same file")
{
    static const int ops[] = {0, 1, 4, 5, 7, 8, 22};
    Tag M;
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_Tag* t = start(bases()[mc::choose(2) ? 6 : 0], M);
    int n = mc::tier(5, 6);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, ops[mc::choose(7)]);
        t = round_trip(file, t, M, "tag read back");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C01, lengths, "every length of text, comment, description, MIME type and picture up to 300 and around every size where the encoding of sizes changes, in both versions and all the encodings, followed by another frame")
{
    Tag M;
    ID3v2_Tag* t = any_length(M);
    if (t) one(t, M);
}

SPACE(C01, bytes, "every byte value in every field: texts, comments, descriptions, MIME types, languages, flags, picture types and pictures")
{
    Tag M;
    ID3v2_Tag* t = any_byte(M);
    if (t) one(t, M);
}

SPACE(C01, shapes, "every string of up to five (thorough: six) units over the bytes that could be mistaken for terminators, marks and encodings, in texts, comments and descriptions")
{
    Tag M;
    ID3v2_Tag* t = any_shape(M);
    if (t) one(t, M);
}

SPACE(C01, pictures, "every picture of up to four (thorough: five) bytes over 00 01 FF FE and the letters of ids, with every kind of description")
{
    Tag M;
    ID3v2_Tag* t = any_picture(M);
    if (t) one(t, M);
}

SPACE(C01, many, "tags with every number of frames up to 130 and around 255, 1000 and 4096, of every kind")
{
    Tag M;
    ID3v2_Tag* t = any_number(M);
    if (t) one(t, M);
}

SPACE(C01, padding, "tags that were read with every amount of padding up to 60 and around 2048, or created with it, edited and written")
{
    std::vector<int> P;
    for (int i = 0; i <= 60; i++) P.push_back(i);
    for (int i = 2030; i <= 2070; i++) P.push_back(i);
    for (int i : {4096, 16383, 16384, 70000}) P.push_back(i);
    int p = mc::pick(P), v = mc::choose(3);
    Tag M;
    ID3v2_Tag* t;
    Str file = path("f");
    put_file(file, "");
    if (v == 2)
    {
        t = ID3v2_Tag_new(NULL, p);
        M.padding = p;
    }
    else
    {
        Base b = make_base("padded", 3 + v, {stored(text_frame("TALB", latin("album"))), stored(raw_frame("PRIV", "x"))}, p);
        t = start(b, M);
        put_file(file, b.bytes + "audio");
    }
    edit(t, M, mc::choose(8));
    t = round_trip(file, t, M, "tag read back");
    edit(t, M, mc::choose(8));
    t = round_trip(file, t, M, "tag read back again");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C01, existing, "the file written to already holds something else: another tag (smaller, larger, other version, with footer), audio, or nothing")
{
    static const std::vector<Str> before = [] {
        std::vector<Str> v = {"", "a", "ID3", Str("ID3\x03\0\0\0\0\0", 9), Str("ID3\x02\0\0\0\0\0\x05xxxxxaudio", 20), pattern(3, 5000)};
        for (auto& b : bases())
            if (!b.bytes.empty()) v.push_back(b.bytes + pattern(0, 37));
        v.push_back(tag_bytes(3, {}, 0) + "audio");
        v.push_back(tag_bytes(4, {}, 20000) + "audio");
        v.push_back(tag_bytes(4, {{"TIT2", Str("\0x", 2)}}, 0, 0x10) + pattern(5, 30));
        v.push_back(header_bytes(3, 0, 0, 5000) + Str(100, '\0')); // cut in the middle of the padding
        return v;
    }();
    Str file = path("f");
    put_file(file, mc::pick(before));
    Tag M;
    ID3v2_Tag* t = start(mc::pick(bases()), M);
    edit(t, M, mc::choose(12));
    t = round_trip(file, t, M, "tag read back");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C01, named, "every pair of named setters with strings of every kind, the second one also deleted or the first one replaced, beside others, in both versions")
{
    Tag M;
    one(any_named(M), M);
}

SPACE(C01, ids, "frames of every id of the standards, read twice in a tag, then left alone, replaced, deleted or set beside")
{
    Tag M;
    one(any_id(M), M);
}

SPACE(C01, values, "values that mean something to other programs, in every field, with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format")
{
    Tag M;
    one(any_value(M), M);
}

SPACE(C01, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    Tag M;
    one(any_replacement(M), M);
}

SPACE(C01, long, "every pair of ten edits, over and over: 260 (thorough: 1100) rounds of edit, write and read on the same file")
{
    Tag M;
    int e[2], n = mc::tier(260, 1100);
    ID3v2_Tag* t = any_pair(M, e[0], e[1]);
    Str file = path("f");
    put_file(file, "audio");
    for (int i = 0; i < n; i++)
    {
        edit(t, M, e[i & 1]);
        if (due(i, n))
        {
            t = round_trip(file, t, M, "tag read back");
            continue;
        }
        ID3v2_Tag* r = write_and_read(file, t);
        CHECK(r, "no tag is found in the file written in round %d", i + 1);
        ID3v2_Tag_free(t);
        t = r;
        M.written();
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C01, big, "pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format), followed by another frame")
{
    Tag M;
    one(any_big(M), M);
}

SPACE(C01, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Tag M;
    if (ID3v2_Tag* t = any_run(M)) one(t, M);
}

SPACE(C01, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    Tag M;
    one(any_twins(M), M);
}

SPACE(C01, headers, "new tags made with a header that was read, of every supported version, with any flags, sizes and padding, and edits on them")
{
    Tag M;
    one(any_header(M), M);
}

SPACE(C01, names, "files with names of every length, with every kind of character and of every type, relative, absolute, not normalized, deep, through links")
{
    Place p;
    Tag M;
    const int base[] = {0, 6, 9};
    ID3v2_Tag* t = start(bases()[base[mc::choose(3)]], M);
    put_file(p.file, mc::choose(2) ? bases()[2].bytes + "audio" : Str("audio"));
    edit(t, M, 2);
    t = round_trip(p.name, t, M, "tag read back");
    edit(t, M, 5);
    t = round_trip(p.name, t, M, "tag read back after a second write");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}
