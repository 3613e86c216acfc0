// C19: the reported size of a tag tracks its frames.
#include "scenario.hpp"
using namespace m;

SPACE(C19, edits, "every starting tag and every sequence of edits up to the depth: the sizes of the tag and of its frames after every call, after a write and after reading the file")
{
    const Base& b = mc::pick(bases());
    Tag M;
    ID3v2_Tag* t = start(b, M);
    same(t, M, SIZES | TAGSIZE, "at the start");
    int n = mc::tier(3, 4);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, mc::choose(edit_count()));
        same(t, M, SIZES | TAGSIZE, "after the edit");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

static ID3v2_Tag* written(const Str& file, ID3v2_Tag* t, Tag& M)
{
    mc::op("write and read");
    ID3v2_write_tag(file.c_str(), t);
    M.written();
    same(t, M, SIZES | TAGSIZE | PADDING, "after the write");
    ID3v2_Tag* r = ID3v2_read_tag(file.c_str());
    CHECK(r, "no tag is found in the written file");
    same(r, M, SIZES | TAGSIZE | PADDING, "after reading the written file");
    // whatever the model says, the sizes have to add up
    unsigned sum = r->padding_size;
    for (ID3v2_FrameList* l = r->frames; l && l->frame; l = l->next) sum += l->frame->header->size + 10;
    CHECK(sum == r->header->tag_size, "frames and padding add up to %u but the size of the tag is %u", sum, r->header->tag_size);
    return r;
}

SPACE(C19, histories, "edits, writes and reads in any order, four of them (thorough: five), going on with the tag in memory or with the one that was read")
{
    static const int ops[] = {0, 1, 22, 4, 5, 7, 8, 13};
    const Base& b = bases()[std::vector<int>{0, 1, 4, 6, 10}[mc::choose(5)]];
    Tag M;
    Str file = path("f");
    ID3v2_Tag* t = start(b, M);
    put_file(file, b.bytes + "audio");
    int n = mc::tier(4, 5);
    for (int i = 0; i < n; i++)
    {
        int k = mc::choose(10);
        if (k < 8)
        {
            edit(t, M, ops[k]);
            same(t, M, SIZES | TAGSIZE, "after the edit");
            continue;
        }
        ID3v2_Tag* r = written(file, t, M);
        if (k == 8)
        {
            ID3v2_Tag_free(t);
            t = r;
        }
        else
            ID3v2_Tag_free(r);
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

static void one(ID3v2_Tag* t, Tag& M)
{
    if (!t) return;
    same(t, M, SIZES | TAGSIZE, "after the edits");
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_Tag* r = written(file, t, M);
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
    ID3v2_Tag_free(r);
}

SPACE(C19, lengths, "every length of every field, in both versions")
{
    Tag M;
    one(any_length(M), M);
}

SPACE(C19, bytes, "every byte value in every field")
{
    Tag M;
    one(any_byte(M), M);
}

SPACE(C19, many, "every number of frames")
{
    Tag M;
    one(any_number(M), M);
}

SPACE(C19, replaced, "every pair of lengths up to 40 (thorough: 100) and of encodings of the old and the new value, for texts, comments, descriptions and pictures, then a deletion")
{
    int max = mc::tier(40, 100), a = mc::choose(max + 1), b = mc::choose(max + 1), ea = mc::choose(3), eb = mc::choose(2), kind = mc::choose(4);
    Tag M;
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    for (int i = 0; i < 2; i++)
    {
        Str s = string_of(i ? eb : ea, i ? b : a);
        if (kind == 0) set_named(t, M, 2, s);
        if (kind == 1) set_comment(t, M, "eng", s);
        if (kind == 2) set_comment_frame(t, M, i == 1 ? false : true, "eng", s, string_of(i ? eb : ea, 3));
        if (kind == 3) set_apic_frame(t, M, i == 1 ? false : true, latin(Str(b, 'm')), 3, s, pattern(0, a));
        same(t, M, SIZES | TAGSIZE, "after setting the value");
    }
    if (kind == 0) del_named(t, M, 2);
    if (kind == 1) del_comment(t, M);
    if (kind == 2) del_comment_at(t, M, 0);
    if (kind == 3) del_apic_at(t, M, 0);
    same(t, M, SIZES | TAGSIZE, "after deleting it");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C19, indexes, "deletions by index with every index around the number of frames, repeated until nothing is left")
{
    int n = mc::choose(7), kind = mc::choose(2);
    Tag M;
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    for (int i = 0; i < n; i++)
        if (kind) set_comment_frame(t, M, true, "eng", latin(Str(i, 'd')), latin("c"));
        else set_apic_frame(t, M, true, latin("m"), i, latin(Str(i, 'd')), pattern(0, i * 3));
    for (int i = 0; i < 3; i++)
    {
        int at = mc::choose(n + 3) - 1;
        if (kind) del_comment_at(t, M, at);
        else del_apic_at(t, M, at);
        same(t, M, SIZES | TAGSIZE, "after the deletion");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

static void all_sizes(ID3v2_Tag* t, Tag& M)
{
    same(t, M, SIZES | TAGSIZE, "after the edits");
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_Tag* r = written(file, t, M);
    mc::outcome(M.hash());
    ID3v2_Tag_free(r);
    ID3v2_Tag_free(t);
}

SPACE(C19, named, "every pair of named setters with strings of every kind, the second one also deleted or the first one replaced, beside others, in both versions")
{
    Tag M;
    all_sizes(any_named(M), M);
}

SPACE(C19, ids, "frames of every id of the standards, read twice in a tag, then left alone, replaced, deleted or set beside")
{
    Tag M;
    all_sizes(any_id(M), M);
}

SPACE(C19, values, "values that mean something to other programs, in every field, with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format")
{
    Tag M;
    all_sizes(any_value(M), M);
}

SPACE(C19, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    Tag M;
    all_sizes(any_replacement(M), M);
}

SPACE(C19, long, "every pair of ten edits, over and over, up to 600 (thorough: 3000) times; and those that do not add frames 140000 times; then a write and a read")
{
    Tag M;
    int e[2];
    ID3v2_Tag* t = any_pair(M, e[0], e[1]);
    size_t f0 = M.f.size();
    for (int i = 0; i < 40; i++) edit(t, M, e[i & 1]);
    mc::decided();
    int n = M.f.size() <= f0 + 3 ? 140000 : mc::tier(600, 3000);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, e[i & 1]);
        if (due(i, n)) same(t, M, SIZES | TAGSIZE, "after the edit");
    }
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_Tag* r = written(file, t, M);
    mc::outcome(M.hash());
    ID3v2_Tag_free(r);
    ID3v2_Tag_free(t);
}

SPACE(C19, big, "pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format)")
{
    Tag M;
    one(any_big(M), M);
}

SPACE(C19, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Tag M;
    if (ID3v2_Tag* t = any_run(M)) one(t, M);
}

SPACE(C19, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    Tag M;
    all_sizes(any_twins(M), M);
}

SPACE(C19, headers, "new tags made with a header that was read, of every supported version, with any flags, sizes and padding, and edits on them")
{
    Tag M;
    all_sizes(any_header(M), M);
}
