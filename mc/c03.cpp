// C03: frame edits follow ordered, first match list semantics.
#include "scenario.hpp"
using namespace m;

static void compare(ID3v2_Tag* t, const Tag& M, const char* when)
{
    same(t, M, FRAMES, when);
    check_getters(t, M);
    same(t, M, FRAMES, "after the getters");
}

SPACE(C03, sequences, "every sequence of edits of the alphabet up to the depth, from every starting tag; the tag and all the getters are compared with the ordered list model after every call")
{
    const Base& b = mc::pick(bases());
    Tag M;
    ID3v2_Tag* t = start(b, M);
    compare(t, M, "at the start");
    int n = mc::tier(3, 4);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, mc::choose(edit_count()));
        compare(t, M, "after the edit");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, deep, "longer sequences over a small alphabet that collides on the same three ids")
{
    static const int ops[] = {0, 1, 4, 5, 6, 7, 8};
    Tag M;
    ID3v2_Tag* t = start(bases()[0], M);
    int n = mc::tier(6, 8);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, ops[mc::choose(7)]);
        same(t, M, FRAMES, "after the edit");
    }
    check_getters(t, M);
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

// Every named call against every other one.
static void named(ID3v2_Tag* t, Tag& M, int i)
{
    if (i < 9) set_named(t, M, i, latin(Str("value ") + (char) ('0' + i)));
    else if (i < 18) del_named(t, M, i - 9);
    else if (i == 18) set_comment(t, M, "eng", latin("c"));
    else if (i == 19) del_comment(t, M);
    else if (i == 20) set_cover(t, M, latin("m"), "p");
    else if (i == 21) del_cover(t, M);
    else if (i < 31) del_frame(t, M, NAMED_ID[i - 22]);
    else set_text(t, M, NAMED_ID[i - 31], utf16("u"));
}

SPACE(C03, named, "every pair (thorough: triple) of named setters and deleters, on an empty tag, on a tag with one frame of each kind and on one with two")
{
    Tag M;
    ID3v2_Tag* t = start(bases()[0], M);
    int copies = mc::choose(3);
    if (copies)
    {
        std::vector<std::pair<Wire, Frame>> f;
        for (int k = 0; k < copies; k++)
        {
            for (int i = 0; i < 9; i++) f.push_back(stored(text_frame(NAMED_ID[(i + 4 * k) % 9], latin(Str(1, 'A' + k)))));
            f.push_back(stored(comment_frame("eng", latin(""), latin(Str(1, 'A' + k)))));
            f.push_back(stored(apic_frame(latin("m"), k, latin(""), Str(1, 'A' + k))));
        }
        ID3v2_Tag_free(t);
        t = start(make_base("all the named frames", 3, f, 20), M);
    }
    int n = mc::tier(2, 3);
    for (int i = 0; i < n; i++)
    {
        named(t, M, mc::choose(40));
        compare(t, M, "after the call");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, ids, "get, set and delete with ids that share a prefix, a suffix or the initial of the special ones")
{
    static const char* const ids[] = {"TIT1", "TIT2", "TIT3", "TPE1", "TPE2", "TXXX", "TYER", "TYXR", "COMM", "COMR", "CRM ", "APIC", "APIX", "AENC", "PIC1", "PRIV", "PRIW", "ULT1", "ULT2", "tit2"};
    std::vector<std::pair<Wire, Frame>> f;
    // all of them but one, that may be the first or the last
    int missing = mc::choose(21);
    bool reversed = mc::choose(2);
    for (int k = 0; k < 20; k++)
    {
        int i = reversed ? 19 - k : k;
        if (i == missing) continue;
        Str id = ids[i], v(1, (char) ('a' + i));
        char kind = kind_of(id);
        f.push_back(stored(kind == 'T' ? text_frame(id, latin(v)) : kind == 'C' ? comment_frame("eng", latin(""), latin(v)) : kind == 'A' ? apic_frame(latin("m"), 1, latin(""), v) : raw_frame(id, v)));
    }
    Tag M;
    ID3v2_Tag* t = start(make_base("ids", 4, f, 5), M);
    compare(t, M, "at the start");
    for (int s = 0; s < 2; s++)
    {
        int i = mc::choose(20);
        Str id = ids[i];
        if (id[0] == 'T' && mc::choose(2))
            set_text(t, M, id, latin("new"));
        else
            del_frame(t, M, id);
        compare(t, M, "after the call");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, many, "tags with up to 300 (thorough: 2000) frames: deletions and replacements at every position that can be addressed")
{
    std::vector<int> sizes;
    for (int i = 1; i <= 40; i++) sizes.push_back(i);
    for (int i : {63, 64, 65, 127, 128, 129, 255, 256, 257, 300}) sizes.push_back(i);
    if (mc::thorough()) for (int i : {511, 512, 513, 1000, 1023, 1024, 1025, 2000}) sizes.push_back(i);
    int n = sizes[mc::choose(sizes.size())];
    int kind = mc::choose(3);
    Tag M;
    ID3v2_Tag* t = start(bases()[0], M);
    for (int i = 0; i < n; i++)
    {
        char v[16];
        snprintf(v, sizeof v, "%d", i);
        if (kind == 0) set_comment_frame(t, M, true, "eng", latin(""), latin(v));
        else if (kind == 1) set_apic_frame(t, M, true, latin("m"), i & 255, latin(v), v);
        else
        {
            snprintf(v, sizeof v, "T%03d", i % 1000);
            set_text(t, M, v, latin("x"));
        }
    }
    same(t, M, FRAMES, "after adding");
    // position: ends, middle and everything for small ones
    int at = n <= 40 ? mc::choose(n + 1) : std::vector<int>{0, 1, n / 2, n - 2, n - 1, n, 127, 128, 255, 256}[mc::choose(10)];
    char id[16];
    snprintf(id, sizeof id, "T%03d", at % 1000);
    switch (mc::choose(2))
    {
        case 0:
            if (kind == 0) del_comment_at(t, M, at);
            else if (kind == 1) del_apic_at(t, M, at);
            else del_frame(t, M, id);
            break;
        case 1:
            if (kind == 0) set_comment(t, M, "eng", latin("set"));
            else if (kind == 1) set_cover(t, M, latin("m"), "set");
            else set_text(t, M, id, latin("set"));
    }
    compare(t, M, "after the edit");
    set_named(t, M, 2, latin("last"));
    compare(t, M, "after appending");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, values, "every length and shape of the values given to the setters, replacing values of other lengths")
{
    static const std::vector<size_t> L = lengths(300, false);
    size_t n = mc::pick(L);
    int enc = mc::choose(3);
    size_t old = std::vector<size_t>{0, 1, 5, 300}[mc::choose(4)];
    Tag M;
    ID3v2_Tag* t = start(bases()[0], M);
    set_named(t, M, 3, latin("before"));
    Str s = string_of(enc, n), o = string_of(mc::choose(2), old);
    switch (mc::choose(3))
    {
        case 0:
            set_named(t, M, 2, o);
            set_named(t, M, 4, latin("after"));
            set_named(t, M, 2, s);
            break;
        case 1:
            set_comment_frame(t, M, true, "abc", o, o);
            set_named(t, M, 4, latin("after"));
            set_comment_frame(t, M, false, "\xff!\x01", s, s);
            break;
        case 2:
            set_apic_frame(t, M, true, latin("m"), 1, o, pattern(1, old));
            set_named(t, M, 4, latin("after"));
            set_apic_frame(t, M, false, latin(Str(n, 'm')), n & 255, s, pattern(0, n));
            break;
    }
    compare(t, M, "after the edits");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, aliasing, "values taken from the tag itself (its own strings, pictures, ids and flags) used as inputs of edits")
{
    Tag M;
    ID3v2_Tag* t = start(mc::pick(bases()), M);
    for (int i = 0; i < 2; i++) own_values(t, M);
    compare(t, M, "after the call");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    Tag M;
    ID3v2_Tag* t = any_replacement(M);
    compare(t, M, "after the replacement");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, long, "every pair of ten edits, over and over, up to 600 (thorough: 3000) times; and those that do not add frames 140000 times")
{
    Tag M;
    int e[2];
    ID3v2_Tag* t = any_pair(M, e[0], e[1]);
    size_t f0 = M.f.size();
    for (int i = 0; i < 40; i++) edit(t, M, e[i & 1]);
    mc::decided();
    int n = M.f.size() <= f0 + 3 ? 140000 : mc::tier(600, 3000);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, e[i & 1]);
        if (due(i, n)) compare(t, M, "after the edit");
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, crowded, "tags with 32769 and 65537 (thorough: 70000) frames of every kind: the last ones and those around the limits of the types are found, replaced and deleted")
{
    static const int N[] = {32769, 65537, 70000};
    int n = N[mc::choose(mc::tier(2, 3))], kind = mc::choose(3), major = mc::thorough() ? mc::choose(2) : kind & 1;
    mc::decided();
    mc::patience(mc::tier(200, 2000));
    // (the lists of the library take a time that is quadratic)
    std::vector<int> at = {n - 1};
    if (mc::thorough()) at = {n, n - 1, 65536, 65535, 32768, 32767, 32766, 255, 0};
    std::vector<std::pair<Wire, Frame>> f;
    for (int i = 0; i < n; i++)
    {
        char v[16];
        snprintf(v, sizeof v, "%d", i);
        if (kind == 0) f.push_back(stored(comment_frame("eng", latin(""), latin(v))));
        else if (kind == 1) f.push_back(stored(apic_frame(latin("m"), i & 255, latin(v), "p")));
        else
        {
            char id[8];
            snprintf(id, sizeof id, "T%c%02d", 'A' + i / 100 % 26, i % 100);
            f.push_back(stored(text_frame(id, latin(v))));
        }
    }
    f.push_back(stored(text_frame("TIT2", latin("last"))));
    Tag M;
    ID3v2_Tag* t = start(make_base("many", 3 + major, f, 5), M);
    same(t, M, FRAMES | SIZES | TAGSIZE, "after reading it");
    set_named(t, M, 2, latin("replaced"));
    set_comment_frame(t, M, true, "spa", latin("d"), latin("added"));
    if (kind == 0)
        for (int i : at) del_comment_at(t, M, i);
    else if (kind == 1)
        for (int i : at) del_apic_at(t, M, i);
    else
    {
        del_frame(t, M, "TZ99");
        set_text(t, M, "TB07", utf16("one of them"));
    }
    same(t, M, FRAMES | SIZES | TAGSIZE, "after the edits");
    Str file = path("f");
    put_file(file, "audio");
    ID3v2_write_tag(file.c_str(), t);
    M.written();
    Str b = read_file(file), w = wire_of(M) + "audio";
    CHECK(b == w, "the written file has %zu bytes, expected %zu", b.size(), w.size());
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    Tag M;
    ID3v2_Tag* t = any_twins(M);
    compare(t, M, "after the edits");
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C03, parts, "every beginning of an id, every id with one byte changed to each value, asked for and deleted in tags with frames of those ids: only the whole id finds a frame, wherever the string ends after it")
{
    static const char* const ids[] = {"TIT2", "COMM", "APIC", "PRIV"};
    std::vector<std::pair<Wire, Frame>> f;
    int order = mc::choose(4);
    for (int i = 0; i < 8; i++)
    {
        Str id = ids[(i + order) % 4], v(1, (char) ('a' + i));
        char kind = kind_of(id);
        f.push_back(stored(kind == 'T' ? text_frame(id, latin(v)) : kind == 'C' ? comment_frame("eng", latin(""), latin(v)) : kind == 'A' ? apic_frame(latin("m"), 1, latin(""), v) : raw_frame(id, v)));
    }
    Tag M;
    ID3v2_Tag* t = start(make_base("parts", 3 + order % 2, f, 5), M);
    Str s = mc::pick(ids);
    int n = mc::choose(6);
    if (n < 4) s = s.substr(0, n) + '\0';
    else if (n == 4)
    {
        int i = mc::choose(4);
        s[i] = (char) mc::choose(256);
        s += '\0';
    }
    // the last one has no terminator
    Str id = s.substr(0, 4);
    mc::op("id %s", show(s).c_str());
    {
        In x(s);
        ID3v2_Frame* want = nullptr;
        int many = 0;
        for (ID3v2_FrameList* l = t->frames; l && l->frame; l = l->next)
            if (id.size() == 4 && Str(l->frame->header->id, 4) == id && ++many == 1) want = l->frame;
        CHECK(ID3v2_Tag_get_frame(t, x) == want, "another frame was found");
        ID3v2_FrameList* l = ID3v2_Tag_get_frames(t, x);
        int got = 0;
        for (ID3v2_FrameList* y = l; y && y->frame; y = y->next) got++;
        CHECK(got == many, "%d frames were found, expected %d", got, many);
        ID3v2_FrameList_unlink(l);
        ID3v2_Tag_delete_frame(t, x);
    }
    if (id.size() == 4) M.del(id);
    same(t, M, FRAMES, "after the deletion");
    check_getters(t, M);
    mc::step(3);
    mc::state(mc::hash(s, order));
    ID3v2_Tag_free(t);
}
