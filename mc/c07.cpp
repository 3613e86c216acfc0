// C07: written files carry one well formed ID3v2 tag.
#include "names.hpp"
#include "scenario.hpp"
using namespace m;

// Judges the bytes of the file with an independent reader.
static void well_formed(const Str& file, const Tag& M, const Str& audio)
{
    mc::step();
    Str b = read_file(file);
    Decoded d;
    Str e = decode(b, d);
    CHECK(e.empty(), "the written tag is not well formed: %s [%s]", e.c_str(), show(b, 100).c_str());
    CHECK(d.major == M.major && d.minor == M.minor, "the version written is %d.%d, the one of the tag is %d.%d", d.major, d.minor, M.major, M.minor);
    Str x = diff(d.f, M.f);
    CHECK(x.empty(), "an independent reader gets other values: %s", x.c_str());
    CHECK(b.substr(10 + d.size) == audio, "the size of the header does not lead to the audio data: there are %zu bytes after the tag, expected %zu", b.size() - 10 - d.size, audio.size());
    mc::state(mc::hash(b));
}

static void write(const Str& file, ID3v2_Tag* t, const Tag& M, const Str& audio)
{
    mc::op("write");
    ID3v2_write_tag(file.c_str(), t);
    well_formed(file, M, audio);
}

static void one(ID3v2_Tag* t, Tag& M)
{
    if (!t) return;
    Str file = path("f"), audio = pattern(3, 33);
    put_file(file, audio);
    write(file, t, M, audio);
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C07, edits, "every starting tag and every sequence of edits up to the depth, written over the file it came from, then edited and written again, then read and written once more")
{
    Tag M;
    Str bytes, file = path("f"), audio = pattern(3, 21);
    ID3v2_Tag* t = any_edits(M, mc::tier(2, 3), &bytes);
    put_file(file, bytes + audio);
    write(file, t, M, audio);
    edit(t, M, mc::choose(12));
    write(file, t, M, audio);
    ID3v2_Tag_free(t);
    t = ID3v2_read_tag(file.c_str());
    CHECK(t, "no tag is found in the written file");
    edit(t, M, 0);
    write(file, t, M, audio);
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C07, lengths, "every length of every field (see scenario.hpp: any_length), around every size where the encoding of sizes changes, in both versions")
{
    Tag M;
    one(any_length(M), M);
}

SPACE(C07, bytes, "every byte value in every field")
{
    Tag M;
    one(any_byte(M), M);
}

SPACE(C07, shapes, "every short string over the bytes that look like terminators and marks")
{
    Tag M;
    one(any_shape(M), M);
}

SPACE(C07, pictures, "every short picture over the bytes that look like terminators, marks and ids")
{
    Tag M;
    one(any_picture(M), M);
}

SPACE(C07, many, "every number of frames")
{
    Tag M;
    one(any_number(M), M);
}

SPACE(C07, flags, "tags that were read with every combination of header flags that announce something, with the extended header and the footer that belongs to them, and every minor version")
{
    int major = 3 + mc::choose(2), ext = mc::choose(3);
    bool footer = major == 4 && mc::choose(2);
    int flags = (footer ? 0x10 : 0) | (mc::choose(2) ? 0x20 : 0);
    int minor = mc::choose(256);
    Base b = make_base("flags", major, {stored(text_frame("TIT2", latin("t"))), stored(raw_frame("PRIV", "xx"))}, footer ? 0 : 20, flags, ext);
    b.bytes[4] = (char) minor;
    b.model.minor = minor;
    Tag M;
    Str file = path("f"), audio = pattern(5, 40);
    ID3v2_Tag* t = start(b, M);
    put_file(file, b.bytes + audio);
    edit(t, M, mc::choose(3));
    write(file, t, M, audio);
    write(file, t, M, audio);
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C07, padding, "every amount of padding up to 60 and around the default and the syncsafe limits: the size covers it and it is made of zeros")
{
    std::vector<int> P;
    for (int i = 0; i <= 60; i++) P.push_back(i);
    for (int i = 2000; i <= 2100; i++) P.push_back(i);
    for (int c : {16384, 1 << 21})
        for (int i = c - 60; i <= c + 2; i += mc::tier(3, 1)) P.push_back(i);
    int p = mc::pick(P), v = mc::choose(3);
    Tag M;
    ID3v2_Tag* t;
    if (v == 2)
    {
        t = ID3v2_Tag_new(NULL, p);
        M.padding = p;
    }
    else
        t = start(make_base("padded", 3 + v, {stored(text_frame("TALB", latin("album")))}, p), M);
    edit(t, M, mc::choose(5));
    one(t, M);
}

SPACE(C07, big, "pictures, comments and texts of 4 MB to 128 MB (thorough: to the limit of the format), that need every byte of the sizes")
{
    Tag M;
    one(any_big(M), M);
}

SPACE(C07, named, "every pair of named setters with strings of every kind, the second one also deleted or the first one replaced, beside others, in both versions")
{
    Tag M;
    one(any_named(M), M);
}

SPACE(C07, ids, "frames of every id of the standards, read twice in a tag, then left alone, replaced, deleted or set beside")
{
    Tag M;
    one(any_id(M), M);
}

SPACE(C07, values, "values that mean something to other programs, in every field, with every kind of string: numbers of tracks, years, genres, MIME types, languages, descriptions, pictures of every format")
{
    Tag M;
    one(any_value(M), M);
}

SPACE(C07, replacements, "frames of each kind, set or read, replaced by one that differs in every subset of its fields (the same one included), with values of the same length or not")
{
    Tag M;
    one(any_replacement(M), M);
}

SPACE(C07, long, "every pair of ten edits, over and over: 260 (thorough: 1100) rounds of edit and write on the same file")
{
    Tag M;
    int e[2], n = mc::tier(260, 1100);
    ID3v2_Tag* t = any_pair(M, e[0], e[1]);
    Str file = path("f"), audio = pattern(3, 21);
    put_file(file, audio);
    for (int i = 0; i < n; i++)
    {
        edit(t, M, e[i & 1]);
        if (due(i, n)) write(file, t, M, audio);
        else ID3v2_write_tag(file.c_str(), t);
        M.written();
    }
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}

SPACE(C07, runs, "strings and pictures that begin with, end with or are made of a run of any of the characters that someone could want to trim or to shorten, of every length up to 140 (thorough: 300)")
{
    Tag M;
    if (ID3v2_Tag* t = any_run(M)) one(t, M);
}

SPACE(C07, twins, "frames that hold the same value, short or long, in every pair of fields, set or read, and what may be done to one of them")
{
    Tag M;
    one(any_twins(M), M);
}

SPACE(C07, headers, "new tags made with a header that was read, of every supported version, with any flags, sizes and padding, and edits on them")
{
    Tag M;
    one(any_header(M), M);
}

SPACE(C07, constants, "every constant of the public headers that names a kind of picture, an id, an encoding or a MIME type, used as the argument it is for: the file has the value of the standard")
{
    static const int types[] = {ID3v2_PIC_TYPE_OTHER, ID3v2_PIC_TYPE_FILE_ICON, ID3v2_PIC_TYPE_OTHER_FILE_ICON, ID3v2_PIC_TYPE_FRONT_COVER, ID3v2_PIC_TYPE_BACK_COVER, ID3v2_PIC_TYPE_LEAFLET_PAGE,
                                ID3v2_PIC_TYPE_MEDIA, ID3v2_PIC_TYPE_LEAD_ARTIST, ID3v2_PIC_TYPE_ARTIST, ID3v2_PIC_TYPE_CONDUCTOR, ID3v2_PIC_TYPE_BAND, ID3v2_PIC_TYPE_COMPOSER, ID3v2_PIC_TYPE_LYRICIST,
                                ID3v2_PIC_TYPE_RECORDING_LOCATION, ID3v2_PIC_TYPE_DURING_RECORDING, ID3v2_PIC_TYPE_DURING_PERFORMANCE, ID3v2_PIC_TYPE_VIDEO_SCREEN_CAPTURE,
                                ID3v2_PIC_TYPE_A_BRIGHT_COLOURED_FISH, ID3v2_PIC_TYPE_ILLUSTRATION, ID3v2_PIC_TYPE_ARTIST_LOGOTYPE, ID3v2_PIC_TYPE_PUBLISHER_LOGOTYPE};
    static const char* const ids[] = {ID3v2_TITLE_FRAME_ID, ID3v2_ARTIST_FRAME_ID, ID3v2_ALBUM_FRAME_ID, ID3v2_ALBUM_ARTIST_FRAME_ID, ID3v2_GENRE_FRAME_ID, ID3v2_TRACK_FRAME_ID, ID3v2_YEAR_FRAME_ID,
                                      ID3v2_DISC_NUMBER_FRAME_ID, ID3v2_COMPOSER_FRAME_ID};
    static const char* const std_ids[] = {"TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "TPOS", "TCOM"};
    static const char* const mimes[] = {ID3v2_MIME_TYPE_JPG, ID3v2_MIME_TYPE_PNG};
    static const char* const std_mimes[] = {"image/jpeg", "image/png"};
    int type = mc::choose(sizeof types / sizeof *types), id = mc::choose(9), mime = mc::choose(2), enc = mc::choose(3);
    Tag M;
    ID3v2_Tag* t = start(version(mc::choose(2)), M);
    Str s = enc ? utf16("x", enc == 2) : latin("x");
    mc::op("constants: picture type %d, id %d, MIME type %d", type, id, mime);
    ID3v2_TextFrameInput a = {(char*) ids[id], (char*) "\0\0", s.data()};
    ID3v2_Tag_set_text_frame(t, &a);
    M.set(text_frame(std_ids[id], s));
    ID3v2_ApicFrameInput b = {(char*) "\0\0", mimes[mime], EMPTY_UNICODE_STR, (char) types[type], 3, "pic"};
    ID3v2_Tag_add_apic_frame(t, &b);
    M.add(apic_frame(latin(std_mimes[mime]), type, Str("\xFF\xFE\0\0", 4), "pic"));
    CHECK(!strcmp(ID3v2_COMMENT_FRAME_ID, "COMM") && !strcmp(ID3v2_ALBUM_COVER_FRAME_ID, "APIC"), "the ids of comments and pictures");
    if (ID3v2_Tag_get_frame(t, ID3v2_ALBUM_COVER_FRAME_ID) == nullptr) mc::violation("the picture is not found");
    one(t, M);
}

SPACE(C07, names, "files with names of every length, with every kind of character and of every type, relative, absolute, not normalized, deep, through links")
{
    Place p;
    Tag M;
    const int base[] = {0, 6, 9};
    ID3v2_Tag* t = start(bases()[base[mc::choose(3)]], M);
    Str audio = pattern(3, 33);
    put_file(p.file, (mc::choose(2) ? bases()[2].bytes : Str()) + audio);
    write(p.name, t, M, audio);
    edit(t, M, 2);
    write(p.name, t, M, audio);
    mc::outcome(M.hash());
    ID3v2_Tag_free(t);
}
