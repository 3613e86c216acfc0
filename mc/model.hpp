// Reference model of id3v2lib: what a tag is, what every call does to it, how it looks on disk.
// It is written from the ID3v2.3/2.4 specifications and the public headers, and shares no code with the library.
#pragma once
#include "engine.hpp"
#include <string>
#include <vector>

#include "guard.hpp"

namespace m {

typedef std::string Str;

// --- strings ---------------------------------------------------------------------------------
bool has_bom(const Str& s);
Str latin(const Str& s);                       // ISO string with its terminator
Str utf16(const Str& ascii, bool be = false);  // BOM, code units and terminator
Str show(const Str& s, size_t max = 40);

// --- frames ----------------------------------------------------------------------------------
struct Frame
{
    Str id, flags = Str(2, '\0');
    char kind = 'R';  // Text, Comment, Apic or Raw
    int enc = 0;
    Str text;         // text, comment, picture or raw data; strings include their terminator
    Str lang, desc, mime; // desc and mime include their terminator
    int ptype = 0;
    Str body() const;
    bool operator==(const Frame& o) const;
    bool operator!=(const Frame& o) const { return !(*this == o); }
    Str show() const;
};

char kind_of(const Str& id);
// Frames as the setters build them (strings given with their terminators)
Frame text_frame(const Str& id, const Str& text, const Str& flags = Str(2, '\0'));
Frame comment_frame(const Str& lang, const Str& desc, const Str& comment, const Str& flags = Str(2, '\0'));
Frame apic_frame(const Str& mime, int type, const Str& desc, const Str& pic, const Str& flags = Str(2, '\0'));
Frame raw_frame(const Str& id, const Str& data, const Str& flags = Str(2, '\0'));

struct Tag
{
    int major = 3, minor = 0, flags = 0;
    unsigned tag_size = 0, ext = 0;
    int padding = 0;
    std::vector<Frame> f;

    int find(const Str& id, int nth = 0) const;
    void set(const Frame& x);
    void add(const Frame& x);
    void del(const Str& id, int nth = 0);
    unsigned frames_size() const;
    void written(); // what writing it does to the tag in memory
    uint64_t hash() const;
    Str show() const;
};

// --- bytes -----------------------------------------------------------------------------------
Str be32(unsigned v);
Str sync32(unsigned v);
struct Wire
{
    Str id, body, flags = Str(2, '\0');
};
Str frame_bytes(int major, const Str& id, const Str& body, const Str& flags = Str(2, '\0'));
Str header_bytes(int major, int minor, int flags, unsigned size);
// A whole tag: header, extended header as given, frames, padding, and a footer if flags say so in v2.4
Str tag_bytes(int major, const std::vector<Wire>& f, int padding, int flags = 0, const Str& ext = "", int minor = 0);
Str ext_header(int major, int variant); // well formed extended headers
Str wire_of(const Tag& t);              // the bytes the library must write for a tag

// The size of the supported tag a file starts with (0: none)
bool supported(const Str& file);
bool syncsafe(const Str& file);          // the size announced is a syncsafe integer (or there is no tag)
size_t tag_span(const Str& file);
Str audio_of(const Str& file);

// Independent strict reader. Returns an error message, or "" and the frames.
struct Decoded
{
    int major = 0, minor = 0, flags = 0;
    unsigned size = 0, padding = 0;
    std::vector<Frame> f;
};
Str decode(const Str& file, Decoded& d);

// --- the real tag ----------------------------------------------------------------------------
struct Obs
{
    Tag t;
    std::vector<int> sizes;  // header->size of each frame
    Str id3;
};
Obs observe(ID3v2_Tag* t);
Frame observe(ID3v2_Frame* f);
enum
{
    FRAMES = 1,
    SIZES = 2,   // size of each frame
    TAGSIZE = 4,
    PADDING = 8,
    HEADER = 16, // mark, versions and flags
    EXT = 32,
    ALL = 63
};
Str diff(const Obs& o, const Tag& t, int what = ALL);
Str diff(const std::vector<Frame>& a, const std::vector<Frame>& b);
void same(ID3v2_Tag* t, const Tag& model, int what, const char* when);
void check_getters(ID3v2_Tag* t, const Tag& model);

// --- input buffers ---------------------------------------------------------------------------
// Exactly the bytes given, on the heap; overwritten and freed as soon as the call is over.
struct In
{
    char* p;
    size_t n;
    bool map;
    In(const Str& s);
    ~In();
    operator char*() const { return p; }
    In(const In&) = delete;
};

extern bool read_only_inputs; // in memory that cannot be written, with nothing behind

// --- calls on both sides ---------------------------------------------------------------------
extern const char* const NAMED_ID[9];
void set_text(ID3v2_Tag* t, Tag& M, const Str& id, const Str& text, const Str& flags = Str(2, '\0'));
void set_named(ID3v2_Tag* t, Tag& M, int which, const Str& text);      // 0..8
void set_comment(ID3v2_Tag* t, Tag& M, const Str& lang, const Str& comment);
void set_comment_frame(ID3v2_Tag* t, Tag& M, bool add, const Str& lang, const Str& desc, const Str& comment, const Str& flags = Str(2, '\0'));
void set_apic_frame(ID3v2_Tag* t, Tag& M, bool add, const Str& mime, int type, const Str& desc, const Str& pic, const Str& flags = Str(2, '\0'));
void set_cover(ID3v2_Tag* t, Tag& M, const Str& mime, const Str& pic);
void del_frame(ID3v2_Tag* t, Tag& M, const Str& id);
void del_named(ID3v2_Tag* t, Tag& M, int which);                       // 0..8
void del_comment(ID3v2_Tag* t, Tag& M);
void del_comment_at(ID3v2_Tag* t, Tag& M, int i);
void del_cover(ID3v2_Tag* t, Tag& M);
void del_apic_at(ID3v2_Tag* t, Tag& M, int i);
ID3v2_Frame* get_named(ID3v2_Tag* t, int which);

// --- files -----------------------------------------------------------------------------------
Str path(const char* name);
void put_file(const Str& p, const Str& bytes);
extern void (*after_put)(const Str& p); // called when a file has been put there
Str stranger();                  // a file of the scratch directory that put_file has never written
bool get_file(const Str& p, Str& bytes);
Str read_file(const Str& p); // violation if missing
ID3v2_Tag* parse(const Str& bytes);           // from an exact copy
Str pattern(int kind, size_t n);              // audio data and pictures

// --- starting points -------------------------------------------------------------------------
// A tag on disk together with the tag in memory it must become.
struct Base
{
    const char* name;
    Str bytes; // "" when the tag is made from scratch
    Tag model;
};
const std::vector<Base>& bases();
Base make_base(const char* name, int major, const std::vector<std::pair<Wire, Frame>>& f, int padding, int flags = 0, int ext = 0);
std::pair<Wire, Frame> stored(const Frame& mem, const Str& body); // body on disk, frame once read
std::pair<Wire, Frame> stored(const Frame& mem);
ID3v2_Tag* start(const Base& b, Tag& M);

} // namespace m
