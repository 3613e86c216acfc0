// The old API: calls on an ID3v2_tag and what they make visible.
#pragma once
#include "common.hpp"
#include "guard.hpp"

namespace m { namespace compat {

// 0 title, 1 artist, 2 album, 3 album artist, 4 genre, 5 track, 6 year, 7 comment, 8 disc, 9 composer, 10 cover
const int COUNT = 11;
const char* const ID[COUNT] = {"TIT2", "TPE1", "TALB", "TPE2", "TCON", "TRCK", "TYER", "COMM", "TPOS", "TCOM", "APIC"};

inline ID3v2_frame* get(ID3v2_tag* t, int w)
{
    switch (w)
    {
        case 0: return tag_get_title(t);
        case 1: return tag_get_artist(t);
        case 2: return tag_get_album(t);
        case 3: return tag_get_album_artist(t);
        case 4: return tag_get_genre(t);
        case 5: return tag_get_track(t);
        case 6: return tag_get_year(t);
        case 7: return tag_get_comment(t);
        case 8: return tag_get_disc_number(t);
        case 9: return tag_get_composer(t);
        default: return tag_get_album_cover(t);
    }
}

inline void set(ID3v2_tag* t, int w, const Str& text) // not the cover
{
    mc::op("compat set %s \"%s\"", ID[w], show(text).c_str());
    In x(text);
    char e = has_bom(text) ? 1 : 0;
    switch (w)
    {
        case 0: tag_set_title(x, e, t); break;
        case 1: tag_set_artist(x, e, t); break;
        case 2: tag_set_album(x, e, t); break;
        case 3: tag_set_album_artist(x, e, t); break;
        case 4: tag_set_genre(x, e, t); break;
        case 5: tag_set_track(x, e, t); break;
        case 6: tag_set_year(x, e, t); break;
        case 7: tag_set_comment(x, e, t); break;
        case 8: tag_set_disc_number(x, e, t); break;
        case 9: tag_set_composer(x, e, t); break;
    }
}

inline void cover(ID3v2_tag* t, const Str& mime, const Str& pic)
{
    mc::op("compat set cover %s, %zu bytes", show(mime).c_str(), pic.size());
    In mi(mime), p(pic);
    tag_set_album_cover_from_bytes(p, mi, pic.size(), t);
}

// The content of a frame as its parse function gives it, released as its owner has to
inline Frame content(ID3v2_frame* f, int w)
{
    Frame o;
    o.id = ID[w];
    o.kind = kind_of(o.id);
    if (!f) return o;
    o.flags = Str(f->flags, 2);
    if (w == 7)
    {
        ID3v2_frame_comment_content* c = parse_comment_frame_content(f);
        CHECK(c && c->text, "the content of the comment is NULL");
        o.enc = (unsigned char) c->text->encoding;
        o.lang = Str(c->language, 3);
        o.text = Str(c->text->data, c->text->size);
        int n = f->size - 4 - c->text->size;
        CHECK(n >= 0, "the size of the comment does not fit in the frame");
        o.desc = Str(c->short_description, n);
        free(c->text);
        free(c);
    }
    else if (w == 10)
    {
        ID3v2_frame_apic_content* c = parse_apic_frame_content(f);
        CHECK(c, "the content of the picture is NULL");
        o.enc = (unsigned char) c->encoding;
        o.mime = Str(c->mime_type, strlen(c->mime_type) + 1);
        o.ptype = (unsigned char) c->picture_type;
        o.text = Str(c->data, c->picture_size);
        int n = f->size - 2 - (int) o.mime.size() - c->picture_size;
        CHECK(n >= 0, "the size of the picture does not fit in the frame");
        o.desc = Str(c->description, n);
        free(c);
    }
    else
    {
        ID3v2_frame_text_content* c = parse_text_frame_content(f);
        CHECK(c, "the content of the text is NULL");
        o.enc = (unsigned char) c->encoding;
        o.text = Str(c->data, c->size);
        free(c->data);
        free(c);
    }
    return o;
}

}} // namespace
