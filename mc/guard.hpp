// Every call of the harness to the public API goes through here, so that what happens inside of the
// library can be told apart (memory it acquires, files it opens). The object lives until the end of the call.
#pragma once
#include <errno.h>
#include "id3v2lib.h"
#include "id3v2lib.compat.h"
namespace mc {
extern int in_library;
extern void (*on_enter)();
struct InLib
{
    InLib()
    {
        if (!in_library) errno = EIO; // left by something else
        if (on_enter && !in_library) on_enter();
        in_library++;
    }
    ~InLib() { in_library--; }
};
}
#define new_tag(...) (mc::InLib(), new_tag(__VA_ARGS__))
#define load_tag(...) (mc::InLib(), load_tag(__VA_ARGS__))
#define load_tag_with_buffer(...) (mc::InLib(), load_tag_with_buffer(__VA_ARGS__))
#define remove_tag(...) (mc::InLib(), remove_tag(__VA_ARGS__))
#define set_tag(...) (mc::InLib(), set_tag(__VA_ARGS__))
#define free_tag(...) (mc::InLib(), free_tag(__VA_ARGS__))
#define free_frame(...) (mc::InLib(), free_frame(__VA_ARGS__))
#define tag_get_title(...) (mc::InLib(), tag_get_title(__VA_ARGS__))
#define tag_get_artist(...) (mc::InLib(), tag_get_artist(__VA_ARGS__))
#define tag_get_album(...) (mc::InLib(), tag_get_album(__VA_ARGS__))
#define tag_get_album_artist(...) (mc::InLib(), tag_get_album_artist(__VA_ARGS__))
#define tag_get_genre(...) (mc::InLib(), tag_get_genre(__VA_ARGS__))
#define tag_get_track(...) (mc::InLib(), tag_get_track(__VA_ARGS__))
#define tag_get_year(...) (mc::InLib(), tag_get_year(__VA_ARGS__))
#define tag_get_comment(...) (mc::InLib(), tag_get_comment(__VA_ARGS__))
#define tag_get_disc_number(...) (mc::InLib(), tag_get_disc_number(__VA_ARGS__))
#define tag_get_composer(...) (mc::InLib(), tag_get_composer(__VA_ARGS__))
#define tag_get_album_cover(...) (mc::InLib(), tag_get_album_cover(__VA_ARGS__))
#define parse_text_frame_content(...) (mc::InLib(), parse_text_frame_content(__VA_ARGS__))
#define parse_comment_frame_content(...) (mc::InLib(), parse_comment_frame_content(__VA_ARGS__))
#define parse_apic_frame_content(...) (mc::InLib(), parse_apic_frame_content(__VA_ARGS__))
#define tag_set_title(...) (mc::InLib(), tag_set_title(__VA_ARGS__))
#define tag_set_artist(...) (mc::InLib(), tag_set_artist(__VA_ARGS__))
#define tag_set_album(...) (mc::InLib(), tag_set_album(__VA_ARGS__))
#define tag_set_album_artist(...) (mc::InLib(), tag_set_album_artist(__VA_ARGS__))
#define tag_set_genre(...) (mc::InLib(), tag_set_genre(__VA_ARGS__))
#define tag_set_track(...) (mc::InLib(), tag_set_track(__VA_ARGS__))
#define tag_set_year(...) (mc::InLib(), tag_set_year(__VA_ARGS__))
#define tag_set_comment(...) (mc::InLib(), tag_set_comment(__VA_ARGS__))
#define tag_set_disc_number(...) (mc::InLib(), tag_set_disc_number(__VA_ARGS__))
#define tag_set_composer(...) (mc::InLib(), tag_set_composer(__VA_ARGS__))
#define tag_set_album_cover(...) (mc::InLib(), tag_set_album_cover(__VA_ARGS__))
#define tag_set_album_cover_from_bytes(...) (mc::InLib(), tag_set_album_cover_from_bytes(__VA_ARGS__))
#define ID3v2_read_tag_header(...) (mc::InLib(), ID3v2_read_tag_header(__VA_ARGS__))
#define ID3v2_read_tag_header_from_buffer(...) (mc::InLib(), ID3v2_read_tag_header_from_buffer(__VA_ARGS__))
#define ID3v2_read_tag(...) (mc::InLib(), ID3v2_read_tag(__VA_ARGS__))
#define ID3v2_read_tag_from_buffer(...) (mc::InLib(), ID3v2_read_tag_from_buffer(__VA_ARGS__))
#define ID3v2_write_tag(...) (mc::InLib(), ID3v2_write_tag(__VA_ARGS__))
#define ID3v2_delete_tag(...) (mc::InLib(), ID3v2_delete_tag(__VA_ARGS__))
#define ID3v2_Frame_free(...) (mc::InLib(), ID3v2_Frame_free(__VA_ARGS__))
#define ID3v2_FrameList_free(...) (mc::InLib(), ID3v2_FrameList_free(__VA_ARGS__))
#define ID3v2_FrameList_unlink(...) (mc::InLib(), ID3v2_FrameList_unlink(__VA_ARGS__))
#define ID3v2_Tag_new(...) (mc::InLib(), ID3v2_Tag_new(__VA_ARGS__))
#define ID3v2_Tag_new_empty(...) (mc::InLib(), ID3v2_Tag_new_empty(__VA_ARGS__))
#define ID3v2_Tag_free(...) (mc::InLib(), ID3v2_Tag_free(__VA_ARGS__))
#define ID3v2_Tag_get_frame(...) (mc::InLib(), ID3v2_Tag_get_frame(__VA_ARGS__))
#define ID3v2_Tag_get_frames(...) (mc::InLib(), ID3v2_Tag_get_frames(__VA_ARGS__))
#define ID3v2_Tag_get_artist_frame(...) (mc::InLib(), ID3v2_Tag_get_artist_frame(__VA_ARGS__))
#define ID3v2_Tag_get_album_frame(...) (mc::InLib(), ID3v2_Tag_get_album_frame(__VA_ARGS__))
#define ID3v2_Tag_get_title_frame(...) (mc::InLib(), ID3v2_Tag_get_title_frame(__VA_ARGS__))
#define ID3v2_Tag_get_track_frame(...) (mc::InLib(), ID3v2_Tag_get_track_frame(__VA_ARGS__))
#define ID3v2_Tag_get_album_artist_frame(...) (mc::InLib(), ID3v2_Tag_get_album_artist_frame(__VA_ARGS__))
#define ID3v2_Tag_get_genre_frame(...) (mc::InLib(), ID3v2_Tag_get_genre_frame(__VA_ARGS__))
#define ID3v2_Tag_get_year_frame(...) (mc::InLib(), ID3v2_Tag_get_year_frame(__VA_ARGS__))
#define ID3v2_Tag_get_disc_number_frame(...) (mc::InLib(), ID3v2_Tag_get_disc_number_frame(__VA_ARGS__))
#define ID3v2_Tag_get_composer_frame(...) (mc::InLib(), ID3v2_Tag_get_composer_frame(__VA_ARGS__))
#define ID3v2_Tag_get_comment_frame(...) (mc::InLib(), ID3v2_Tag_get_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_get_comment_frames(...) (mc::InLib(), ID3v2_Tag_get_comment_frames(__VA_ARGS__))
#define ID3v2_Tag_get_album_cover_frame(...) (mc::InLib(), ID3v2_Tag_get_album_cover_frame(__VA_ARGS__))
#define ID3v2_Tag_get_apic_frames(...) (mc::InLib(), ID3v2_Tag_get_apic_frames(__VA_ARGS__))
#define ID3v2_Tag_set_text_frame(...) (mc::InLib(), ID3v2_Tag_set_text_frame(__VA_ARGS__))
#define ID3v2_Tag_set_artist(...) (mc::InLib(), ID3v2_Tag_set_artist(__VA_ARGS__))
#define ID3v2_Tag_set_album(...) (mc::InLib(), ID3v2_Tag_set_album(__VA_ARGS__))
#define ID3v2_Tag_set_title(...) (mc::InLib(), ID3v2_Tag_set_title(__VA_ARGS__))
#define ID3v2_Tag_set_track(...) (mc::InLib(), ID3v2_Tag_set_track(__VA_ARGS__))
#define ID3v2_Tag_set_album_artist(...) (mc::InLib(), ID3v2_Tag_set_album_artist(__VA_ARGS__))
#define ID3v2_Tag_set_genre(...) (mc::InLib(), ID3v2_Tag_set_genre(__VA_ARGS__))
#define ID3v2_Tag_set_year(...) (mc::InLib(), ID3v2_Tag_set_year(__VA_ARGS__))
#define ID3v2_Tag_set_disc_number(...) (mc::InLib(), ID3v2_Tag_set_disc_number(__VA_ARGS__))
#define ID3v2_Tag_set_composer(...) (mc::InLib(), ID3v2_Tag_set_composer(__VA_ARGS__))
#define ID3v2_Tag_set_comment_frame(...) (mc::InLib(), ID3v2_Tag_set_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_add_comment_frame(...) (mc::InLib(), ID3v2_Tag_add_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_set_comment(...) (mc::InLib(), ID3v2_Tag_set_comment(__VA_ARGS__))
#define ID3v2_Tag_add_apic_frame(...) (mc::InLib(), ID3v2_Tag_add_apic_frame(__VA_ARGS__))
#define ID3v2_Tag_set_apic_frame(...) (mc::InLib(), ID3v2_Tag_set_apic_frame(__VA_ARGS__))
#define ID3v2_Tag_set_album_cover(...) (mc::InLib(), ID3v2_Tag_set_album_cover(__VA_ARGS__))
#define ID3v2_Tag_delete_frame(...) (mc::InLib(), ID3v2_Tag_delete_frame(__VA_ARGS__))
#define ID3v2_Tag_delete_artist(...) (mc::InLib(), ID3v2_Tag_delete_artist(__VA_ARGS__))
#define ID3v2_Tag_delete_album(...) (mc::InLib(), ID3v2_Tag_delete_album(__VA_ARGS__))
#define ID3v2_Tag_delete_title(...) (mc::InLib(), ID3v2_Tag_delete_title(__VA_ARGS__))
#define ID3v2_Tag_delete_track(...) (mc::InLib(), ID3v2_Tag_delete_track(__VA_ARGS__))
#define ID3v2_Tag_delete_album_artist(...) (mc::InLib(), ID3v2_Tag_delete_album_artist(__VA_ARGS__))
#define ID3v2_Tag_delete_genre(...) (mc::InLib(), ID3v2_Tag_delete_genre(__VA_ARGS__))
#define ID3v2_Tag_delete_year(...) (mc::InLib(), ID3v2_Tag_delete_year(__VA_ARGS__))
#define ID3v2_Tag_delete_disc_number(...) (mc::InLib(), ID3v2_Tag_delete_disc_number(__VA_ARGS__))
#define ID3v2_Tag_delete_composer(...) (mc::InLib(), ID3v2_Tag_delete_composer(__VA_ARGS__))
#define ID3v2_Tag_delete_comment_frame(...) (mc::InLib(), ID3v2_Tag_delete_comment_frame(__VA_ARGS__))
#define ID3v2_Tag_delete_comment(...) (mc::InLib(), ID3v2_Tag_delete_comment(__VA_ARGS__))
#define ID3v2_Tag_delete_apic_frame(...) (mc::InLib(), ID3v2_Tag_delete_apic_frame(__VA_ARGS__))
#define ID3v2_Tag_delete_album_cover(...) (mc::InLib(), ID3v2_Tag_delete_album_cover(__VA_ARGS__))
#define ID3v2_TagHeader_free(...) (mc::InLib(), ID3v2_TagHeader_free(__VA_ARGS__))
#define ID3v2_to_unicode(...) (mc::InLib(), ID3v2_to_unicode(__VA_ARGS__))
#define ID3v2_strlen(...) (mc::InLib(), ID3v2_strlen(__VA_ARGS__))
#define ID3v2_strlent(...) (mc::InLib(), ID3v2_strlent(__VA_ARGS__))
