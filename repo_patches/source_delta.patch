From d555837101d9d781eb4d6038aef8b403b35d8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 01/29] fix: removing the last frame of a list left an empty
 node behind

A node whose frame is NULL in the middle or at the end of the list made
ID3v2_write_tag exit the process and hid the frames added afterwards.
---
 src/modules/frame_list.c | 41 +++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..1adb9be 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -113,21 +113,47 @@ void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
     }
 }
 
+/**
+ * Takes a node out of its list. The head of a list can't be freed since the
+ * tag points to it, so it takes the place of the next node or becomes empty.
+ */
+static void FrameList_remove_node(ID3v2_FrameList* previous, ID3v2_FrameList* node)
+{
+    ID3v2_FrameList* next = node->next;
+
+    if (next != NULL)
+    {
+        *node = *next;
+        free(next);
+    }
+    else if (previous != NULL)
+    {
+        previous->next = NULL;
+        free(node);
+    }
+    else
+    {
+        node->frame = NULL;
+        node->start = NULL;
+    }
+}
+
 ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
     if (list == NULL) return NULL;
 
-    while (list != NULL)
+    ID3v2_FrameList* previous = NULL;
+
+    while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
             ID3v2_Frame* removed = list->frame;
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            FrameList_remove_node(previous, list);
             return removed;
         }
 
+        previous = list;
         list = list->next;
     }
 
@@ -138,16 +164,17 @@ ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remov
 {
     if (list == NULL) return NULL;
 
+    ID3v2_FrameList* previous = NULL;
+
     while (list != NULL)
     {
         if (list->frame == to_remove)
         {
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            FrameList_remove_node(previous, list);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From b150751cf61c6ec5f530d11b32e2fa6d28031665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 02/29] fix: deleting a frame that is not in the tag crashed

---
 src/modules/tag.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..3bd3bfa 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -455,6 +455,7 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+    if (deleted == NULL) return; // nothing to delete
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From 98be99b1cf09cc4875a86d8d5b70526aa05eaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 03/29] fix: frames added to a tag did not count their header
 in the tag size

Serializing the tag wrote past the end of the buffer allocated for it.
---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 3bd3bfa..53bff8d 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -207,7 +207,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -341,7 +341,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -360,7 +360,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -394,7 +394,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -419,7 +419,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 18368c96f4fb4c2ace87fa5b45be3528b4716c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:00 +0000
Subject: [PATCH 04/29] fix: deleting a comment or picture by index leaked and
 kept the tag size

---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 53bff8d..ae5fb8e 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -510,15 +510,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* matches = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = matches;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -527,7 +529,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(matches);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -538,15 +540,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* matches = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = matches;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -555,7 +559,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(matches);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From 64bcdab1871df45dff2e9b4c92e5ff0634a5bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:38 +0000
Subject: [PATCH 05/29] fix: truncated or corrupted tags were read out of
 bounds

The sizes stored in a file were trusted: a tag shorter than its header
announces, a frame larger than its tag or a buffer without room for a
header made the parser read past the end of its buffers, and a short
file was completed with uninitialized memory.
---
 src/id3v2lib.c             | 10 +++++++++-
 src/modules/char_stream.c  |  2 +-
 src/modules/frame_header.c | 10 ++++++++++
 src/modules/tag.c          |  3 +++
 src/modules/tag_header.c   |  5 ++++-
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..3127f1d 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,6 +49,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
@@ -60,7 +67,8 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    // The file might be shorter than what its tag header says
+    buffer_length = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index 7a6924e..f4a34ec 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -73,7 +73,7 @@ void CharStream_seek(CharStream* cs, const int offset, const int whence)
     switch (whence)
     {
         case SEEK_SET:
-            cs->cursor = offset;
+            cs->cursor = clamp_int(offset, 0, cs->size);
             break;
         case SEEK_CUR:
             cs->cursor = clamp_int(cs->cursor + offset, 0, cs->size);
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..f85735c 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -30,6 +30,9 @@ ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int
 
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version)
 {
+    // There's no room left for a frame, so this can only be padding
+    if (header_cs->size - header_cs->cursor < ID3v2_FRAME_HEADER_LENGTH) return NULL;
+
     char id[ID3v2_FRAME_HEADER_ID_LENGTH];
     CharStream_read(header_cs, id, ID3v2_FRAME_HEADER_ID_LENGTH);
 
@@ -54,6 +57,13 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    // A frame that doesn't fit in the tag is corrupted
+    if (size < 0 || size > header_cs->size - header_cs->cursor)
+    {
+        CharStream_seek(header_cs, -ID3v2_FRAME_HEADER_LENGTH, SEEK_CUR);
+        return NULL;
+    }
+
     return FrameHeader_new(id, flags, size);
 }
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index ae5fb8e..fb96488 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -48,6 +48,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
 
+    // Whatever comes after the tag is not part of it
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+
     if (header->extended_header_size > 0)
     {
         // An extended header exists, skip it
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..6ded9b5 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL; // no room for a header
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
@@ -73,7 +75,8 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     if ((flags & (1 << 6)) == (1 << 6))
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        // (unless only the tag header was provided)
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
         extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
     }
-- 
2.43.0


From d79f3e23823f99e5704cb209ebad22c4a44ba7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 06/29] fix: the extended header was not skipped when reading a
 tag

Its size was taken as an absolute position in the file, so the parsing of
the frames started inside of the headers.
---
 src/modules/tag.c        | 15 +++++++++++++--
 src/modules/tag_header.c |  7 ++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index fb96488..8310d63 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -51,10 +51,21 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     // Whatever comes after the tag is not part of it
     tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
 
+    CharStream_seek(tag_cs, ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip it. Its size only includes the size field in v2.4
+        if (header->major_version != 4)
+        {
+            CharStream_seek(tag_cs, ID3v2_EXTENDED_HEADER_SIZE_LENGTH, SEEK_CUR);
+        }
+
+        CharStream_seek(
+            tag_cs,
+            clamp_int(header->extended_header_size, 0, tag_cs->size),
+            SEEK_CUR
+        );
     }
 
     ID3v2_Frame* current_frame;
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 6ded9b5..333f8f4 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -78,7 +78,12 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
         // (unless only the tag header was provided)
         char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
-        extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
+        extended_header_size = btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
+
+        if (major_version == 4)
+        {
+            extended_header_size = syncint_decode(extended_header_size);
+        }
     }
 
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
-- 
2.43.0


From b508b214bd4fdd90f9b01fb086ab86833e8122dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 07/29] fix: the size of a written tag did not include its
 padding

The padding was never added to the size in the header of a new tag, and the
size of a tag read from a file could be out of step with its frames.
---
 src/modules/tag.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 8310d63..e6002bb 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -81,8 +81,28 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     return tag;
 }
 
+/**
+ * Total space taken by the frames of the tag, headers included
+ */
+static int Tag_get_frames_size(ID3v2_Tag* tag)
+{
+    int size = 0;
+    ID3v2_FrameList* frames = tag->frames;
+
+    while (frames != NULL && frames->frame != NULL)
+    {
+        size += frames->frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
+        frames = frames->next;
+    }
+
+    return size;
+}
+
 CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 {
+    // The size in the header must match what's about to be written after it
+    tag->header->tag_size = Tag_get_frames_size(tag) + tag->padding_size;
+
     CharStream* tag_cs = CharStream_new(tag->header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
     // Write header
-- 
2.43.0


From 7854290b251774faeb14ea0be0b0d741925e8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 08/29] fix: frame sizes were not written as syncsafe integers
 in v2.4 tags

---
 src/modules/tag.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index e6002bb..1f5789e 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -130,6 +130,15 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
         if (frame_cs == NULL) exit(1);
 
+        if (tag->header->major_version == 4)
+        {
+            // The size of the frames is also a syncsafe integer in v2.4
+            char* frame_size_bytes = itob(syncint_encode(frames->frame->header->size));
+            CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_ID_LENGTH, SEEK_SET);
+            CharStream_write(frame_cs, frame_size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
+            free(frame_size_bytes);
+        }
+
         CharStream_write(tag_cs, frame_cs->stream, frame_cs->size);
         CharStream_free(frame_cs);
 
-- 
2.43.0


From 48d139205cce67e859e2a64609ecb6f4a3eb82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:07 +0000
Subject: [PATCH 09/29] fix: footers were left in the audio and flags announced
 missing headers

A written tag has neither an extended header nor a footer, but its flags
still announced the ones of the tag it was read from, and the footer of
the replaced or deleted tag stayed in front of the audio data.
---
 include/modules/tag_header.h     |  4 ++++
 src/id3v2lib.c                   |  4 ++--
 src/modules/tag.c                |  5 +++++
 src/modules/tag_header.c         | 11 +++++++++++
 src/modules/tag_header.private.h |  2 ++
 5 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/modules/tag_header.h b/include/modules/tag_header.h
index be6c46f..75e1461 100644
--- a/include/modules/tag_header.h
+++ b/include/modules/tag_header.h
@@ -17,6 +17,10 @@
 #define ID3v2_TAG_HEADER_FLAGS_LENGTH 1
 #define ID3v2_TAG_HEADER_TAG_SIZE_LENGTH 4
 #define ID3v2_EXTENDED_HEADER_SIZE_LENGTH 4
+#define ID3v2_TAG_FOOTER_LENGTH 10
+
+#define ID3v2_TAG_HEADER_FLAG_EXTENDED_HEADER 0x40
+#define ID3v2_TAG_HEADER_FLAG_FOOTER 0x10
 
 typedef struct _ID3v2_TagHeader
 {
diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 3127f1d..b270a10 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -93,7 +93,7 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
     const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+        existing_tag_header != NULL ? TagHeader_get_full_tag_size(existing_tag_header) : 0;
     free(existing_tag_header);
 
     const int extra_padding_length = clamp_int(
@@ -147,7 +147,7 @@ void ID3v2_delete_tag(const char* file_name)
     FILE* file_fp = fopen(file_name, "rb");
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    fseek(file_fp, TagHeader_get_full_tag_size(tag_header), SEEK_SET);
 
     int c = 0;
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 1f5789e..78b7c84 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -103,6 +103,11 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     // The size in the header must match what's about to be written after it
     tag->header->tag_size = Tag_get_frames_size(tag) + tag->padding_size;
 
+    // Neither the extended header nor the footer are kept
+    tag->header->flags &=
+        ~(ID3v2_TAG_HEADER_FLAG_EXTENDED_HEADER | ID3v2_TAG_HEADER_FLAG_FOOTER);
+    tag->header->extended_header_size = 0;
+
     CharStream* tag_cs = CharStream_new(tag->header->tag_size + ID3v2_TAG_HEADER_LENGTH);
 
     // Write header
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 333f8f4..8f8ad67 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -89,6 +89,17 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     return TagHeader_new(major_version, minor_version, flags, tag_size, extended_header_size);
 }
 
+/**
+ * The size the whole tag takes in the file
+ */
+int TagHeader_get_full_tag_size(ID3v2_TagHeader* header)
+{
+    const bool has_footer =
+        header->major_version == 4 && (header->flags & ID3v2_TAG_HEADER_FLAG_FOOTER) != 0;
+
+    return ID3v2_TAG_HEADER_LENGTH + header->tag_size + (has_footer ? ID3v2_TAG_FOOTER_LENGTH : 0);
+}
+
 void ID3v2_TagHeader_free(ID3v2_TagHeader* header)
 {
     free(header);
diff --git a/src/modules/tag_header.private.h b/src/modules/tag_header.private.h
index 011e39c..a9bb35d 100644
--- a/src/modules/tag_header.private.h
+++ b/src/modules/tag_header.private.h
@@ -24,4 +24,6 @@ ID3v2_TagHeader* TagHeader_new(
 ID3v2_TagHeader* TagHeader_new_empty();
 ID3v2_TagHeader* TagHeader_parse(CharStream* stream);
 
+int TagHeader_get_full_tag_size(ID3v2_TagHeader* header);
+
 #endif
-- 
2.43.0


From db72a25f09ad3ae63037c991992903559014cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 10/29] fix: every frame starting with C or A was handled as
 COMM or APIC

Frames like COMR or AENC were parsed with the wrong layout and written back
with another id.
---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index f85735c..9633865 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -87,12 +88,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From 18b6c718a60d604250e379e9c2601523dbfd1ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 11/29] fix: frames of unknown type leaked when written and
 freed

---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..257ae51 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -78,6 +78,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
+        CharStream_free(header_cs);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         return frame_cs;
     }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From cbcde9794476913bf385e0a1a5e7436179b35cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 12/29] fix: text frames were read out of bounds and cut short

The text of a frame doesn't have to be terminated, it can hold several
strings (like TXXX does) and it might be encoded in UTF-8 or UTF-16BE. It was
copied up to the first null character, wherever that was, and written back
as ISO text.
---
 include/modules/frame.h                 |  2 ++
 src/modules/char_stream.c               | 13 ++++++++++++
 src/modules/char_stream.private.h       |  1 +
 src/modules/frames/text_frame.c         | 28 ++++++++++++++++++++-----
 src/modules/frames/text_frame.private.h |  5 +++++
 src/modules/utils.c                     | 20 ++++++++++++++++++
 src/modules/utils.private.h             |  1 +
 7 files changed, 65 insertions(+), 5 deletions(-)

diff --git a/include/modules/frame.h b/include/modules/frame.h
index 26f1f4d..47ee9ff 100644
--- a/include/modules/frame.h
+++ b/include/modules/frame.h
@@ -14,6 +14,8 @@
 
 #define ID3v2_ENCODING_ISO 0
 #define ID3v2_ENCODING_UNICODE 1
+#define ID3v2_ENCODING_UNICODE_BE 2 // without BOM, only in v2.4
+#define ID3v2_ENCODING_UTF8 3 // only in v2.4
 
 typedef struct _ID3v2_FrameHeader ID3v2_FrameHeader;
 
diff --git a/src/modules/char_stream.c b/src/modules/char_stream.c
index f4a34ec..3a1b4bd 100644
--- a/src/modules/char_stream.c
+++ b/src/modules/char_stream.c
@@ -15,6 +15,8 @@
 
 #include "char_stream.private.h"
 
+#define TERMINATION_LENGTH 16
+
 CharStream* CharStream_new(const int size)
 {
     CharStream* cs = (CharStream*) malloc(sizeof(CharStream));
@@ -53,6 +55,17 @@ int CharStream_read(CharStream* cs, char* dest, const int size)
     return final_size;
 }
 
+/**
+ * Returns a copy of the data followed by null characters, enough of them to
+ * terminate any string found in a frame.
+ */
+char* CharStream_read_terminated(CharStream* cs, const int size)
+{
+    char* result = (char*) calloc(size + TERMINATION_LENGTH, sizeof(char));
+    CharStream_read(cs, result, size);
+    return result;
+}
+
 int CharStream_getc(CharStream* cs)
 {
     if (cs->cursor >= cs->size) return EOF;
diff --git a/src/modules/char_stream.private.h b/src/modules/char_stream.private.h
index ef86764..e91050f 100644
--- a/src/modules/char_stream.private.h
+++ b/src/modules/char_stream.private.h
@@ -23,6 +23,7 @@ CharStream* CharStream_from_buffer(const char* buffer, const int size);
 char* CharStream_get_cur(CharStream* cs);
 void CharStream_write(CharStream* cs, const char* data, const int size);
 int CharStream_read(CharStream* cs, char* dest, const int size);
+char* CharStream_read_terminated(CharStream* cs, const int size);
 int CharStream_getc(CharStream* cs);
 char* CharStream_slice(CharStream* cs, const int n);
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..83691a5 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,14 +34,23 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    char* content = CharStream_read_terminated(frame_cs, header->size);
+    const char* text = content + ID3v2_FRAME_ENCODING_LENGTH;
+    const char encoding = string_has_bom(text) ? ID3v2_ENCODING_UNICODE : content[0];
 
-    const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
-    CharStream_read(frame_cs, text, text_size);
+    // The text might not be terminated or it might be made of several strings
+    const int text_size = string_terminated_size(
+        text,
+        clamp_int(header->size - ID3v2_FRAME_ENCODING_LENGTH, 0, header->size),
+        encoding
+    );
 
-    ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
+    ID3v2_TextFrame* frame = (ID3v2_TextFrame*) malloc(sizeof(ID3v2_TextFrame));
+    frame->data = TextFrameData_from_buffer(encoding, text, text_size);
+    frame->header =
+        FrameHeader_new(header->id, header->flags, ID3v2_FRAME_ENCODING_LENGTH + text_size);
 
+    free(content);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
@@ -79,6 +88,15 @@ ID3v2_TextFrameData* TextFrameData_new(const char* text)
     const int str_termination_size = encoding == ID3v2_ENCODING_ISO ? 1 : 2;
     const int size = ID3v2_strlen(text) + str_termination_size;
 
+    return TextFrameData_from_buffer(encoding, text, size);
+}
+
+ID3v2_TextFrameData* TextFrameData_from_buffer(
+    const char encoding,
+    const char* text,
+    const int size
+)
+{
     ID3v2_TextFrameData* data = (ID3v2_TextFrameData*) malloc(sizeof(ID3v2_TextFrameData));
     data->text = (char*) malloc(size * sizeof(char));
 
diff --git a/src/modules/frames/text_frame.private.h b/src/modules/frames/text_frame.private.h
index da96c2b..c1d3e16 100644
--- a/src/modules/frames/text_frame.private.h
+++ b/src/modules/frames/text_frame.private.h
@@ -21,5 +21,10 @@ CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame);
 void TextFrame_free(ID3v2_TextFrame* frame);
 
 ID3v2_TextFrameData* TextFrameData_new(const char* text);
+ID3v2_TextFrameData* TextFrameData_from_buffer(
+    const char encoding,
+    const char* text,
+    const int size
+);
 
 #endif
diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..6851036 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -12,6 +12,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include "modules/frame.h"
+
 #include "utils.private.h"
 
 #define BOM_LENGTH 2
@@ -159,3 +161,21 @@ bool string_has_bom(const char* string)
 
     return false;
 }
+
+/**
+ * Size of a string that takes size bytes in a frame, once the termination
+ * characters that might be missing there are taken into account.
+ */
+int string_terminated_size(const char* string, const int size, const char encoding)
+{
+    if (encoding != ID3v2_ENCODING_UNICODE && encoding != ID3v2_ENCODING_UNICODE_BE)
+    {
+        return size > 0 && string[size - 1] == 0x00 ? size : size + 1;
+    }
+
+    const int even_size = size + (size % 2);
+    const bool is_terminated =
+        even_size > 0 && string[even_size - 2] == 0x00 && string[even_size - 1] == 0x00;
+
+    return is_terminated ? even_size : even_size + 2;
+}
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index b58892f..26ca044 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -20,5 +20,6 @@ int syncint_encode(int value);
 unsigned int syncint_decode(int value);
 int clamp_int(const int value, const int min, const int max);
 bool string_has_bom(const char* string);
+int string_terminated_size(const char* string, const int size, const char encoding);
 
 #endif
-- 
2.43.0


From 76e7846fede90b93e24f583b91b6ed5fd4bba1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 13/29] fix: comment frames were read past their end

The comment itself is not terminated in most files, so it ran into the next
frame and the frames after it were lost. Comments encoded in UTF-8 or
UTF-16BE were written back as ISO text.
---
 src/modules/frames/comment_frame.c         | 59 ++++++++++++++++++----
 src/modules/frames/comment_frame.private.h |  8 +++
 src/modules/utils.c                        | 23 +++++++++
 src/modules/utils.private.h                |  1 +
 4 files changed, 80 insertions(+), 11 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..bcdce9a 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,21 +43,38 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    char* content = CharStream_read_terminated(frame_cs, header->size);
+    const char* lang = content + ID3v2_FRAME_ENCODING_LENGTH;
 
-    char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
-    CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    const char* short_desc = lang + ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
+    const int short_desc_size = string_size(short_desc, content[0]);
 
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
-    CharStream_read(frame_cs, short_desc, short_desc_size);
+    const char* comment = short_desc + short_desc_size;
+    const char encoding = string_has_bom(comment) ? ID3v2_ENCODING_UNICODE : content[0];
 
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
-    CharStream_read(frame_cs, comment, comment_size);
+    // The comment takes the rest of the frame and it might not be terminated
+    const int comment_size = string_terminated_size(
+        comment,
+        clamp_int(header->size - (int) (comment - content), 0, header->size),
+        encoding
+    );
 
-    ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
+    ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
+    frame->data = CommentFrameData_from_buffer(
+        encoding,
+        lang,
+        short_desc,
+        short_desc_size,
+        comment,
+        comment_size
+    );
+    frame->header = FrameHeader_new(
+        header->id,
+        header->flags,
+        (int) (comment - content) + comment_size
+    );
 
+    free(content);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
@@ -80,7 +97,8 @@ CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame)
     CharStream_write(
         frame_cs,
         frame->data->short_description,
-        ID3v2_strlent(frame->data->short_description)
+        frame->header->size - ID3v2_FRAME_ENCODING_LENGTH - ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH -
+            frame->data->size
     );
     CharStream_write(frame_cs, frame->data->comment, frame->data->size);
 
@@ -106,6 +124,25 @@ ID3v2_CommentFrameData* CommentFrameData_new(
     const int comment_size = ID3v2_strlent(comment);
     const int short_desc_size = ID3v2_strlent(short_desc);
 
+    return CommentFrameData_from_buffer(
+        encoding,
+        lang,
+        short_desc,
+        short_desc_size,
+        comment,
+        comment_size
+    );
+}
+
+ID3v2_CommentFrameData* CommentFrameData_from_buffer(
+    const char encoding,
+    const char* lang,
+    const char* short_desc,
+    const int short_desc_size,
+    const char* comment,
+    const int comment_size
+)
+{
     ID3v2_CommentFrameData* data = (ID3v2_CommentFrameData*) malloc(sizeof(ID3v2_CommentFrameData));
 
     data->encoding = encoding;
diff --git a/src/modules/frames/comment_frame.private.h b/src/modules/frames/comment_frame.private.h
index b956fed..d7ac9cd 100644
--- a/src/modules/frames/comment_frame.private.h
+++ b/src/modules/frames/comment_frame.private.h
@@ -30,5 +30,13 @@ ID3v2_CommentFrameData* CommentFrameData_new(
     const char* short_desc,
     const char* comment
 );
+ID3v2_CommentFrameData* CommentFrameData_from_buffer(
+    const char encoding,
+    const char* lang,
+    const char* short_desc,
+    const int short_desc_size,
+    const char* comment,
+    const int comment_size
+);
 
 #endif
diff --git a/src/modules/utils.c b/src/modules/utils.c
index 6851036..408be30 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -162,6 +162,29 @@ bool string_has_bom(const char* string)
     return false;
 }
 
+/**
+ * Like ID3v2_strlent but for strings read from a frame, that might have been
+ * encoded without BOM.
+ */
+int string_size(const char* string, const char encoding)
+{
+    const bool is_empty = string[0] == 0x00 && string[1] == 0x00;
+
+    // An empty string doesn't need a BOM
+    if (encoding == ID3v2_ENCODING_UNICODE && is_empty) return 2;
+
+    if (encoding != ID3v2_ENCODING_UNICODE_BE) return ID3v2_strlent(string);
+
+    int size = 0;
+
+    while (string[size] != 0x00 || string[size + 1] != 0x00)
+    {
+        size += 2;
+    }
+
+    return size + 2;
+}
+
 /**
  * Size of a string that takes size bytes in a frame, once the termination
  * characters that might be missing there are taken into account.
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index 26ca044..780b289 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -20,6 +20,7 @@ int syncint_encode(int value);
 unsigned int syncint_decode(int value);
 int clamp_int(const int value, const int min, const int max);
 bool string_has_bom(const char* string);
+int string_size(const char* string, const char encoding);
 int string_terminated_size(const char* string, const int size, const char encoding);
 
 #endif
-- 
2.43.0


From d63d9030468bec73c72e53419d6bdf30cc50fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 14/29] fix: picture frames were read past their end and on the
 stack

A picture frame shorter than its strings gave a negative picture size, large
pictures overflowed the stack, and descriptions encoded in UTF-8 or UTF-16BE
were written back as ISO text.
---
 src/modules/frames/apic_frame.c         | 77 ++++++++++++++++++-------
 src/modules/frames/apic_frame.private.h |  9 +++
 2 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..1ad2312 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,26 +48,36 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    char* content = CharStream_read_terminated(frame_cs, header->size);
 
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
-
-    const char picture_type = CharStream_getc(frame_cs);
+    const char* mime_type = content + ID3v2_FRAME_ENCODING_LENGTH;
+    const int mime_type_size = ID3v2_strlent(mime_type);
 
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
+    const char picture_type = mime_type[mime_type_size];
 
-    const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
-                         ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
+    const char* description = mime_type + mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
+    const int description_size = string_size(description, content[0]);
+    const char encoding = string_has_bom(description) ? ID3v2_ENCODING_UNICODE : content[0];
 
-    ID3v2_ApicFrame* frame =
-        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
+    // The picture takes the rest of the frame
+    const char* pic_data = description + description_size;
+    const int pic_size =
+        clamp_int(header->size - (int) (pic_data - content), 0, header->size);
 
+    ID3v2_ApicFrame* frame = (ID3v2_ApicFrame*) malloc(sizeof(ID3v2_ApicFrame));
+    frame->data = ApicFrameData_from_buffer(
+        encoding,
+        description,
+        description_size,
+        picture_type,
+        mime_type,
+        pic_size,
+        pic_data
+    );
+    frame->header =
+        FrameHeader_new(header->id, header->flags, (int) (pic_data - content) + pic_size);
+
+    free(content);
     FrameHeader_free(header); // we only needed the header to parse the data
 
     return frame;
@@ -86,9 +96,15 @@ CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame)
 
     // Data
     CharStream_write(frame_cs, &frame->data->encoding, ID3v2_FRAME_ENCODING_LENGTH);
-    CharStream_write(frame_cs, frame->data->mime_type, ID3v2_strlent(frame->data->mime_type));
+    const int mime_type_size = ID3v2_strlent(frame->data->mime_type);
+    CharStream_write(frame_cs, frame->data->mime_type, mime_type_size);
     CharStream_write(frame_cs, &frame->data->picture_type, ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH);
-    CharStream_write(frame_cs, frame->data->description, ID3v2_strlent(frame->data->description));
+    CharStream_write(
+        frame_cs,
+        frame->data->description,
+        frame->header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
+            ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - frame->data->picture_size
+    );
     CharStream_write(frame_cs, frame->data->data, frame->data->picture_size);
 
     return frame_cs;
@@ -111,13 +127,34 @@ ID3v2_ApicFrameData* ApicFrameData_new(
     const int picture_size,
     const char* picture_data
 )
+{
+    const char encoding = string_has_bom(description) ? ID3v2_ENCODING_UNICODE : ID3v2_ENCODING_ISO;
+
+    return ApicFrameData_from_buffer(
+        encoding,
+        description,
+        ID3v2_strlent(description),
+        picture_type,
+        mime_type,
+        picture_size,
+        picture_data
+    );
+}
+
+ID3v2_ApicFrameData* ApicFrameData_from_buffer(
+    const char encoding,
+    const char* description,
+    const int desc_size,
+    const char picture_type,
+    const char* mime_type,
+    const int picture_size,
+    const char* picture_data
+)
 {
     ID3v2_ApicFrameData* data = (ID3v2_ApicFrameData*) malloc(sizeof(ID3v2_ApicFrameData));
 
-    const char encoding = string_has_bom(description) ? ID3v2_ENCODING_UNICODE : ID3v2_ENCODING_ISO;
     data->encoding = encoding;
 
-    const int desc_size = ID3v2_strlent(description);
     data->description = (char*) malloc(desc_size * sizeof(char));
     memcpy(data->description, description, desc_size);
 
@@ -133,4 +170,4 @@ ID3v2_ApicFrameData* ApicFrameData_new(
     memcpy(data->data, picture_data, picture_size);
 
     return data;
-}
\ No newline at end of file
+}
diff --git a/src/modules/frames/apic_frame.private.h b/src/modules/frames/apic_frame.private.h
index b968d58..63b47d1 100644
--- a/src/modules/frames/apic_frame.private.h
+++ b/src/modules/frames/apic_frame.private.h
@@ -34,5 +34,14 @@ ID3v2_ApicFrameData* ApicFrameData_new(
     const int picture_size,
     const char* picture_data
 );
+ID3v2_ApicFrameData* ApicFrameData_from_buffer(
+    const char encoding,
+    const char* description,
+    const int desc_size,
+    const char picture_type,
+    const char* mime_type,
+    const int picture_size,
+    const char* picture_data
+);
 
 #endif
-- 
2.43.0


From 24bf7fd97faa3434dab3e40c863d1b6d5aa43a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:38 +0000
Subject: [PATCH 15/29] fix: ISO comments were written with an unicode
 description

There's a single encoding for both strings of a comment frame, so other
readers saw an empty comment.
---
 src/modules/tag.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 78b7c84..a8cac93 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -418,7 +418,8 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            // Both strings share the encoding
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 9b7d7ed2f5d02d0a3bacfceaca684732ea718e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:38 +0000
Subject: [PATCH 16/29] fix: the padding requested for a new tag was ignored

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index a8cac93..8df0375 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -31,7 +31,7 @@ ID3v2_Tag* ID3v2_Tag_new(ID3v2_TagHeader* header, const int padding_size)
     ID3v2_Tag* tag = (ID3v2_Tag*) malloc(sizeof(ID3v2_Tag));
     tag->header = header == NULL ? TagHeader_new_empty() : header;
     tag->frames = FrameList_new();
-    tag->padding_size = 0;
+    tag->padding_size = padding_size;
 
     return tag;
 }
-- 
2.43.0


From 8b80fef2a458314ff6443ba580249bf4d726f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 17/29] fix: failed file operations crashed or lost the audio
 data

A missing file or temp file was dereferenced as NULL, and when the copy into
the temp file was incomplete (no space left, read error) it still replaced
the original file. Now the original file is left alone in those cases.
---
 src/id3v2lib.c | 89 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 19 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b270a10..4d321df 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -7,6 +7,7 @@
  * file that was distributed with this source code.
  */
 
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -19,21 +20,29 @@
 
 #include "id3v2lib.h"
 
-ID3v2_TagHeader* ID3v2_read_tag_header(const char* file_name)
+static ID3v2_TagHeader* read_tag_header_from_fp(FILE* fp)
 {
-    FILE* fp = fopen(file_name, "rb");
     char tag_header_buffer[ID3v2_TAG_HEADER_LENGTH];
 
-    if (fp == NULL) return NULL;
-
     const int bytes_read = fread(tag_header_buffer, sizeof(char), ID3v2_TAG_HEADER_LENGTH, fp);
-    fclose(fp);
 
     if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return NULL;
 
     return ID3v2_read_tag_header_from_buffer(tag_header_buffer);
 }
 
+ID3v2_TagHeader* ID3v2_read_tag_header(const char* file_name)
+{
+    FILE* fp = fopen(file_name, "rb");
+
+    if (fp == NULL) return NULL;
+
+    ID3v2_TagHeader* tag_header = read_tag_header_from_fp(fp);
+    fclose(fp);
+
+    return tag_header;
+}
+
 ID3v2_TagHeader* ID3v2_read_tag_header_from_buffer(const char* buffer)
 {
     CharStream* cs = CharStream_from_buffer(buffer, ID3v2_TAG_HEADER_LENGTH);
@@ -91,7 +100,11 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 {
     if (tag == NULL) return;
 
-    ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
+    FILE* dest_fp = fopen(file_name, "r+b");
+
+    if (dest_fp == NULL) return;
+
+    ID3v2_TagHeader* existing_tag_header = read_tag_header_from_fp(dest_fp);
     const int original_size =
         existing_tag_header != NULL ? TagHeader_get_full_tag_size(existing_tag_header) : 0;
     free(existing_tag_header);
@@ -107,25 +120,43 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
     // Perform operations on a temp file in case things go wrong
     FILE* temp_fp = tmpfile();
 
+    if (temp_fp == NULL)
+    {
+        perror("Could not create temp file.");
+        fclose(dest_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
+
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
-    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
+    bool failed = ferror(dest_fp) != 0;
+    failed |= fseek(dest_fp, original_size, SEEK_SET) != 0; // move to the end of the original tag
 
     int c = 0;
 
-    while ((c = getc(dest_fp)) != EOF)
+    while (!failed && (c = getc(dest_fp)) != EOF)
     {
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    failed |= ferror(dest_fp) != 0 || ferror(temp_fp) != 0 || fseek(temp_fp, 0L, SEEK_SET) != 0;
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+
+    // Finally copy the temp file back into the destination file,
+    // unless there's something missing in the temp file
+    dest_fp = failed ? NULL : fopen(file_name, "w+b");
+
+    if (dest_fp == NULL)
+    {
+        perror("Could not write tag.");
+        fclose(temp_fp);
+        CharStream_free(tag_cs);
+        return;
+    }
 
     while ((c = getc(temp_fp)) != EOF)
     {
@@ -144,30 +175,50 @@ void ID3v2_delete_tag(const char* file_name)
 
     if (tag_header == NULL) return;
 
+    const int tag_size = TagHeader_get_full_tag_size(tag_header);
+    ID3v2_TagHeader_free(tag_header);
+
     FILE* file_fp = fopen(file_name, "rb");
+
+    if (file_fp == NULL) return;
+
     FILE* temp_fp = tmpfile();
 
-    fseek(file_fp, TagHeader_get_full_tag_size(tag_header), SEEK_SET);
+    if (temp_fp == NULL)
+    {
+        perror("Could not create temp file.");
+        fclose(file_fp);
+        return;
+    }
+
+    bool failed = fseek(file_fp, tag_size, SEEK_SET) != 0;
 
     int c = 0;
 
-    while ((c = getc(file_fp)) != EOF)
+    while (!failed && (c = getc(file_fp)) != EOF)
     {
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    failed |= ferror(file_fp) != 0 || ferror(temp_fp) != 0 || fseek(temp_fp, 0L, SEEK_SET) != 0;
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+
+    // Finally copy the temp file back into the destination file,
+    // unless there's something missing in the temp file
+    file_fp = failed ? NULL : fopen(file_name, "w+b");
+
+    if (file_fp == NULL)
+    {
+        perror("Could not delete tag.");
+        fclose(temp_fp);
+        return;
+    }
 
     while ((c = getc(temp_fp)) != EOF)
     {
         putc(c, file_fp);
     }
 
-    ID3v2_TagHeader_free(tag_header);
-
     fclose(temp_fp);
     fclose(file_fp);
 }
-- 
2.43.0


From de467974cfa8c4f238203df5bb850feb0237db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 18/29] fix: loading a file without tag or without frames
 crashed in the compat layer

load_tag has to return NULL when there's no tag, and the rest of a file shorter
than its tag was read from uninitialized memory.
---
 src/id3v2lib.compat.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..4b09b30 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -126,10 +126,20 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
-    const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
+    int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    buffer_size = fread(buffer, sizeof(char), buffer_size, fp);
     fclose(fp);
 
     ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
@@ -143,6 +153,9 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
@@ -166,7 +179,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
@@ -190,6 +203,8 @@ void set_tag(const char* file_name, ID3v2_tag* tag)
 
 void free_frame(ID3v2_frame* frame)
 {
+    if (frame == NULL) return;
+
     free(frame->data);
     free(frame);
 }
-- 
2.43.0


From 7526c2efa28ee66804dd6262f93f04bbffd96684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 19/29] fix: setting a frame missing in the tag crashed in the
 compat layer

---
 src/id3v2lib.compat.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 4b09b30..736aded 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -76,9 +76,11 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
     }
 }
 
-void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
+void add_uniq_to_list(ID3v2_frame_list* list, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* head = list;
+
+    while (head != NULL && head->frame != NULL)
     {
         if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
         {
@@ -91,7 +93,7 @@ void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(list, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
-- 
2.43.0


From 8a23f097224a693f940f96f62579717601130689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 20/29] fix: new tags of the compat layer were not initialized

Freeing one of them freed an uninitialized pointer.
---
 src/id3v2lib.compat.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 736aded..f622b85 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -29,6 +29,7 @@ ID3v2_frame_list* new_frame_list()
         list->frame = NULL;
         list->next = NULL;
         list->start = NULL;
+        list->last = NULL;
     }
 
     return list;
@@ -116,12 +117,18 @@ ID3v2_tag* new_tag()
     ID3v2_tag* tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
     ID3v2_header* header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
 
-    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
-
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
 
+    memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
+
     return tag;
 }
 
-- 
2.43.0


From 2895bdd73f3f42a9c0c809039225bae052209a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 21/29] fix: the second flags byte of the compat frames was not
 initialized

---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index f622b85..781633d 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -42,7 +42,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame);
-- 
2.43.0


From a06db765abf98e6d240c981f8e110dc6c6e82dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:10 +0000
Subject: [PATCH 22/29] fix: missing album cover files and names without
 extension crashed in the compat layer

---
 src/id3v2lib.compat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 781633d..339a0f9 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -441,6 +441,9 @@ void tag_set_composer(char* composer, char encoding, ID3v2_tag* tag)
 void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 {
     FILE* album_cover = fopen(filename, "rb");
+
+    if (album_cover == NULL) return;
+
     char* album_cover_bytes;
     int image_size;
     char* mimetype;
@@ -454,8 +457,9 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From 7b5674a7107e3aa066bd741b2cb461fe6bada159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 23/29] fix: parsing the content of a missing frame crashed in
 the compat layer

The getters return NULL when there's no such frame in the tag.
---
 src/id3v2lib.compat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 339a0f9..a716afe 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -294,6 +294,8 @@ ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -308,6 +310,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -324,6 +328,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From 4cf7520873ebf871077c73e68cf0c9df924500ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:24 +0000
Subject: [PATCH 24/29] fix: writing a tag never ended when built with
 optimizations

The mask used to encode syncsafe integers overflowed an int, so the compiler
was free to drop the condition of the loop (gcc does at -O2).
---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 408be30..cf01c52 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -112,7 +112,7 @@ char* itob(int integer)
 
 int syncint_encode(int value)
 {
-    int out, mask = 0x7F;
+    unsigned int out, mask = 0x7F; // the last mask doesn't fit in an int
 
     while (mask ^ 0x7FFFFFFF)
     {
-- 
2.43.0


From f39de2afb3522d73b96ba9757c10f2360f281439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:08 +0000
Subject: [PATCH 25/29] fix: looking for the byte order mark read past the end
 of empty strings

---
 src/modules/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index cf01c52..03d443a 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -154,7 +154,8 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
+    // Empty strings have only one byte, so the second one can't be read before checking the first
+    if (strncmp("\xFF\xFE", string, 2) == 0 || strncmp("\xFE\xFF", string, 2) == 0)
     {
         return true;
     }
-- 
2.43.0


From 316f95476ff8ee9d0914321638200a26d3a49c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:36 +0000
Subject: [PATCH 26/29] fix: data after a tag too short for an extended header
 was taken for one when read from a buffer

---
 src/modules/tag_header.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8f8ad67..8b4921d 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -72,7 +72,9 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 
     int extended_header_size = 0;
 
-    if ((flags & (1 << 6)) == (1 << 6))
+    const bool fits_extended_header = tag_size >= ID3v2_EXTENDED_HEADER_SIZE_LENGTH;
+
+    if ((flags & (1 << 6)) == (1 << 6) && fits_extended_header)
     {
         // An extended header exists, retrieve its size
         // (unless only the tag header was provided)
-- 
2.43.0


From c8860a8dfd2da95d011125ae2e369afaadf9cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:16 +0000
Subject: [PATCH 27/29] fix: setting a cover from a file that can't be read
 crashed or stored garbage

---
 src/id3v2lib.compat.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index a716afe..b35e487 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -454,15 +454,25 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     int image_size;
     char* mimetype;
 
-    fseek(album_cover, 0, SEEK_END);
-    image_size = (int) ftell(album_cover);
-    fseek(album_cover, 0, SEEK_SET);
+    image_size = fseek(album_cover, 0, SEEK_END) == 0 ? (int) ftell(album_cover) : -1;
+
+    if (image_size < 0 || fseek(album_cover, 0, SEEK_SET) != 0)
+    {
+        fclose(album_cover);
+        return;
+    }
 
     album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+    const int bytes_read = fread(album_cover_bytes, sizeof(char), image_size, album_cover);
 
     fclose(album_cover);
 
+    if (bytes_read < image_size)
+    {
+        free(album_cover_bytes);
+        return;
+    }
+
     const char* extension = strrchr(filename, '.');
     mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
                                                                       : ID3v2_MIME_TYPE_JPG;
-- 
2.43.0


From 9f691157a35af2fc7073e7d0cab9c1f92c3e77d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 28/29] fix: a frame without a body in the last ten bytes of a
 tag was lost

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 8df0375..b77b432 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -69,7 +69,7 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     }
 
     ID3v2_Frame* current_frame;
-    while (tag_cs->cursor < tag->header->tag_size)
+    while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-- 
2.43.0


From 0117d0f48797cb25dd799093fb14f5b638b56cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 29/29] fix: reading a tag took time quadratic in its number of
 frames (minutes for 2 MB, hours for 10 MB)

---
 src/modules/frame_list.c | 4 +++-
 src/modules/tag.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 1adb9be..9d05947 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -78,12 +78,14 @@ ID3v2_Frame* FrameList_get_frame_by_id(ID3v2_FrameList* list, const char* frame_
 ID3v2_FrameList* FrameList_get_frames_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
     ID3v2_FrameList* sublist = FrameList_new();
+    ID3v2_FrameList* last = sublist; // so that the sublist isn't walked for every frame
 
     while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
-            FrameList_add_frame(sublist, list->frame);
+            FrameList_add_frame(last, list->frame);
+            if (last->next != NULL) last = last->next;
         }
 
         list = list->next;
diff --git a/src/modules/tag.c b/src/modules/tag.c
index b77b432..748b731 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -68,12 +68,14 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         );
     }
 
+    ID3v2_FrameList* last = tag->frames; // so that the whole list isn't walked for every frame
     ID3v2_Frame* current_frame;
     while (tag_cs->cursor < tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
-        FrameList_add_frame(tag->frames, current_frame);
+        FrameList_add_frame(last, current_frame);
+        if (last->next != NULL) last = last->next;
     }
 
     tag->padding_size = tag_cs->size - tag_cs->cursor;
-- 
2.43.0

