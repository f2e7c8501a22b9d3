// Stand-in for the absent submodule packages/sundown (apiaryio/sundown): the subset of its interface which
// packages/apib-parser/src/markdown-parser uses.  Written for /verif from the published behaviour of the parser, and
// validated against the repository's own Markdown and fixture tests (see DESIGN.md).
#ifndef VERIF_SHIM_SUNDOWN_MARKDOWN_H
#define VERIF_SHIM_SUNDOWN_MARKDOWN_H

#include <cstddef>
#include <cstdint>

extern "C" {

struct buf {
    uint8_t* data;
    size_t size;
    size_t asize;
    size_t unit;
};

struct buf* bufnew(size_t unit);
void bufrelease(struct buf*);

typedef struct range {
    size_t loc;
    size_t len;
} range;

typedef struct src_map {
    void** item;
    size_t size;
    size_t asize;
} src_map;

enum mkd_extensions
{
    MKDEXT_NO_INTRA_EMPHASIS = (1 << 0),
    MKDEXT_TABLES = (1 << 1),
    MKDEXT_FENCED_CODE = (1 << 2),
    MKDEXT_AUTOLINK = (1 << 3),
    MKDEXT_STRIKETHROUGH = (1 << 4),
    MKDEXT_SPACE_HEADERS = (1 << 6),
    MKDEXT_SUPERSCRIPT = (1 << 7),
    MKDEXT_LAX_SPACING = (1 << 8)
};

enum
{
    MKD_LIST_ORDERED = 1,
    MKD_LI_BLOCK = 2,
    MKD_LI_END = 8
};

struct sd_callbacks {
    void (*blockcode)(struct buf* ob, const struct buf* text, const struct buf* lang, void* opaque);
    void (*blockquote)(struct buf* ob, const struct buf* text, void* opaque);
    void (*blockhtml)(struct buf* ob, const struct buf* text, void* opaque);
    void (*header)(struct buf* ob, const struct buf* text, int level, void* opaque);
    void (*hrule)(struct buf* ob, void* opaque);
    void (*list)(struct buf* ob, const struct buf* text, int flags, void* opaque);
    void (*listitem)(struct buf* ob, const struct buf* text, int flags, void* opaque);
    void (*paragraph)(struct buf* ob, const struct buf* text, void* opaque);
    void (*table)(struct buf* ob, const struct buf* header, const struct buf* body, void* opaque);
    void (*table_row)(struct buf* ob, const struct buf* text, void* opaque);
    void (*table_cell)(struct buf* ob, const struct buf* text, int flags, void* opaque);

    void (*blockquote_begin)(void* opaque);
    void (*list_begin)(int flags, void* opaque);
    void (*listitem_begin)(int flags, void* opaque);

    void (*block_did_parse)(const src_map* map, const uint8_t* txt_data, size_t size, void* opaque);
};

struct sd_markdown;

struct sd_markdown* sd_markdown_new(
    unsigned int extensions, size_t max_nesting, const struct sd_callbacks* callbacks, void* opaque);
void sd_markdown_render(struct buf* ob, const uint8_t* document, size_t doc_size, struct sd_markdown* md);
void sd_markdown_free(struct sd_markdown* md);
}

#endif
