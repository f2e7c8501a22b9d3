// See markdown.h.  Every working buffer carries, for each of its bytes, the offset of that byte in the document, so the
// source map of a block is the run-length form of those offsets.
#include "markdown.h"

#include <cctype>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <strings.h>

namespace
{
    struct Text {
        std::string bytes;
        std::vector<size_t> origin;

        void put(unsigned char c, size_t o)
        {
            bytes.push_back(static_cast<char>(c));
            origin.push_back(o);
        }
        size_t size() const
        {
            return bytes.size();
        }
    };

    // A read-only window on a Text.
    struct View {
        const Text* text;
        size_t off;
        size_t len;

        unsigned char operator[](size_t i) const
        {
            return static_cast<unsigned char>(text->bytes[off + i]);
        }
        size_t origin(size_t i) const
        {
            return text->origin[off + i];
        }
        View from(size_t i) const
        {
            return View{ text, off + i, len - i };
        }
        View head(size_t n) const
        {
            return View{ text, off, n };
        }
        std::string str(size_t b, size_t e) const
        {
            return text->bytes.substr(off + b, e - b);
        }
    };

    bool space_(unsigned char c)
    {
        return c == ' ' || c == '\n';
    }

    size_t is_empty(const View& d)
    {
        size_t i;
        for (i = 0; i < d.len && d[i] != '\n'; ++i)
            if (d[i] != ' ')
                return 0;
        return i + 1;
    }

    bool is_hrule(const View& d)
    {
        size_t i = 0, n = 0;
        if (d.len < 3)
            return false;
        while (i < 3 && d[i] == ' ')
            ++i;
        if (i + 2 >= d.len || !(d[i] == '*' || d[i] == '-' || d[i] == '_'))
            return false;
        const unsigned char c = d[i];
        while (i < d.len && d[i] != '\n') {
            if (d[i] == c)
                ++n;
            else if (d[i] != ' ')
                return false;
            ++i;
        }
        return n >= 3;
    }

    size_t prefix_codefence(const View& d)
    {
        size_t i = 0, n = 0;
        if (d.len < 3)
            return 0;
        while (i < 3 && d[i] == ' ')
            ++i;
        if (i + 2 >= d.len || !(d[i] == '~' || d[i] == '`'))
            return 0;
        const unsigned char c = d[i];
        while (i < d.len && d[i] == c) {
            ++n;
            ++i;
        }
        return n < 3 ? 0 : i;
    }

    size_t is_codefence(const View& d, std::string* syntax)
    {
        size_t i = prefix_codefence(d);
        if (i == 0)
            return 0;
        while (i < d.len && d[i] == ' ')
            ++i;
        std::string syn;
        if (i < d.len && d[i] == '{') {
            ++i;
            size_t b = i;
            while (i < d.len && d[i] != '}' && d[i] != '\n')
                ++i;
            if (i == d.len || d[i] != '}')
                return 0;
            syn = d.str(b, i);
            while (!syn.empty() && space_(syn.front()))
                syn.erase(0, 1);
            while (!syn.empty() && space_(syn.back()))
                syn.pop_back();
            ++i;
        } else {
            size_t b = i;
            while (i < d.len && !space_(d[i]))
                ++i;
            syn = d.str(b, i);
        }
        if (syntax)
            *syntax = syn;
        while (i < d.len && d[i] != '\n') {
            if (!space_(d[i]))
                return 0;
            ++i;
        }
        return i + 1;
    }

    int is_headerline(const View& d)
    {
        size_t i = 0;
        if (d[i] == '=') {
            for (i = 1; i < d.len && d[i] == '='; ++i)
                ;
            while (i < d.len && d[i] == ' ')
                ++i;
            return (i >= d.len || d[i] == '\n') ? 1 : 0;
        }
        if (d[i] == '-') {
            for (i = 1; i < d.len && d[i] == '-'; ++i)
                ;
            while (i < d.len && d[i] == ' ')
                ++i;
            return (i >= d.len || d[i] == '\n') ? 2 : 0;
        }
        return 0;
    }

    bool is_next_headerline(const View& d)
    {
        size_t i = 0;
        while (i < d.len && d[i] != '\n')
            ++i;
        if (++i >= d.len)
            return false;
        return is_headerline(d.from(i)) != 0;
    }

    size_t lead(const View& d)
    {
        size_t i = 0;
        while (i < 3 && i < d.len && d[i] == ' ')
            ++i;
        return i;
    }

    size_t prefix_quote(const View& d)
    {
        size_t i = lead(d);
        if (i < d.len && d[i] == '>')
            return (i + 1 < d.len && d[i + 1] == ' ') ? i + 2 : i + 1;
        return 0;
    }

    size_t prefix_code(const View& d)
    {
        return (d.len > 3 && d[0] == ' ' && d[1] == ' ' && d[2] == ' ' && d[3] == ' ') ? 4 : 0;
    }

    size_t prefix_oli(const View& d)
    {
        size_t i = lead(d);
        if (i >= d.len || d[i] < '0' || d[i] > '9')
            return 0;
        while (i < d.len && d[i] >= '0' && d[i] <= '9')
            ++i;
        if (i + 1 >= d.len || d[i] != '.' || d[i + 1] != ' ')
            return 0;
        if (is_next_headerline(d.from(i)))
            return 0;
        return i + 2;
    }

    size_t prefix_uli(const View& d)
    {
        size_t i = lead(d);
        if (i + 1 >= d.len || (d[i] != '*' && d[i] != '+' && d[i] != '-') || d[i + 1] != ' ')
            return 0;
        if (is_next_headerline(d.from(i)))
            return 0;
        return i + 2;
    }

    const char* find_block_tag(const std::string& name)
    {
        static const char* const tags[] = { "p", "dl", "div", "math", "table", "ul", "del", "form", "blockquote",
            "figure", "ol", "fieldset", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "script", "ins", "noscript",
            "iframe", "style" };
        for (const char* t : tags)
            if (std::strlen(t) == name.size() && strcasecmp(t, name.c_str()) == 0)
                return t;
        return nullptr;
    }

    size_t htmlblock_end_tag(const std::string& tag, const View& d)
    {
        const size_t n = tag.size();
        if (n + 3 >= d.len || strncasecmp(d.str(2, 2 + n).c_str(), tag.c_str(), n) != 0 || d[n + 2] != '>')
            return 0;
        size_t i = n + 3, w = 0;
        if (i < d.len && (w = is_empty(d.from(i))) == 0)
            return 0;
        i += w;
        w = 0;
        if (i < d.len)
            w = is_empty(d.from(i));
        return i + w;
    }

    size_t htmlblock_end(const std::string& tag, const View& d, bool start_of_line)
    {
        size_t i = 1;
        int block_lines = 0;
        while (i < d.len) {
            ++i;
            while (i < d.len && !(d[i - 1] == '<' && d[i] == '/')) {
                if (d[i] == '\n')
                    ++block_lines;
                ++i;
            }
            if (start_of_line && block_lines > 0 && d[i - 2] != '\n')
                continue;
            if (i + 2 + tag.size() >= d.len)
                break;
            size_t e = htmlblock_end_tag(tag, d.from(i - 1));
            if (e)
                return i + e - 1;
        }
        return 0;
    }

    struct OutBuf {
        std::string s;
        buf b;
        explicit OutBuf(std::string str) : s(std::move(str))
        {
            b.data = s.empty() ? nullptr : reinterpret_cast<uint8_t*>(&s[0]);
            b.size = s.size();
            b.asize = s.size();
            b.unit = 64;
        }
    };
}

struct sd_markdown {
    sd_callbacks cb;
    void* opaque;
    unsigned ext;
    size_t max_nesting;
    size_t depth = 0;
    buf* ob = nullptr;

    struct Nest {
        size_t& d;
        size_t n;
        Nest(size_t& depth, size_t by) : d(depth), n(by)
        {
            d += n;
        }
        ~Nest()
        {
            d -= n;
        }
    };

    void did_parse(const View& d, size_t beg, size_t end)
    {
        if (!cb.block_did_parse)
            return;
        if (end > d.len)
            end = d.len;
        if (beg >= end)
            return;
        std::vector<range> ranges;
        for (size_t i = beg; i < end; ++i) {
            const size_t o = d.origin(i);
            if (!ranges.empty() && ranges.back().loc + ranges.back().len == o)
                ++ranges.back().len;
            else
                ranges.push_back(range{ o, 1 });
        }
        std::vector<void*> items;
        for (auto& r : ranges)
            items.push_back(&r);
        src_map m{ items.data(), items.size(), items.size() };
        std::string copy = d.str(beg, end);
        cb.block_did_parse(&m, reinterpret_cast<const uint8_t*>(copy.data()), copy.size(), opaque);
    }

    std::string inline_(const View& d, size_t b, size_t e)
    {
        std::string out;
        if (depth > max_nesting)
            return out;
        static const char* const escapable = "\\`*_{}[]()#+-.!:|&<>^~";
        for (size_t i = b; i < e;) {
            if (d[i] == '\\') {
                if (i + 1 < e) {
                    if (d[i + 1] && std::strchr(escapable, d[i + 1])) {
                        out.push_back(static_cast<char>(d[i + 1]));
                        i += 2;
                        continue;
                    }
                }
            }
            out.push_back(static_cast<char>(d[i]));
            ++i;
        }
        return out;
    }

    size_t atxheader(const View& d)
    {
        size_t level = 0, i, end;
        while (level < d.len && level < 6 && d[level] == '#')
            ++level;
        for (i = level; i < d.len && d[i] == ' '; ++i)
            ;
        for (end = i; end < d.len && d[end] != '\n'; ++end)
            ;
        const size_t skip = end;
        while (end && d[end - 1] == '#')
            --end;
        while (end && d[end - 1] == ' ')
            --end;
        if (end > i) {
            Nest n(depth, 1);
            OutBuf w(inline_(d, i, end));
            if (cb.header)
                cb.header(ob, &w.b, static_cast<int>(level), opaque);
        }
        return skip;
    }

    size_t htmlblock(const View& d, bool render)
    {
        size_t i = 1, j = 0;
        if (d.len < 2 || d[0] != '<')
            return 0;
        while (i < d.len && d[i] != '>' && d[i] != ' ')
            ++i;
        const char* tag = nullptr;
        if (i < d.len)
            tag = find_block_tag(d.str(1, i));

        size_t end = 0;
        if (!tag) {
            if (d.len > 5 && d[1] == '!' && d[2] == '-' && d[3] == '-') {
                i = 5;
                while (i < d.len && !(d[i - 2] == '-' && d[i - 1] == '-' && d[i] == '>'))
                    ++i;
                ++i;
                if (i < d.len)
                    j = is_empty(d.from(i));
                if (j)
                    end = i + j;
            }
            if (!end && d.len > 4 && (d[1] == 'h' || d[1] == 'H') && (d[2] == 'r' || d[2] == 'R')) {
                i = 3;
                while (i < d.len && d[i] != '>')
                    ++i;
                if (i + 1 < d.len) {
                    ++i;
                    j = is_empty(d.from(i));
                    if (j)
                        end = i + j;
                }
            }
        } else {
            end = htmlblock_end(tag, d, true);
            if (!end && std::strcmp(tag, "ins") != 0 && std::strcmp(tag, "del") != 0)
                end = htmlblock_end(tag, d, false);
        }
        if (!end)
            return 0;
        if (end > d.len)
            end = d.len;
        if (render && cb.blockhtml) {
            OutBuf w(d.str(0, end));
            cb.blockhtml(ob, &w.b, opaque);
        }
        return end;
    }

    size_t fencedcode(const View& d)
    {
        std::string lang;
        size_t beg = is_codefence(d, &lang), end;
        if (beg == 0)
            return 0;
        std::string work;
        while (beg < d.len) {
            std::string trail;
            size_t fe = is_codefence(d.from(beg), &trail);
            if (fe != 0 && trail.empty()) {
                beg += fe;
                break;
            }
            for (end = beg + 1; end < d.len && d[end - 1] != '\n'; ++end)
                ;
            if (is_empty(d.from(beg).head(end - beg)))
                work.push_back('\n');
            else
                work += d.str(beg, end);
            beg = end;
        }
        if (!work.empty() && work.back() != '\n')
            work.push_back('\n');
        if (cb.blockcode) {
            OutBuf w(work), l(lang);
            cb.blockcode(ob, &w.b, lang.empty() ? nullptr : &l.b, opaque);
        }
        return beg;
    }

    size_t blockcode(const View& d)
    {
        size_t beg = 0, end;
        std::string work;
        while (beg < d.len) {
            for (end = beg + 1; end < d.len && d[end - 1] != '\n'; ++end)
                ;
            size_t pre = prefix_code(d.from(beg).head(end - beg));
            if (pre)
                beg += pre;
            else if (!is_empty(d.from(beg).head(end - beg)))
                break;
            if (beg < end) {
                if (is_empty(d.from(beg).head(end - beg)))
                    work.push_back('\n');
                else
                    work += d.str(beg, end);
            }
            beg = end;
        }
        while (!work.empty() && work.back() == '\n')
            work.pop_back();
        work.push_back('\n');
        if (cb.blockcode) {
            OutBuf w(work);
            cb.blockcode(ob, &w.b, nullptr, opaque);
        }
        return beg;
    }

    size_t blockquote(const View& d)
    {
        size_t beg = 0, end = 0;
        Text work;
        while (beg < d.len) {
            for (end = beg + 1; end < d.len && d[end - 1] != '\n'; ++end)
                ;
            View line = d.from(beg).head(end - beg);
            size_t pre = prefix_quote(line);
            if (pre)
                beg += pre;
            else if (is_empty(line)
                && (end >= d.len || (prefix_quote(d.from(end)) == 0 && !is_empty(d.from(end)))))
                break;
            for (size_t k = beg; k < end; ++k)
                work.put(d[k], d.origin(k));
            beg = end;
        }
        if (cb.blockquote_begin)
            cb.blockquote_begin(opaque);
        {
            Nest n(depth, 1);
            block(View{ &work, 0, work.size() });
        }
        if (cb.blockquote) {
            OutBuf w("");
            cb.blockquote(ob, &w.b, opaque);
        }
        return end;
    }

    size_t listitem(const View& d, int& flags)
    {
        size_t beg = 0, end, pre, sublist = 0, orgpre = 0, i;
        bool in_empty = false, in_fence = false;
        size_t empty_origin = 0;

        while (orgpre < 3 && orgpre < d.len && d[orgpre] == ' ')
            ++orgpre;

        beg = prefix_uli(d);
        if (!beg)
            beg = prefix_oli(d);
        if (!beg)
            return 0;

        end = beg;
        while (end < d.len && d[end - 1] != '\n')
            ++end;

        Text work;
        for (size_t k = beg; k < end; ++k)
            work.put(d[k], d.origin(k));
        beg = end;

        while (beg < d.len) {
            size_t has_uli = 0, has_oli = 0;
            ++end;
            while (end < d.len && d[end - 1] != '\n')
                ++end;

            if (is_empty(d.from(beg).head(end - beg))) {
                if (!in_empty)
                    empty_origin = d.origin(beg);
                in_empty = true;
                beg = end;
                continue;
            }

            i = 0;
            while (i < 4 && beg + i < end && d[beg + i] == ' ')
                ++i;
            pre = i;

            View rest = d.from(beg + i).head(end - beg - i);

            if (is_codefence(rest, nullptr) != 0)
                in_fence = !in_fence;

            if (!in_fence) {
                has_uli = prefix_uli(rest);
                has_oli = prefix_oli(rest);
            }

            if (in_empty && (((flags & MKD_LIST_ORDERED) && has_uli) || (!(flags & MKD_LIST_ORDERED) && has_oli))) {
                flags |= MKD_LI_END;
                break;
            }

            if ((has_uli && !is_hrule(rest)) || has_oli) {
                if (pre <= orgpre)
                    break;
                if (!sublist)
                    sublist = work.size();
            } else if (in_empty && pre == 0) {
                flags |= MKD_LI_END;
                break;
            } else if (in_empty) {
                work.put('\n', empty_origin);
            }

            in_empty = false;

            for (size_t k = beg + i; k < end; ++k)
                work.put(d[k], d.origin(k));
            beg = end;
        }

        flags |= MKD_LI_BLOCK;

        if (cb.listitem_begin)
            cb.listitem_begin(flags, opaque);
        {
            Nest n(depth, 2);
            View all{ &work, 0, work.size() };
            if (sublist && sublist < work.size()) {
                block(all.head(sublist));
                block(all.from(sublist));
            } else {
                block(all);
            }
        }
        if (cb.listitem) {
            OutBuf w("");
            cb.listitem(ob, &w.b, flags, opaque);
        }
        did_parse(d, 0, beg);
        return beg;
    }

    size_t list(const View& d, int flags)
    {
        size_t i = 0;
        if (cb.list_begin)
            cb.list_begin(flags, opaque);
        {
            Nest n(depth, 1);
            while (i < d.len) {
                size_t j = listitem(d.from(i), flags);
                i += j;
                if (!j || (flags & MKD_LI_END))
                    break;
            }
        }
        if (cb.list) {
            OutBuf w("");
            cb.list(ob, &w.b, flags, opaque);
        }
        return i;
    }

    size_t paragraph(const View& d)
    {
        size_t i = 0, end = 0;
        int level = 0;
        while (i < d.len) {
            for (end = i + 1; end < d.len && d[end - 1] != '\n'; ++end)
                ;
            View at = d.from(i);
            if (is_empty(at))
                break;
            if ((level = is_headerline(at)) != 0)
                break;
            if (at[0] == '#' || is_hrule(at) || prefix_quote(at)) {
                end = i;
                break;
            }
            if (!std::isalnum(at[0])) {
                if (prefix_oli(at) || prefix_uli(at)) {
                    end = i;
                    break;
                }
                if (at[0] == '<' && cb.blockhtml && htmlblock(at, false)) {
                    end = i;
                    break;
                }
                if (is_codefence(at, nullptr) != 0) {
                    end = i;
                    break;
                }
            }
            i = end;
        }

        size_t wb = 0, we = i;
        while (we && d[we - 1] == '\n')
            --we;

        if (!level) {
            Nest n(depth, 1);
            OutBuf w(inline_(d, wb, we));
            if (cb.paragraph)
                cb.paragraph(ob, &w.b, opaque);
        } else {
            if (we) {
                const size_t whole = we;
                --we;
                while (we && d[we] != '\n')
                    --we;
                const size_t beg = we + 1;
                while (we && d[we - 1] == '\n')
                    --we;
                if (we > 0) {
                    Nest n(depth, 1);
                    OutBuf w(inline_(d, 0, we));
                    if (cb.paragraph)
                        cb.paragraph(ob, &w.b, opaque);
                    wb = beg;
                    we = whole;
                } else {
                    we = whole;
                }
            }
            Nest n(depth, 1);
            OutBuf w(inline_(d, wb, we));
            if (cb.header)
                cb.header(ob, &w.b, level, opaque);
        }
        return end;
    }

    void block(const View& d)
    {
        if (depth > max_nesting)
            return;
        size_t beg = 0, i = 0;
        while (beg < d.len) {
            const size_t start = beg;
            View at = d.from(beg);
            if (at[0] == '#')
                beg += atxheader(at);
            else if (at[0] == '<' && cb.blockhtml && (i = htmlblock(at, true)) != 0)
                beg += i;
            else if ((i = is_empty(at)) != 0)
                beg += i;
            else if (is_hrule(at)) {
                if (cb.hrule)
                    cb.hrule(ob, opaque);
                while (beg < d.len && d[beg] != '\n')
                    ++beg;
                ++beg;
            } else if ((i = fencedcode(at)) != 0)
                beg += i;
            else if (prefix_quote(at))
                beg += blockquote(at);
            else if (prefix_code(at))
                beg += blockcode(at);
            else if (prefix_uli(at))
                beg += list(at, 0);
            else if (prefix_oli(at))
                beg += list(at, MKD_LIST_ORDERED);
            else
                beg += paragraph(at);
            did_parse(d, start, beg);
        }
    }
};

extern "C" {

struct buf* bufnew(size_t unit)
{
    return new buf{ nullptr, 0, 0, unit };
}

void bufrelease(struct buf* b)
{
    delete b;
}

struct sd_markdown* sd_markdown_new(
    unsigned int extensions, size_t max_nesting, const struct sd_callbacks* callbacks, void* opaque)
{
    auto* md = new sd_markdown;
    md->cb = *callbacks;
    md->opaque = opaque;
    md->ext = extensions;
    md->max_nesting = max_nesting;
    return md;
}

void sd_markdown_free(struct sd_markdown* md)
{
    delete md;
}

void sd_markdown_render(struct buf* ob, const uint8_t* document, size_t doc_size, struct sd_markdown* md)
{
    Text text;
    size_t beg = 0;
    if (doc_size >= 3 && std::memcmp(document, "\xEF\xBB\xBF", 3) == 0)
        beg = 3;

    size_t column = 0;
    for (; beg < doc_size; ++beg) {
        const uint8_t c = document[beg];
        if (c == '\n' || c == '\r') {
            column = 0;
            if (c == '\n' || (beg + 1 < doc_size && document[beg + 1] != '\n'))
                text.put('\n', beg);
        } else if (c == '\t') {
            do {
                text.put(' ', beg);
                ++column;
            } while (column % 4);
        } else {
            text.put(c, beg);
            ++column;
        }
    }

    if (text.size()) {
        if (text.bytes.back() != '\n')
            text.put('\n', doc_size);
        md->ob = ob;
        md->depth = 0;
        md->block(View{ &text, 0, text.size() });
    }
}
}
