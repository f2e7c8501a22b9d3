// Decoding and encoding of UTF-8 against a table-free reference decoder
// (RFC 3629); buffers end exactly where the sequence ends, so that reading past
// the end is reported by the sanitizer.
#include "vh.h"
#include <algorithm>
#include "utils/Utf8.h"
#include "SourceMapUtils.h"
using vh::Case;
// the message is made only when it is needed
#define CHECK(cond, key, msg)                                                                                          \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            c.fail(key, msg);                                                                                          \
    } while (0)
#define EQ(got, want, key, msg)                                                                                        \
    do {                                                                                                               \
        if (!((got) == (want)))                                                                                        \
            c.eq(got, want, key, msg);                                                                                 \
    } while (0)
namespace u = drafter::utils::utf8;

namespace
{
    typedef std::vector<char> Bytes;

    std::string bytesOf(uint32_t c)
    {
        std::string s;
        if (c < 0x80)
            s += (char)c;
        else {
            int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : 3;
            s += (char)((n == 1 ? 0xC0 : n == 2 ? 0xE0 : 0xF0) + (c >> (6 * n)));
            while (n--)
                s += (char)(0x80 + ((c >> (6 * n)) % 64));
        }
        return s;
    }

    // how many bytes a sequence takes is determined by its first byte
    size_t unit(unsigned char lead)
    {
        return lead < 0x80 ? 1 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : 4;
    }
    // the character in exactly these bytes, or U+FFFD
    uint32_t decode(const std::string& s)
    {
        unsigned char l = s[0];
        size_t n = l < 0x80 ? 1 : l >= 0xC2 && l <= 0xDF ? 2 : l >= 0xE0 && l <= 0xEF ? 3 : l >= 0xF0 && l <= 0xF4 ? 4 : 0;
        if (n != s.size())
            return 0xFFFD;
        uint32_t c = n == 1 ? l : l & (0xFF >> (n + 1));
        for (size_t i = 1; i < n; i++) {
            unsigned char b = s[i];
            if (b < 0x80 || b > 0xBF)
                return 0xFFFD;
            c = c * 64 + (b - 0x80);
        }
        if (c > 0x10FFFF || (c >= 0xD800 && c <= 0xDFFF) || bytesOf(c) != s)
            return 0xFFFD;
        return c;
    }
    std::string hex(const std::string& s)
    {
        std::string o;
        char b[4];
        for (unsigned char c : s) {
            snprintf(b, sizeof b, "%02x ", c);
            o += b;
        }
        return o;
    }

    void whole(Case& c, const std::string& s)
    {
        Bytes v(s.begin(), s.end());
        v.shrink_to_fit();
        std::vector<uint32_t> want, got;
        std::vector<size_t> wantPos;
        for (size_t i = 0; i < s.size();) {
            size_t n = std::min(unit((unsigned char)s[i]), s.size() - i);
            want.push_back(decode(s.substr(i, n)));
            i += n;
            wantPos.push_back(i);
        }
        // one by one
        auto p = v.cbegin();
        size_t k = 0;
        while (p != v.cend()) {
            auto r = u::decode_one(p, v.cend());
            CHECK(k < want.size(), "too-many", "more characters than expected in " + hex(s));
            EQ(r.first, want[k], "decode", "character " + std::to_string(k) + " of " + hex(s));
            CHECK(r.second > p && r.second <= v.cend(), "progress", "the decoder advances and stays inside");
            EQ((size_t)(r.second - v.cbegin()), wantPos[k], "position", "position after character " + std::to_string(k) + " of " + hex(s));
            p = r.second;
            k++;
        }
        EQ(k, want.size(), "too-few", "characters in " + hex(s));
        EQ(u::decode_one(v.cend(), v.cend()).first, u::invalid, "end", "decoding nothing");
        // by the iterator
        typedef u::input_iterator<Bytes::const_iterator> It;
        It it{ v.cbegin(), v.cend() }, end{ v.cend(), v.cend() }, all{ v };
        CHECK(it == all, "iterator", "iterator of the container starts at its beginning");
        size_t i = 0;
        for (; it != end && i < want.size(); ++it, ++i) {
            EQ(*it, want[i], "iterator", "character " + std::to_string(i) + " of " + hex(s));
            It before = all++;
            CHECK(before == it, "postfix", "the postfix increment yields the former position");
            EQ(*before.operator->(), want[i], "arrow", "character");
        }
        CHECK(i == want.size() && it == end && all == end, "iterator-end", "the iterator ends with the sequence");
        size_t bad = (size_t)std::count(want.begin(), want.end(), 0xFFFDu);
        c.saw("replaced", bad);
        c.saw("decoded", want.size() - bad);
    }

    void exhaustive(Case& c) // 256 characters each, 4352 cases cover all of them
    {
        uint32_t block = (uint32_t)((c.index / 3) % 0x1100);
        c << "characters " << std::hex << block * 256 << ".." << block * 256 + 255;
        std::string all;
        for (uint32_t k = block * 256; k < block * 256 + 256; k++) {
            std::string b = bytesOf(k), e;
            u::encode(k, std::back_inserter(e));
            EQ(e, b, "encode", "encoding of " + std::to_string(k));
            Bytes v(b.begin(), b.end());
            v.shrink_to_fit();
            auto r = u::decode_one(v.cbegin(), v.cend());
            bool surrogate = k >= 0xD800 && k <= 0xDFFF;
            EQ(r.first, surrogate ? 0xFFFD : k, "decode", "decoding of " + hex(b));
            CHECK(r.second == v.cend(), "length", "all bytes are taken");
            for (size_t cut = 1; cut < b.size(); cut++) { // truncated
                Bytes t(b.begin(), b.begin() + cut);
                t.shrink_to_fit();
                auto q = u::decode_one(t.cbegin(), t.cend());
                CHECK(q.first == 0xFFFD && q.second == t.cend(), "truncated", "truncated sequence " + hex(b.substr(0, cut)));
            }
            all += b;
        }
        whole(c, all);
        c.mark(std::to_string(block));
    }

    void pairs(Case& c) // every sequence of two bytes: 4096 cases
    {
        unsigned a = (unsigned)((c.index / 3) % 256), b = (unsigned)((c.index / 768) % 16) * 16;
        c << "two bytes, the first " << a << ", the second from " << b;
        for (unsigned k = 0; k < 16; k++)
            whole(c, std::string{ (char)a, (char)(b + k) });
        c.mark(std::to_string(a) + " " + std::to_string(b));
    }

    void hostile(Case& c)
    {
        static const unsigned char edge[] = { 0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1,
            0xf4, 0xf5, 0xf7, 0xf8, 0xfe, 0xff, 0x9f, 0xa0, 0x90, 0x8f, 0x0a };
        for (int k = 0; k < 40; k++) {
            std::string s;
            int n = c.rng.range(0, 9);
            for (int i = 0; i < n; i++) {
                int w = (int)c.rng.below(10);
                if (w < 4)
                    s += (char)edge[c.rng.below(sizeof edge)];
                else if (w < 5)
                    s += (char)c.rng.below(256);
                else {
                    std::string b = bytesOf((uint32_t)(w < 7 ? c.rng.below(0x110000) : c.rng.below(0x900)));
                    if (c.rng.chance(15))
                        b[c.rng.below(b.size())] ^= (char)(1 << c.rng.below(8));
                    if (c.rng.chance(10))
                        b.erase(c.rng.below(b.size()));
                    s += b;
                }
            }
            whole(c, s);
            c.mark(s);
            if (!k)
                c << hex(s);
        }
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "exhaustive", 1, exhaustive }, { "pairs", 1, pairs }, { "hostile", 1, hostile } });
}
