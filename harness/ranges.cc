// Ranges of bytes and of characters over a text, against a plain list of the
// text's characters.
#include "vh.h"
#include <algorithm>
#include "ByteBuffer.h"
using vh::Case;
using namespace mdp;

namespace
{
    struct Text {
        std::string bytes;
        std::vector<size_t> at; // where each character begins, and the end
        size_t chars() const
        {
            return at.size() - 1;
        }
        size_t charOf(size_t byte) const // the character that contains the byte
        {
            return (size_t)(std::upper_bound(at.begin(), at.end(), byte) - at.begin()) - 1;
        }
    };

    Text makeText(Case& c, int max)
    {
        static const char* const ch[] = { "a", "Z", " ", "\n", "\t", "~", "\x7f", "\x01", "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80",
            "\xe2\x82\xac", "\xed\x9f\xbf", "\xef\xbb\xbf", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf", "\r\n" + 0 };
        Text t;
        int n = c.rng.range(0, max);
        int style = c.rng.range(0, 3); // mostly ASCII, mixed, only wide
        for (int i = 0; i < n; i++) {
            size_t lo = style == 2 ? 8 : 0, hi = style == 0 ? 8 : 19;
            const char* s = ch[lo + c.rng.below(hi - lo)];
            t.at.push_back(t.bytes.size());
            t.bytes += s;
        }
        t.at.push_back(t.bytes.size());
        return t;
    }

    template <typename S>
    std::string show(const S& s)
    {
        std::string o;
        for (auto& r : s)
            o += std::to_string(r.location) + ":" + std::to_string(r.length) + " ";
        return o;
    }

    std::string copyExact(const std::string& s)
    {
        std::string t(s);
        t.shrink_to_fit();
        return t;
    }

    void index(Case& c)
    {
        Text t = makeText(c, 60);
        std::string b = copyExact(t.bytes);
        c << vh::quote(b);
        ByteBufferCharacterIndex idx;
        if (c.rng.chance(30))
            idx.assign((size_t)c.rng.range(0, 80), 7); // what was in it before does not matter
        BuildCharacterIndex(idx, b);
        c.eq(idx.size(), b.size(), "index-size", "size of the index");
        for (size_t i = 0; i < b.size(); i++)
            c.eq(idx[i], t.charOf(i), "index", "character of byte " + std::to_string(i));
        c.saw("bytes", b.size());
        if (t.chars() != b.size())
            c.mark(b);
    }

    void aligned(Case& c)
    {
        Text t = makeText(c, 40);
        std::string b = copyExact(t.bytes);
        c << vh::quote(b);
        ByteBufferCharacterIndex idx;
        BuildCharacterIndex(idx, b);
        BytesRangeSet set;
        std::string want, text;
        int n = c.rng.range(0, 5);
        for (int i = 0; i < n; i++) {
            size_t a = (size_t)c.rng.below(t.at.size()), e = a + (size_t)c.rng.below(t.at.size() - a);
            size_t len = t.at[e] - t.at[a];
            if (c.rng.chance(8)) { // to the end, and beyond it
                e = t.chars();
                len = t.bytes.size() - t.at[a] + c.rng.below(5);
            }
            set.push_back(BytesRange(t.at[a], len));
            if (!b.empty())
                want += std::to_string(a) + ":" + std::to_string(e - a) + " ";
            else
                want += "0:0 ";
        }
        c << " ranges " << show(set);
        auto byBuffer = BytesRangeSetToCharactersRangeSet(set, b);
        auto byIndex = BytesRangeSetToCharactersRangeSet(set, idx);
        c.eq(show(byBuffer), want, "characters", "character ranges counted in the text");
        c.eq(show(byIndex), want, "characters-by-index", "character ranges looked up in the index");
        auto one = BytesRangeSetToConsecutiveCharactersRangeSet(set, idx);
        c.check(one.size() == (set.empty() ? 0u : 1u), "consecutive", "one range stands for a set of ranges");
        c.saw("ranges", n);
        if (n && !b.empty())
            c.mark(b + "|" + show(set));
    }

    // ranges which do not respect characters, and bytes which are no characters
    void hostile(Case& c)
    {
        Text t = makeText(c, 12);
        std::string b = t.bytes;
        bool valid = true;
        if (c.rng.chance(50)) {
            valid = false;
            int n = c.rng.range(1, 4);
            for (int i = 0; i < n; i++)
                b.insert(c.rng.below(b.size() + 1), 1, (char)c.rng.range(0x80, 0xff));
            if (c.rng.chance(50) && !b.empty())
                b.erase(b.size() - 1);
        }
        b = copyExact(b);
        c << vh::quote(b);
        std::vector<char> exact(b.begin(), b.end()); // for the sanitizer
        ByteBufferCharacterIndex idx;
        BuildCharacterIndex(idx, b);
        c.eq(idx.size(), b.size(), "index-size", "size of the index");
        for (size_t i = 1; i < idx.size(); i++)
            c.check(idx[i] == idx[i - 1] || idx[i] == idx[i - 1] + 1, "index-steps", "the index grows by single steps");
        BytesRangeSet set;
        int n = c.rng.range(1, 5);
        for (int i = 0; i < n; i++) {
            size_t a = c.rng.below(b.size() + 3), l = c.rng.below(b.size() + 3);
            if (c.rng.chance(5))
                l = (size_t)-1 - c.rng.below(3);
            if (c.rng.chance(5))
                a = (size_t)-1 - c.rng.below(3);
            set.push_back(BytesRange(a, l));
        }
        c << " ranges " << show(set);
        auto byIndex = BytesRangeSetToCharactersRangeSet(set, idx);
        auto byBuffer = BytesRangeSetToCharactersRangeSet(set, b);
        c.check(byIndex.size() == set.size() && byBuffer.size() == set.size(), "one-to-one", "every range is converted");
        size_t total = idx.empty() ? 0 : idx.back() + 1;
        for (auto& r : byIndex) {
            c.check(r.location <= total, "within", "the range begins inside the text: " + show(byIndex));
            c.check(r.length <= total - r.location, "within", "the range ends inside the text: " + show(byIndex));
        }
        for (auto& r : byBuffer)
            c.check(r.location <= b.size() && r.length <= b.size(), "within", "the range is inside the text: " + show(byBuffer));
        (void)valid;
        c.saw("hostile_ranges", n);
        c.mark(b + "|" + show(set));
    }

    void map(Case& c)
    {
        Text t = makeText(c, 30);
        const std::string b = copyExact(t.bytes);
        c << vh::quote(b);
        BytesRangeSet set;
        std::string want;
        int n = c.rng.range(0, 5);
        bool cut = false, wrong = false;
        for (int i = 0; i < n; i++) {
            size_t a = c.rng.below(b.size() + 1), l = c.rng.below(b.size() - a + 1);
            if (c.rng.chance(10)) // a newline was added to the text when it was parsed
                l = b.size() - a + 1;
            else if (c.rng.chance(5))
                l = b.size() - a + 2 + c.rng.below(4);
            set.push_back(BytesRange(a, l));
            if (cut || wrong)
                continue;
            if (a + l > b.size() + 1)
                wrong = true;
            else {
                cut = a + l > b.size();
                want += b.substr(a, l);
            }
        }
        if (wrong || b.empty())
            want.clear();
        c << " ranges " << show(set);
        c.eq(MapBytesRangeSet(set, b), want, "text", "text of the ranges");
        c.saw("mapped");
        if (n)
            c.mark(b + "|" + show(set));
    }

    void append(Case& c)
    {
        std::vector<std::pair<size_t, size_t> > model;
        BytesRangeSet set;
        std::string ops;
        size_t next = c.rng.below(10), covered = 0;
        int n = c.rng.range(1, 12);
        for (int i = 0; i < n; i++) {
            BytesRangeSet add;
            int k = c.rng.range(0, 3);
            std::vector<std::pair<size_t, size_t> > what;
            for (int j = 0; j < k; j++) {
                if (c.rng.chance(50))
                    next += c.rng.below(5);
                size_t len = c.rng.below(6);
                if (c.rng.chance(5))
                    next = c.rng.below(20); // ranges are not always ordered
                add.push_back(BytesRange(next, len));
                what.emplace_back(next, len);
                next += len;
                covered += len;
            }
            ops += "+" + show(add);
            for (size_t j = 0; j < what.size(); j++) {
                if (!j && !model.empty() && model.back().first + model.back().second == what[j].first)
                    model.back().second += what[j].second;
                else
                    model.push_back(what[j]);
            }
            set.append(add);
            size_t sum = 0;
            c.eq(set.size(), model.size(), "append-size", "number of ranges after " + ops + ": " + show(set));
            for (size_t j = 0; j < model.size(); j++) {
                c.check(set[j].location == model[j].first && set[j].length == model[j].second, "append", "ranges after " + ops + ": " + show(set));
                sum += set[j].length;
            }
            c.eq(sum, covered, "conserved", "length of all ranges after " + ops);
            c.saw("appended");
        }
        c << ops;
        c.mark(ops);
    }
}

int main(int argc, char** argv)
{
    return vh::run(argc, argv, { { "index", 1, index }, { "aligned", 2, aligned }, { "hostile", 2, hostile }, { "map", 2, map }, { "append", 1, append } });
}
