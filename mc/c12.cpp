// C12: string helpers convert and measure every string correctly.
#include "common.hpp"
#include <sys/mman.h>
#include <unistd.h>
using namespace m;

// The string ends exactly where a page does, and the next one cannot be touched.
struct Edge
{
    char* base;
    size_t len;
    char* p;
    Edge(const Str& s)
    {
        size_t page = sysconf(_SC_PAGESIZE), n = (s.size() + page - 1) / page * page;
        len = n + page;
        base = (char*) mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
        mprotect(base + n, page, PROT_NONE);
        p = base + n - s.size();
        memcpy(p, s.data(), s.size());
    }
    ~Edge() { munmap(base, len); }
};

// s includes its terminator and nothing else
static void measure(char* p, const Str& s, const char* where)
{
    bool bom = has_bom(s);
    int z = bom ? 2 : 1;
    int n = ID3v2_strlen(p), nt = ID3v2_strlent(p);
    CHECK(n == (int) s.size() - z, "strlen of [%s] is %d, expected %d (%s)", show(s).c_str(), n, (int) s.size() - z, where);
    CHECK(nt == (int) s.size(), "strlent of [%s] is %d, expected %d (%s)", show(s).c_str(), nt, (int) s.size(), where);
    char* u = ID3v2_to_unicode(p);
    if (bom)
        CHECK(u == p, "to_unicode of a unicode string does not return the same string [%s]", show(s).c_str());
    else
    {
        CHECK(u != p && u, "to_unicode of [%s] does not return a new string", show(s).c_str());
        Str want = "\xFF\xFE";
        for (size_t i = 0; i + 1 < s.size(); i++) want += Str(1, s[i]) + Str(1, '\0');
        want += Str(2, '\0');
        CHECK(!memcmp(u, want.data(), want.size()), "to_unicode of [%s] is wrong: [%s]", show(s).c_str(), show(Str(u, want.size())).c_str());
        CHECK(ID3v2_strlen(u) == (int) want.size() - 2, "strlen of the converted string is %d, expected %zu", ID3v2_strlen(u), want.size() - 2);
        CHECK(ID3v2_to_unicode(u) == u, "converting twice makes another string");
        free(u);
    }
    CHECK(!memcmp(p, s.data(), s.size()), "the string was changed");
    mc::step();
}

static void check_string(const Str& s, bool edge = true)
{
    mc::op("string [%s]", show(s).c_str());
    {
        In x(s);
        measure(x, s, "on the heap");
    }
    if (edge)
    {
        Edge e(s);
        measure(e.p, s, "at the end of a page");
    }
    mc::state(mc::hash(s));
    mc::outcome(s.size() * 2 + has_bom(s));
}

SPACE(C12, iso, "every string without mark of up to four (thorough: five) characters over twelve bytes that could be mistaken for something")
{
    static const char al[] = {'a', '\x01', '\xff', '\xfe', '\x7f', '\x80', 'Z', '\xef', '\n', ' ', '\xbf', '\xfd'};
    int n = mc::choose(mc::tier(5, 6));
    Str s;
    for (int i = 0; i < n; i++) s += mc::pick(al);
    if (has_bom(s)) return mc::skip();
    check_string(latin(s), n < 4);
}

SPACE(C12, pairs, "every string of one and two bytes: all 65535 of them, also as the first two of a longer one")
{
    int a = mc::choose(256), b = mc::choose(256);
    bool longer = mc::choose(2);
    if (a == 0) return mc::skip();
    Str s = Str(1, (char) a);
    if (b) s += (char) b;
    if (longer && b) s += "xyz";
    if (has_bom(s)) return mc::skip();
    check_string(latin(s), false);
}

SPACE(C12, unicode, "every string with either mark of up to five (thorough: six) code units made of zeros, marks and ordinary bytes: the terminator is the first zero unit, aligned")
{
    static const Str units[] = {Str("a\0", 2), Str("\0a", 2), Str("\xff\xfe", 2), Str("\xfe\xff", 2), Str("ab", 2), Str("\0\xff", 2), Str("\xff\0", 2)};
    Str s = mc::choose(2) ? "\xFE\xFF" : "\xFF\xFE";
    int n = mc::choose(mc::tier(6, 7));
    for (int i = 0; i < n; i++) s += mc::pick(units);
    check_string(s + Str(2, '\0'), n < 4);
}

SPACE(C12, units, "every code unit but zero after either mark, alone, twice and followed by an ordinary one")
{
    Str s = mc::choose(2) ? "\xFE\xFF" : "\xFF\xFE";
    int a = mc::choose(256), b = mc::choose(256);
    if (!a && !b) return mc::skip();
    Str u = Str(1, (char) a) + (char) b;
    s += u;
    int k = mc::choose(3);
    if (k == 1) s += u;
    if (k == 2) s += "zz";
    check_string(s + Str(2, '\0'), false);
}

SPACE(C12, lengths, "every length up to 4200 characters and around every power of two up to 2^16, in both encodings")
{
    static const std::vector<size_t> L = lengths(mc::tier(4200, 20000), false);
    size_t n = mc::pick(L);
    int k = mc::choose(4);
    check_string(k == 3 ? latin(Str(n, (char) 0xff)) : string_of(k, n));
}
