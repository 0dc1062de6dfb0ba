// C10: CSV writer.
#include "mc.hpp"
#include <fiction/io/csv_writer.hpp>
#include <sstream>
#include <string>

using namespace fiction;

struct field
{
    int kind;
};
static std::string txt(int k)
{
    switch (k)
    {
        case 0: return "a b";
        case 1: return "-17";
        case 2: return "2.5";
        case 3: return "x";
        case 4: return "";
        case 5: return "18446744073709551615";
        case 6: return "1";
        default: return "lit";
    }
}
// calls write_line with the field kinds chosen by the explorer
template <class... A>
static void emit(mc::ctx& c, csv_writer& w, const std::vector<int>& ks, std::size_t i, A&&... a)
{
    if constexpr (sizeof...(A) < 3)
    {
        if (i < ks.size())
        {
            switch (ks[i])
            {
                case 0: emit(c, w, ks, i + 1, std::forward<A>(a)..., std::string{"a b"}); return;
                case 1: emit(c, w, ks, i + 1, std::forward<A>(a)..., -17); return;
                case 2: emit(c, w, ks, i + 1, std::forward<A>(a)..., 2.5); return;
                case 3: emit(c, w, ks, i + 1, std::forward<A>(a)..., 'x'); return;
                case 4: emit(c, w, ks, i + 1, std::forward<A>(a)..., ""); return;
                case 5: emit(c, w, ks, i + 1, std::forward<A>(a)..., static_cast<uint64_t>(~0ull)); return;
                case 6: emit(c, w, ks, i + 1, std::forward<A>(a)..., true); return;
                default: emit(c, w, ks, i + 1, std::forward<A>(a)..., "lit"); return;
            }
        }
    }
    w.write_line(std::forward<A>(a)...);
}
MC_MODEL(lines, "all documents of 2 lines of up to 3 fields of 8 kinds", 8)
{
    std::ostringstream os;
    csv_writer w{os};
    std::string want, h;
    const int mf = 3;
    const int lines = 2;
    for (int l = 0; l < lines; ++l)
    {
        // first line: full choice; second line: restricted kinds to keep the product small
        const int n = l == 0 ? c.choose(mf + 1) : c.choose(3);
        std::vector<int> ks;
        for (int i = 0; i < n; ++i)
        {
            ks.push_back(l == 0 ? c.choose(8) : c.choose(4) * 2);
            want += (i ? "," : "") + txt(ks.back());
            h += " " + std::to_string(ks.back());
        }
        want += "\n";
        h += " |";
        emit(c, w, ks, 0);
        c.step();
        c.check(os.str() == want, "document after" + h, os.str());
        c.state(os.str());
    }
    c.sample(want);
}
MC_MODEL(blank_lines, "all sequences of 6 empty and one-field lines", 1)
{
    std::ostringstream os;
    csv_writer w{os};
    std::string want;
    for (int i = 0; i < 6; ++i)
    {
        c.step();
        if (c.flip()) { w.write_line(i); want += std::to_string(i) + "\n"; } else { w.write_line(); want += "\n"; }
        c.check(os.str() == want, "document after " + std::to_string(i + 1) + " lines", os.str());
        c.state(want);
    }
}
// two writers on one stream, and long lines
MC_MODEL(shared_stream, "two writers on one stream, all interleavings of 6 lines; 12-field lines", 1)
{
    std::ostringstream os;
    csv_writer a{os}, b{os};
    std::string want;
    for (int i = 0; i < 6; ++i)
    {
        c.step();
        if (c.flip()) { a.write_line("a", i); want += "a," + std::to_string(i) + "\n"; }
        else { b.write_line("b", i, 1, 2, 3, 4, 5, 6, 7, 8, 9, 'z'); want += "b," + std::to_string(i) + ",1,2,3,4,5,6,7,8,9,z\n"; }
    }
    c.check(os.str() == want, "interleaved writers", os.str());
    c.state(want);
}
