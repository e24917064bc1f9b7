// Names of files and objects and their natural order.
#pragma once
#include "work/common.h"

namespace wk {
// Names are runs of letters and numbers without leading zeros: their natural
// order is beyond doubt.
inline Str make_name()
{
    static const std::vector<Str> stem{"part-", "x", "data.", "B", "b", "a-b"}, end{"", ".csv", ".txt", "-", ".gz"};
    static const std::vector<int> num{1, 2, 9, 10, 11, 19, 20, 99, 100, 101, 1000, 999999999};
    Str n = sim::wpick(stem);
    for (std::uint32_t i = sim::w(3); i > 0; --i) n += std::to_string(sim::wpick(num)) + (i > 1 ? "_" : "");
    return n + sim::wpick(end);
}
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline int natural(const Str &a, const Str &b)
{
    std::size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (digit(a[i]) && digit(b[j])) {
            std::size_t x = i, y = j;
            while (x < a.size() && digit(a[x])) ++x;
            while (y < b.size() && digit(b[y])) ++y;
            long p = std::stol(a.substr(i, x - i)), q = std::stol(b.substr(j, y - j));
            if (p != q) return p < q ? -1 : 1;
            i = x;
            j = y;
            continue;
        }
        if (a[i] != b[j]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[j]) ? -1 : 1;
        ++i;
        ++j;
    }
    return i < a.size() ? 1 : j < b.size() ? -1 : 0;
}
}  // namespace wk
