// Access-path agreement: every way of walking a random access sequence has to
// report the elements that indexing reports.
#pragma once
#include "common.hpp"
#include <iterator>

namespace h
{
    // dec: turns what the iterator gives into an int
    template <class It, class Dec>
    void walk(const char* tag, It first, It last, const ints& want, Dec dec, strs& out)
    {
        auto bad = [&](const char* what) { out.push_back(std::string(tag) + " " + what); };
        const int n = int(want.size());
        if (last - first != n) { bad("distance"); return; }
        if ((first == last) != (n == 0)) bad("begin==end");
        if ((first < last) != (n > 0)) bad("begin<end");
        int i = 0;
        for (It it = first; it != last; ++it, ++i)
        {
            if (i >= n) { bad("too long"); return; }
            if (dec(*it) != want[std::size_t(i)]) { bad("forward"); break; }
        }
        if (i != n) bad("forward length");
        i = 0;
        for (It it = first; i < n; ++i)
            if (dec(*it++) != want[std::size_t(i)]) { bad("post increment"); break; }
        i = n;
        for (It it = last; it != first;)
        {
            --it;
            --i;
            if (i < 0 || dec(*it) != want[std::size_t(i)]) { bad("backward"); break; }
        }
        for (int p = 0; p < n; ++p)
        {
            // all jumps for short sequences, a spread of them for long ones
            It at = first + p;
            if (at - first != p || last - at != n - p) bad("jump distance");
            if (dec(*at) != want[std::size_t(p)] || dec(*(last - (n - p))) != want[std::size_t(p)]) { bad("jump"); break; }
            if (dec(first[p]) != want[std::size_t(p)]) { bad("subscript"); break; }
            for (int q = 0; q <= n; q += (n < 12 ? 1 : 1 + (p * 7 + q) % 13))
            {
                It to = at;
                to += q - p;
                if (to - at != q - p || (at < to) != (p < q) || (at > to) != (p > q) || (at == to) != (p == q)
                    || (at <= to) != (p <= q) || (at >= to) != (p >= q) || (at != to) != (p != q))
                {
                    bad("compare");
                    return;
                }
                if (q < n && dec(*to) != want[std::size_t(q)]) { bad("advance"); return; }
                It back = to;
                back -= q - p;
                if (!(back == at)) { bad("advance back"); return; }
            }
        }
    }
}
