// Shared by all harnesses: commands read from the driver, events written for it.
//
// A command is one text line   op var | x... | t... | u...
// An event is one JSON object per line.  Before a command runs its text is
// stored in <out>.cur, so that a crash can be attributed to a command.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace h
{
    using ints = std::vector<int>;
    using strs = std::vector<std::string>;

    struct Cmd
    {
        std::string op;
        int var = 0;
        ints x, t, u;
    };

    inline std::string js(const ints& v)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if (i) s += ',';
            s += std::to_string(v[i]);
        }
        return s + "]";
    }

    inline std::string esc(const std::string& v)
    {
        std::string s = "\"";
        for (unsigned char c : v)
        {
            if (c == '"' || c == '\\') { s += '\\'; s += char(c); }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); s += b; }
            else s += char(c);
        }
        return s + "\"";
    }

    inline std::string js(const strs& v)
    {
        std::string s = "[";
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if (i) s += ',';
            s += esc(v[i]);
        }
        return s + "]";
    }

    inline std::string text(const Cmd& c)
    {
        std::ostringstream o;
        o << c.op << ' ' << c.var << " |";
        for (int i : c.x) o << ' ' << i;
        o << " |";
        for (int i : c.t) o << ' ' << i;
        o << " |";
        for (int i : c.u) o << ' ' << i;
        return o.str();
    }

    inline Cmd parse(const std::string& line)
    {
        Cmd c;
        std::istringstream in(line);
        in >> c.op >> c.var;
        std::string tok;
        int part = -1;
        while (in >> tok)
        {
            if (tok == "|") { ++part; continue; }
            (part == 0 ? c.x : part == 1 ? c.t : c.u).push_back(std::stoi(tok));
        }
        return c;
    }

    struct Out
    {
        FILE* f;
        int cur;
        explicit Out(const std::string& path)
            : f(std::fopen(path.c_str(), "w"))
            , cur(::open((path + ".cur").c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644))
        {
            static std::vector<char> buf(1 << 16);
            std::setvbuf(f, buf.data(), _IOFBF, buf.size());
        }
        ~Out()
        {
            std::fclose(f);
            ::close(cur);
        }
        // remembers what is about to run; flushes what ran before
        void about(const std::string& s)
        {
            std::fflush(f);
            std::string l = s + "\n";
            (void) !::ftruncate(cur, 0);
            (void) !::pwrite(cur, l.data(), l.size(), 0);
        }
        void line(const std::string& s)
        {
            std::fputs(s.c_str(), f);
            std::fputc('\n', f);
        }
    };

    struct Rng
    {
        std::mt19937_64 g;
        explicit Rng(std::uint64_t s) : g(s) {}
        int below(int n) { return n <= 0 ? 0 : int(g() % std::uint64_t(n)); }
        int in(int lo, int hi) { return lo + below(hi - lo + 1); }
        bool coin(int num = 1, int den = 2) { return below(den) < num; }
        template <class V> auto& pick(V& v) { return v[std::size_t(below(int(v.size())))]; }
    };
}
