// Generic replay machine for sequence-like types; the commands are the
// actions of spec/SeqMachine.tla.
#pragma once
#include "common.hpp"
#include <iterator>

namespace h
{
    constexpr int BAD = -99;   // an element the encoding does not know
    constexpr int NUL = -1;    // a null
    constexpr int NOIT = -1;   // no iterator returned

    struct Event
    {
        ints a, b;
        int r = NOIT, na = -1, nb = -1, eq = 0;
        strs dis;
    };

    struct IMachine
    {
        virtual ~IMachine() = default;
        virtual Event apply(const Cmd&) = 0;   // includes "new"
        virtual int na() = 0;
        virtual int nb() = 0;
    };

    std::string seq_json(const Cmd& c, const Event& e);
    int seq_main(int argc, char** argv, std::function<std::unique_ptr<IMachine>()> mk);

    inline bool odd(int v, int bit) { return (v >> bit) & 1; }

    // F: see the families.  F::O is the type under test.
    template <class F>
    struct Machine : IMachine
    {
        using O = typename F::O;
        std::unique_ptr<O> a, b;

        int na() override { return int(F::size(*a)); }
        int nb() override { return int(F::size(*b)); }

        static ints read(const O& o)
        {
            ints r;
            for (std::size_t i = 0; i < F::size(o); ++i) r.push_back(F::get(o, i));
            return r;
        }

        template <class It>
        static int pos(O& o, const It& it) { return int(it - F::begin(o)); }

        Event apply(const Cmd& c) override
        {
            Event e;
            const auto& x = c.x;
            const int w = c.var;
            const std::string& op = c.op;
            if (op == "new")
            {
                a = F::make(c.t, x.empty() ? 0 : x[0]);
                b = F::make(c.u, x.size() < 2 ? 0 : x[1]);
            }
            else
            {
                O& s = *a;
                auto P = [&](int p) { return F::at(s, p); };
                if (op == "push") F::push(s, x[0], w);
                else if (op == "pop") F::pop(s);
                else if (op == "er") e.r = pos(s, F::erase(s, P(x[0])));
                else if (op == "erR") e.r = pos(s, F::erase(s, P(x[0]), P(x[1])));
                else if (op == "ins") e.r = pos(s, F::ins(s, P(x[0]), x[1], w));
                else if (op == "insN") e.r = pos(s, F::insN(s, P(x[0]), std::size_t(x[1]), x[2], w));
                else if (op == "insR") e.r = pos(s, F::insR(s, P(x[0]), c.t, w));
                else if (op == "resV") F::resV(s, std::size_t(x[0]), x[1], w);
                else if (op == "set") F::set(s, std::size_t(x[0]), x[1], x[2]);
                else if (op == "copyTo") *hold(b, [&] { F::copyTo(a, b); });
                else if (op == "copyNew") { b.reset(); b = F::copyNew(s); }
                else if (op == "moveTo") { F::moveTo(a, b); a = F::make({}, w); }
                else if (op == "moveNew") { b.reset(); b = F::moveNew(s); a = F::make({}, w); }
                else if (op == "selfAsg") F::selfAsg(s);
                else if (op == "dropB") b = F::make({}, w);
                else if (!more(c, e)) { std::fprintf(stderr, "unknown op %s\n", op.c_str()); std::_Exit(3); }
            }
            e.a = read(*a);
            e.b = read(*b);
            F::dis(*a, e.a, e.dis);
            strs db;
            F::dis(*b, e.b, db);
            for (auto& d : db) e.dis.push_back("b:" + d);
            e.na = F::nulls(*a);
            e.nb = F::nulls(*b);
            e.eq = F::equal(*a, *b) ? 1 : 0;
            if (F::equal(*b, *a) != bool(e.eq)) e.dis.push_back("eq not symmetric");
            if (!F::equal(*a, *a)) e.dis.push_back("eq not reflexive");
            return e;
        }

        template <class Fn>
        static std::unique_ptr<O>& hold(std::unique_ptr<O>& p, Fn fn) { fn(); return p; }

        bool more(const Cmd& c, Event& e)
        {
            O& s = *a;
            const auto& x = c.x;
            const std::string& op = c.op;
            const int w = c.var;
            auto P = [&](int p) { return F::at(s, p); };
            if constexpr (requires { F::pushSelf(s, std::size_t(0), 0); })
            {
                if (op == "pushSelf") { F::pushSelf(s, std::size_t(x[0]), w); return true; }
                if (op == "insSelf") { e.r = pos(s, F::insSelf(s, P(x[0]), std::size_t(x[1]), w)); return true; }
                if (op == "insNSelf") { e.r = pos(s, F::insNSelf(s, P(x[0]), std::size_t(x[1]), std::size_t(x[2]))); return true; }
                if (op == "resVSelf") { F::resVSelf(s, std::size_t(x[0]), std::size_t(x[1])); return true; }
            }
            if constexpr (requires { F::insL(s, F::at(s, 0), c.t); })
                if (op == "insL") { e.r = pos(s, F::insL(s, P(x[0]), c.t)); return true; }
            if constexpr (requires { F::insB(s, F::at(s, 0), *b, 0); })
                if (op == "insB") { e.r = pos(s, F::insB(s, P(x[0]), *b, w)); return true; }
            if constexpr (requires { F::emplace(s, F::at(s, 0), 0); })
                if (op == "emplace") { e.r = pos(s, F::emplace(s, P(x[0]), x[1])); return true; }
            if constexpr (requires { F::res(s, std::size_t(0)); })
                if (op == "res") { F::res(s, std::size_t(x[0])); return true; }
            if constexpr (requires { F::clear(s); })
                if (op == "clear") { F::clear(s); return true; }
            if constexpr (requires { F::asgL(s, c.t); })
                if (op == "asgL") { F::asgL(s, c.t); return true; }
            if constexpr (requires { F::reserve(s, std::size_t(0)); })
            {
                if (op == "reserve") { F::reserve(s, std::size_t(x[0])); return true; }
                if (op == "shrink") { F::shrink(s); return true; }
            }
            if constexpr (requires { F::swap(s, *b, 0); })
                if (op == "swap") { F::swap(s, *b, w); return true; }
            if constexpr (requires { F::slice(s, std::size_t(0), std::size_t(0), 0); })
                if (op == "slice") { a = F::slice(s, std::size_t(x[0]), std::size_t(x[1]), w); return true; }
            return false;
        }
    };
}
