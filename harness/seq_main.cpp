#include "seq.hpp"

namespace h
{
    std::string seq_json(const Cmd& c, const Event& e)
    {
        return "{\"op\":\"" + c.op + "\",\"v\":" + std::to_string(c.var) + ",\"x\":" + js(c.x) + ",\"t\":" + js(c.t)
               + ",\"u\":" + js(c.u) + ",\"a\":" + js(e.a) + ",\"b\":" + js(e.b) + ",\"r\":" + std::to_string(e.r)
               + ",\"na\":" + std::to_string(e.na) + ",\"nb\":" + std::to_string(e.nb)
               + ",\"eq\":" + std::to_string(e.eq) + ",\"dis\":" + js(e.dis) + "}";
    }

    namespace
    {
        // sizes close to block and word boundaries are the interesting ones
        int len(Rng& g, int maxlen)
        {
            static const ints hot{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129};
            int n = g.coin() ? g.pick(hot) : g.in(0, maxlen);
            return n > maxlen ? g.in(0, maxlen) : n;
        }

        int position(Rng& g, int n)
        {
            switch (g.below(5))
            {
                case 0: return 0;
                case 1: return n;
                case 2: return std::min(n, 8 * g.in(0, n / 8));
                default: return g.in(0, n);
            }
        }

        ints seq(Rng& g, int n, const ints& vals)
        {
            ints r;
            int mode = g.below(4);
            int k = vals[std::size_t(g.below(int(vals.size())))];
            for (int i = 0; i < n; ++i) r.push_back(mode == 0 ? k : vals[std::size_t(g.below(int(vals.size())))]);
            return r;
        }
    }

    int seq_main(int argc, char** argv, std::function<std::unique_ptr<IMachine>()> mk)
    {
        const std::string mode = argc > 1 ? argv[1] : "";
        if (mode == "cases" && argc == 4)
        {
            std::ifstream in(argv[2]);
            Out out(argv[3]);
            auto m = mk();
            std::string line;
            while (std::getline(in, line))
            {
                Cmd c = parse(line);
                out.about(line);
                out.line(seq_json(c, m->apply(c)));
            }
            return 0;
        }
        if (mode == "random" && argc == 9)
        {
            Rng g(std::strtoull(argv[2], nullptr, 10));
            const int sessions = std::atoi(argv[3]);
            const int steps = std::atoi(argv[4]);
            const int maxlen = std::atoi(argv[5]);
            ints vals;
            {
                std::istringstream is(argv[6]);
                std::string t;
                while (std::getline(is, t, ',')) vals.push_back(std::stoi(t));
            }
            strs ops;
            {
                std::istringstream is(argv[7]);
                std::string t;
                while (std::getline(is, t, ',')) ops.push_back(t);
            }
            Out out(argv[8]);
            auto m = mk();
            for (int si = 0; si < sessions; ++si)
            {
                auto run = [&](const Cmd& c)
                {
                    out.about(text(c));
                    out.line(seq_json(c, m->apply(c)));
                };
                Cmd n;
                n.op = "new";
                // some sessions stay short (offsets, emptiness), some get long (blocks, reallocation)
                const int ml = si % 3 == 0 ? std::min(5, maxlen) : maxlen;
                n.x = {g.below(8), g.below(8)};
                n.t = seq(g, len(g, ml), vals);
                n.u = seq(g, len(g, ml), vals);
                run(n);
                for (int k = 0; k < steps; ++k)
                {
                    Cmd c;
                    c.op = g.pick(ops);
                    c.var = g.below(8);
                    const int la = m->na();
                    const auto& op = c.op;
                    auto v = [&] { return vals[std::size_t(g.below(int(vals.size())))]; };
                    auto cnt = [&] { return la > ml ? g.below(2) : len(g, std::max(1, ml / 2)); };
                    const bool need = op == "pop" || op == "er" || op == "set" || op == "pushSelf" || op == "insSelf"
                                      || op == "insNSelf" || op == "resVSelf";
                    if (need && la == 0) continue;
                    if (op == "erR0") c.op = "erR";
                    else if (op == "erR" && la == 0) continue;
                    if (la > 2 * ml && (op.rfind("ins", 0) == 0 || op.rfind("push", 0) == 0 || op == "emplace"))
                        c.op = "resV";
                    if (op == "push") c.x = {v()};
                    else if (op == "pushSelf") c.x = {g.below(la)};
                    else if (op == "pop" || op == "clear" || op == "shrink") {}
                    else if (op == "ins" || op == "emplace") c.x = {position(g, la), v()};
                    else if (op == "insSelf") c.x = {position(g, la), g.below(la)};
                    else if (op == "insN") c.x = {position(g, la), cnt(), v()};
                    else if (op == "insNSelf") c.x = {position(g, la), cnt(), g.below(la)};
                    else if (op == "insR") { c.x = {position(g, la)}; c.t = seq(g, cnt(), vals); }
                    else if (op == "insL") { c.x = {position(g, la)}; c.t = seq(g, g.below(4), vals); }
                    else if (op == "insB") c.x = {position(g, la)};
                    else if (op == "er") c.x = {std::min(la - 1, position(g, la))};
                    else if (op == "erR" || op == "slice")
                    {
                        if (op == "slice" && g.coin()) continue;
                        int p = position(g, la), q = position(g, la);
                        c.x = {std::min(p, q), std::max(p, q)};
                    }
                    else if (op == "res") c.x = {g.coin() ? len(g, ml) : std::max(0, la + g.in(-2, 2))};
                    else if (op == "resV") c.x = {g.coin() ? len(g, ml) : std::max(0, la + g.in(-2, 2)), v()};
                    else if (op == "resVSelf") c.x = {len(g, ml), g.below(la)};
                    else if (op == "set") c.x = {g.below(la), v(), g.below(3)};
                    else if (op == "asgL") c.t = seq(g, g.below(4), vals);
                    else if (op == "reserve") c.x = {len(g, ml)};
                    run(c);
                }
            }
            return 0;
        }
        std::fprintf(stderr, "usage: cases IN OUT | random SEED SESSIONS STEPS MAXLEN VALS OPS OUT\n");
        return 3;
    }
}
