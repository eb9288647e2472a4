// The array machine: executes the commands of a session and reports, after
// each of them, every live array and the fate of every import.
#include "slots.hpp"
#include <new>

namespace h
{
    thread_local bool in_library = false;
    static long live_library = 0;
    array construct(const Node&, int how);
    SlotP construct_view(const Node&, int how);
    array assemble(const Node&, int how, std::vector<array>& kids, bool encoded);
}

// Allocation headers tell what was allocated on behalf of the library.
struct Hdr { std::uint64_t tag; std::uint64_t pad; };
void* operator new(std::size_t n)
{
    Hdr* p = static_cast<Hdr*>(std::malloc(n + sizeof(Hdr)));
    if (!p) throw std::bad_alloc();
    p->tag = h::in_library ? 1 : 0;
    h::live_library += long(p->tag);
    return p + 1;
}
void operator delete(void* q) noexcept
{
    if (!q) return;
    Hdr* p = static_cast<Hdr*>(q) - 1;
    h::live_library -= long(p->tag);
    std::free(p);
}
void operator delete(void* q, std::size_t) noexcept { operator delete(q); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete[](void* q, std::size_t) noexcept { operator delete(q); }

using namespace h;

struct Machine
{
    static constexpr int K = 6;
    MakerMap makers;
    std::array<SlotP, K + 1> slot;
    std::vector<std::unique_ptr<Import>> imps;
    bool held = false;
    ArrowArray ha{};
    ArrowSchema hs{};
    std::string hkind;
    long base = 0;

    Machine()
    {
        register_a(makers);
        register_b(makers);
        register_c(makers);
        register_d(makers);
        makers["array"] = [](arrow_proxy&&) -> SlotP { return nullptr; };
    }
    static std::string str(const ints& u) { std::string s; for (int c : u) s += char(c); return s; }

    // mode: 0 oo, 1 ol, 2 ll
    SlotP bring(const std::string& kind, ArrowArray* a, ArrowSchema* s, int mode)
    {
        if (kind == "array")
        {
            if (mode == 0) return wrap_array(array(std::move(*a), std::move(*s)));
            if (mode == 1) return wrap_array(array(std::move(*a), s));
            return wrap_array(array(a, s));
        }
        auto it = makers.find(kind);
        if (it == makers.end()) { std::cerr << "no layout " << kind << "\n"; std::exit(3); }
        if (mode == 0) return it->second(arrow_proxy(std::move(*a), std::move(*s)));
        if (mode == 1) return it->second(arrow_proxy(std::move(*a), s));
        return it->second(arrow_proxy(a, s));
    }

    // structures of the library itself
    static void own(const Node& n, ArrowArray& a, ArrowSchema& s)
    {
        std::vector<buffer<std::uint8_t>> bufs;
        for (const auto& b : n.bufs)
        {
            if (!b.p) { bufs.emplace_back(nullptr, 0); continue; }
            buffer<std::uint8_t> x(b.d.size());
            std::copy(b.d.begin(), b.d.end(), x.begin());
            bufs.push_back(std::move(x));
        }
        ArrowArray** ac = nullptr;
        ArrowSchema** sc = nullptr;
        if (!n.ch.empty())
        {
            ac = new ArrowArray*[n.ch.size()];
            sc = new ArrowSchema*[n.ch.size()];
            for (std::size_t i = 0; i < n.ch.size(); ++i)
            {
                ac[i] = new ArrowArray;
                sc[i] = new ArrowSchema;
                own(n.ch[i], *ac[i], *sc[i]);
            }
        }
        ArrowArray* ad = nullptr;
        ArrowSchema* sd = nullptr;
        if (!n.di.empty())
        {
            ad = new ArrowArray;
            sd = new ArrowSchema;
            own(n.di[0], *ad, *sd);
        }
        a = make_arrow_array(n.len, n.nc, n.off, std::move(bufs), n.ch.size(), ac, ad);
        s = make_arrow_schema(std::string(n.f), n.name, std::optional<std::string>(),
                              n.flags ? std::optional<ArrowFlag>(static_cast<ArrowFlag>(n.flags)) : std::nullopt,
                              std::int64_t(n.ch.size()), sc, sd);
    }

    void reset()
    {
        // views before what they refer to: later slots of a session never own what earlier ones view
        for (auto& s : slot) s.reset();
        if (held)
        {
            if (ha.release) ha.release(&ha);
            if (hs.release) hs.release(&hs);
            held = false;
        }
        for (auto& i : imps) i->finish();
        imps.clear();
        base = live_library;
    }

    std::string run(const Cmd& c)
    {
        std::string out = "[]";
        long leak = 0;
        const int s = c.x.size() > 0 ? c.x[0] : 0, d = c.x.size() > 1 ? c.x[1] : 0;
        const int p = c.x.size() > 2 ? c.x[2] : 0, q = c.x.size() > 3 ? c.x[3] : 0;
        auto& S = slot[std::size_t(s)];
        auto& D = slot[std::size_t(d)];
        if (c.op == "new") reset();
        else if (c.op == "imp")
        {
            std::size_t i = 0;
            Node n = parse_node(c.t, i);
            if (p == 3)
            {
                ArrowArray a;
                ArrowSchema sc;
                Lib lib;
                own(n, a, sc);
                D = bring(str(c.u), &a, &sc, 0);
            }
            else
            {
                imps.push_back(std::make_unique<Import>(std::move(n)));
                Import& im = *imps.back();
                im.lent_a = p == 2 || p == 4 || p == 5;
                im.lent_s = p == 1 || p == 2 || p >= 5;
                if (p <= 2)
                {
                    Lib lib;
                    D = bring(str(c.u), &im.a, &im.s, p);
                }
                else
                {
                    // one of the two structures is the library's; its counterpart stays with the producer
                    ArrowArray a;
                    ArrowSchema sc;
                    Lib lib;
                    own(im.node, a, sc);
                    if (p == 6)
                    {
                        a.release(&a);
                        D = bring(str(c.u), &im.a, &sc, 0);
                    }
                    else
                    {
                        sc.release(&sc);
                        D = bring(str(c.u), &a, &im.s, p - 4);
                    }
                }
            }
        }
        else if (c.op == "badimp")
        {
            // cannot be read: the caller still has what it gave, or it has been released
            std::size_t i = 0;
            imps.push_back(std::make_unique<Import>(parse_node(c.t, i)));
            Import& im = *imps.back();
            im.lent_a = p == 2;
            im.lent_s = p >= 1;
            Lib lib;
            try { D = bring("array", &im.a, &im.s, p); D.reset(); out = "0"; }
            catch (const std::invalid_argument&) { out = "2"; }
            catch (const std::runtime_error&) { out = "1"; }
            catch (...) { out = "3"; }
            if (!im.lent_a && im.a.release) im.a.release(&im.a);
            if (!im.lent_s && im.s.release) im.s.release(&im.s);
        }
        else if (c.op == "make")
        {
            std::size_t i = 0;
            Node n = parse_node(c.t, i);
            Lib lib;
            if (n.f == "vu" || n.f == "vz") D = construct_view(n, p);
            else D = wrap_array(construct(n, p));
        }
        else if (c.op == "nest")
        {
            // x: 0, destination, how, dictionary encoded, the slots of the children
            std::size_t i = 0;
            Node n = parse_node(c.t, i);
            std::vector<std::size_t> from;
            for (std::size_t k = 4; k < c.x.size(); ++k) from.push_back(std::size_t(c.x[k]));
            Lib lib;
            std::vector<array> kids;
            for (Node& e : n.ch) kids.push_back(construct(e, p));
            const std::size_t own = kids.size();
            for (std::size_t k : from) kids.push_back(std::move(*slot[k]->plain()));
            out = "1";
            try { D = wrap_array(assemble(n, p, kids, q != 0)); }
            catch (const std::runtime_error&) { out = "0"; }
            catch (...) { out = "2"; }
            for (std::size_t k = 0; k < from.size(); ++k)
                if (out == "1") slot[from[k]].reset();
                else *slot[from[k]]->plain() = std::move(kids[own + k]);
        }
        else if (c.op == "end")
        {
            leak = live_library - base;
        }
        else
        {
            Lib lib;
            if (c.op == "copy") D = S->copy();
            else if (c.op == "assign") D->assign(*S);
            else if (c.op == "self") S->assign(*S);
            else if (c.op == "move") { D = S->move(); S.reset(); }
            else if (c.op == "massign") { D->massign(*S); S.reset(); }
            else if (c.op == "swap") S->swap(*D);
            else if (c.op == "wrap") { SlotP w = S->wrap(); if (w) S = std::move(w); }
            else if (c.op == "refer") D = S->refer();
            else if (c.op == "share") S = S->share();
            else if (c.op == "none") D = wrap_array(array());
            else if (c.op == "slice") D = S->slice(std::size_t(p), std::size_t(q), false);
            else if (c.op == "view") D = S->slice(std::size_t(p), std::size_t(q), true);
            else if (c.op == "drop") S.reset();
            else if (c.op == "ext")
            {
                auto r = S->extract(c.var);
                ha = r.first;
                hs = r.second;
                held = true;
                S.reset();
            }
            else if (c.op == "back")
            {
                D = bring(str(c.u), &ha, &hs, 0);
                held = false;
            }
            else if (c.op == "rel")
            {
                if (ha.release) ha.release(&ha);
                if (hs.release) hs.release(&hs);
                held = false;
            }
            else if (c.op == "noext") { const int r = S->refuse(); out = r == 0 ? "[1,1]" : "[0,0]"; }
            else if (c.op == "export")
            {
                arrow_proxy& x = S->proxy();
                out = dump(x.array(), x.schema());
                out.pop_back();
                out += S->about() + "}";
            }
            else if (c.op == "eq") { ints r{S->eq(*D), D->eq(*S), S->ne(*D)}; out = js(r); }
            else if (c.op == "paths")
            {
                out = "[";
                bool first = true;
                for (auto& [name, v] : S->paths())
                {
                    out += (first ? "[" : ",[") + esc(name) + "," + join(v) + "]";
                    first = false;
                }
                out += "]";
            }
            else if (c.op == "pos") out = js(S->pos(p, q));
            else if (c.op == "at")
            {
                // beyond what fits: -1 the largest, -2 the middle, -3 2^32 later
                const std::size_t i = p == -1 ? std::size_t(-1) : p == -2 ? std::size_t(-1) / 2 + 1
                                    : p == -3 ? (std::size_t(1) << 32) + S->size() / 2 : std::size_t(p);
                out = std::to_string(S->at(i));
            }
            else if (c.op == "nomut") out = std::to_string(S->deny(p, std::size_t(q), std::size_t(c.x.at(4))));
            else if (c.op == "set" || c.op == "push" || c.op == "pop" || c.op == "ins" || c.op == "er")
            {
                Cmd m = c;
                m.x.erase(m.x.begin() + 1);   // slot, position, not null
                if (!S->mutate(m)) { std::cerr << "cannot mutate " << S->kind() << "\n"; std::exit(3); }
            }
            else { std::cerr << "unknown command " << c.op << "\n"; std::exit(3); }
        }
        std::string obs = "[";
        for (int i = 1; i <= K; ++i)
        {
            if (!slot[std::size_t(i)]) continue;
            if (obs.size() > 1) obs += ',';
            obs += "[" + std::to_string(i) + "," + join(slot[std::size_t(i)]->read((c.var + i) % 4)) + "]";
        }
        std::string rel = "[";
        ints tch;
        for (std::size_t i = 0; i < imps.size(); ++i)
        {
            const Import& im = *imps[i];
            auto all = [&](int k) { return k == 0 ? 0 : k == im.nodes() ? 1 : 100 + k; };
            rel += (i ? "," : "") + std::string("[") + std::to_string(all(im.a_rel)) + "," + std::to_string(all(im.s_rel)) + ","
                   + std::to_string(im.over) + "]";
            if (im.touched()) tch.push_back(int(i) + 1);
        }
        return "{\"op\":\"" + c.op + "\",\"out\":" + out + ",\"obs\":" + obs + "],\"rel\":" + rel + "],\"tch\":" + js(tch)
               + ",\"leak\":" + std::to_string(leak) + "}";
    }
};

int main(int argc, char** argv)
{
    if (argc != 4 || std::string(argv[1]) != "run") return 3;
    Machine m;
    {
        Out out(argv[3]);
        std::ifstream in(argv[2]);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.empty()) continue;
            out.about(line);
            const Cmd c = parse(line);
            out.line(m.run(c));
        }
    }
    m.reset();
    return 0;
}
