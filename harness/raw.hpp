// C structures made from a description, with release callbacks that count.
#pragma once
#include "common.hpp"
#include "sparrow/c_interface.hpp"
#include <optional>

namespace h
{
    struct Node
    {
        std::string f;
        std::optional<std::string> name;
        std::int64_t flags = 0, len = 0, nc = 0, off = 0;
        struct Buf { int p; std::vector<std::uint8_t> d; };
        std::vector<Buf> bufs;
        std::vector<Node> ch, di;
    };

    // nf f.. | -1 or nn name.. | flags len nc off nb (p n bytes..).. nch ch.. ndi di..
    inline Node parse_node(const ints& t, std::size_t& i)
    {
        Node n;
        auto str = [&](int k) { std::string s; while (k-- > 0) s += char(t.at(i++)); return s; };
        int k = t.at(i++);
        n.f = str(k);
        k = t.at(i++);
        if (k >= 0) n.name = str(k);
        n.flags = t.at(i++);
        n.len = t.at(i++);
        n.nc = t.at(i++);
        n.off = t.at(i++);
        int nb = t.at(i++);
        while (nb-- > 0)
        {
            Node::Buf b;
            b.p = t.at(i++);
            int m = t.at(i++);
            while (m-- > 0) b.d.push_back(std::uint8_t(t.at(i++)));
            n.bufs.push_back(std::move(b));
        }
        int c = t.at(i++);
        while (c-- > 0) n.ch.push_back(parse_node(t, i));
        c = t.at(i++);
        while (c-- > 0) n.di.push_back(parse_node(t, i));
        return n;
    }

    // The producer's side of one import: what it allocated, and what has been released.
    struct Import
    {
        Node node;
        struct APriv { Import* imp; bool released = false; std::vector<void*> mem; std::vector<const void*> bufs; std::vector<ArrowArray*> kids; ArrowArray* dict = nullptr; const Node* n; };
        struct SPriv { Import* imp; bool released = false; char* f = nullptr; char* name = nullptr; std::vector<ArrowSchema*> kids; ArrowSchema* dict = nullptr; };
        std::vector<std::unique_ptr<APriv>> ap;
        std::vector<std::unique_ptr<SPriv>> sp;
        int a_rel = 0, s_rel = 0, over = 0;   // nodes released; releases too many
        ArrowArray a{};
        ArrowSchema s{};
        bool lent_a = false, lent_s = false;
        ArrowArray a0{};     // the structures as they were lent
        ArrowSchema s0{};
        bool done_a = false, done_s = false;

        explicit Import(Node n) : node(std::move(n))
        {
            make(node, a);
            make(node, s);
            a0 = a;
            s0 = s;
        }
        int nodes() const { return int(ap.size()); }

        static void rel_a(ArrowArray* x)
        {
            APriv* p = static_cast<APriv*>(x->private_data);
            if (p->released) { ++p->imp->over; x->release = nullptr; return; }
            p->released = true;
            ++p->imp->a_rel;
            for (ArrowArray* k : p->kids)
            {
                if (k->release) k->release(k);
                delete k;
            }
            if (p->dict)
            {
                if (p->dict->release) p->dict->release(p->dict);
                delete p->dict;
            }
            for (void* m : p->mem) std::free(m);
            p->mem.clear();
            std::vector<const void*>().swap(p->bufs);
            std::vector<ArrowArray*>().swap(p->kids);
            x->release = nullptr;
        }
        static void rel_s(ArrowSchema* x)
        {
            SPriv* p = static_cast<SPriv*>(x->private_data);
            if (p->released) { ++p->imp->over; x->release = nullptr; return; }
            p->released = true;
            ++p->imp->s_rel;
            for (ArrowSchema* k : p->kids)
            {
                if (k->release) k->release(k);
                delete k;
            }
            if (p->dict)
            {
                if (p->dict->release) p->dict->release(p->dict);
                delete p->dict;
            }
            std::free(p->f);
            std::free(p->name);
            std::vector<ArrowSchema*>().swap(p->kids);
            x->release = nullptr;
        }

        void make(const Node& n, ArrowArray& x)
        {
            ap.push_back(std::make_unique<APriv>());
            APriv* p = ap.back().get();
            p->imp = this;
            p->n = &n;
            x = ArrowArray{};
            for (const auto& b : n.bufs)
            {
                void* m = nullptr;
                if (b.p)
                {
                    // exactly the bytes described: reading past them is caught
                    m = std::malloc(b.d.size());
                    if (!b.d.empty()) std::memcpy(m, b.d.data(), b.d.size());
                    p->mem.push_back(m);
                }
                p->bufs.push_back(m);
            }
            for (const auto& c : n.ch)
            {
                p->kids.push_back(new ArrowArray);
                make(c, *p->kids.back());
            }
            if (!n.di.empty())
            {
                p->dict = new ArrowArray;
                make(n.di[0], *p->dict);
            }
            x.length = n.len;
            x.null_count = n.nc;
            x.offset = n.off;
            x.n_buffers = std::int64_t(p->bufs.size());
            x.buffers = p->bufs.empty() ? nullptr : p->bufs.data();
            x.n_children = std::int64_t(p->kids.size());
            x.children = p->kids.empty() ? nullptr : p->kids.data();
            x.dictionary = p->dict;
            x.release = &rel_a;
            x.private_data = p;
        }
        void make(const Node& n, ArrowSchema& x)
        {
            sp.push_back(std::make_unique<SPriv>());
            SPriv* p = sp.back().get();
            p->imp = this;
            auto dup = [](const std::string& v) { char* m = static_cast<char*>(std::malloc(v.size() + 1)); std::memcpy(m, v.c_str(), v.size() + 1); return m; };
            p->f = dup(n.f);
            p->name = n.name ? dup(*n.name) : nullptr;
            x = ArrowSchema{};
            for (const auto& c : n.ch)
            {
                p->kids.push_back(new ArrowSchema);
                make(c, *p->kids.back());
            }
            if (!n.di.empty())
            {
                p->dict = new ArrowSchema;
                make(n.di[0], *p->dict);
            }
            x.format = p->f;
            x.name = p->name;
            x.flags = n.flags;
            x.n_children = std::int64_t(p->kids.size());
            x.children = p->kids.empty() ? nullptr : p->kids.data();
            x.dictionary = p->dict;
            x.release = &rel_s;
            x.private_data = p;
        }

        static bool same(const ArrowArray& x, const ArrowArray& y) { return std::memcmp(&x, &y, sizeof x) == 0; }
        static bool same(const ArrowSchema& x, const ArrowSchema& y) { return std::memcmp(&x, &y, sizeof x) == 0; }

        // whether anything that is still there is not what was handed over
        bool touched() const
        {
            if (lent_a && !done_a && !same(a, a0)) return true;
            if (lent_s && !done_s && !same(s, s0)) return true;
            for (const auto& p : ap)
            {
                if (p->released) continue;
                for (std::size_t i = 0; i < p->n->bufs.size(); ++i)
                {
                    const auto& b = p->n->bufs[i];
                    if (b.p == 0) { if (p->bufs[i] != nullptr) return true; continue; }
                    if (p->bufs[i] == nullptr) return true;
                    if (!b.d.empty() && std::memcmp(p->bufs[i], b.d.data(), b.d.size()) != 0) return true;
                }
                for (std::size_t i = 0; i < p->kids.size(); ++i)
                {
                    const ArrowArray* k = p->kids[i];
                    const Node& n = p->n->ch[i];
                    if (!k || k->release != &rel_a || k->length != n.len || k->offset != n.off || k->null_count != n.nc
                        || k->n_buffers != std::int64_t(n.bufs.size()) || k->n_children != std::int64_t(n.ch.size()))
                        return true;
                }
                if (p->dict && (p->dict->length != p->n->di[0].len || p->dict->offset != p->n->di[0].off
                                || p->dict->null_count != p->n->di[0].nc || p->dict->release != &rel_a))
                    return true;
            }
            for (const auto& p : sp)
            {
                if (p->released) continue;
                for (const ArrowSchema* k : p->kids)
                    if (!k || k->release != &rel_s) return true;
            }
            return false;
        }

        // the lender takes back what it lent
        void finish()
        {
            if (lent_a && !done_a) { done_a = true; if (a.release) a.release(&a); }
            if (lent_s && !done_s) { done_s = true; if (s.release) s.release(&s); }
        }
        ~Import()
        {
            // whatever nobody released, so that the memory goes away anyway
            for (auto& p : ap) for (void* m : p->mem) std::free(m);
        }
    };

    // ---------------------------------------------------------------- dump
    inline std::int64_t rd(const void* b, std::int64_t at, int w)
    {
        std::int64_t v = 0;
        if (w == 4) { std::int32_t t; std::memcpy(&t, static_cast<const char*>(b) + at * 4, 4); v = t; }
        else std::memcpy(&v, static_cast<const char*>(b) + at * 8, 8);
        return v;
    }
    inline int prim_width(char c)
    {
        switch (c)
        {
            case 'c': case 'C': case 'b': return 1;
            case 's': case 'S': case 'e': return 2;
            case 'i': case 'I': case 'f': return 4;
            case 'l': case 'L': case 'g': return 8;
            default: return 0;
        }
    }
    // What a consumer that follows the specification reads: the sizes of the
    // buffers come from lengths, offsets and the format only.
    inline std::string dump(const ArrowArray& a, const ArrowSchema& s)
    {
        std::string f = s.format ? s.format : "";
        std::ostringstream o;
        o << "{\"f\":" << esc(f) << ",\"nm\":[" << (s.name ? esc(s.name) : "") << "],\"fl\":" << s.flags << ",\"len\":" << a.length
          << ",\"nc\":" << a.null_count << ",\"off\":" << a.offset << ",\"sch\":" << s.n_children << ",\"sdi\":" << (s.dictionary != nullptr)
          << ",\"bufs\":[";
        const std::int64_t e = a.length + a.offset;
        auto size = [&](std::int64_t i) -> std::int64_t
        {
            const std::int64_t bits = (e + 7) / 8;
            if (f.size() == 1 && prim_width(f[0])) return i == 0 ? bits : e * prim_width(f[0]);
            if (f == "u" || f == "z" || f == "U" || f == "Z")
            {
                const int w = f == "u" || f == "z" ? 4 : 8;
                if (i == 0) return bits;
                if (i == 1) return a.buffers[1] ? (e + 1) * w : 0;
                return a.buffers[1] ? rd(a.buffers[1], e, w) : 0;
            }
            if (f == "vu" || f == "vz")
            {
                if (i == 0) return bits;
                if (i == 1) return e * 16;
                if (i == a.n_buffers - 1) return (a.n_buffers - 3) * 8;
                return rd(a.buffers[a.n_buffers - 1], i - 2, 8);
            }
            if (f == "+l" || f == "+L") return i == 0 ? bits : a.buffers[1] ? (e + 1) * (f == "+l" ? 4 : 8) : 0;
            if (f == "+vl" || f == "+vL") return i == 0 ? bits : e * (f == "+vl" ? 4 : 8);
            if (f.rfind("+ud", 0) == 0) return i == 0 ? e : 4 * e;
            if (f.rfind("+us", 0) == 0) return e;
            if (f == "+s" || f.rfind("+w", 0) == 0) return bits;
            return 0;
        };
        for (std::int64_t i = 0; i < a.n_buffers; ++i)
        {
            const void* b = a.buffers[i];
            o << (i ? "," : "") << "{\"p\":" << (b ? 1 : 0) << ",\"d\":[";
            if (b)
            {
                const std::int64_t n = size(i);
                std::vector<unsigned char> copy(n > 0 ? std::size_t(n) : 0);
                if (n > 0) std::memcpy(copy.data(), b, std::size_t(n));
                for (std::size_t k = 0; k < copy.size(); ++k) o << (k ? "," : "") << int(copy[k]);
            }
            o << "]}";
        }
        o << "],\"ch\":[";
        for (std::int64_t i = 0; i < a.n_children && i < s.n_children; ++i)
            o << (i ? "," : "") << dump(*a.children[i], *s.children[i]);
        o << "],\"di\":[";
        if (a.dictionary && s.dictionary) o << dump(*a.dictionary, *s.dictionary);
        o << "]}";
        return o.str();
    }
}
