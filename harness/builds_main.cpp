// C11: builds arrays from values; shows what they are.
#include "builds.hpp"
#include <new>

namespace h
{
    thread_local bool in_library = false;
    long live_memory = 0;
    std::vector<Build>& builds() { static std::vector<Build> b; return b; }
    void part0(); void part1(); void part2(); void part3(); void part4(); void part5(); void part6(); void part7();
}

void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++h::live_memory;
    return p;
}
void operator delete(void* p) noexcept
{
    if (p) --h::live_memory;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

using namespace h;

int main(int argc, char** argv)
{
    part0(); part1(); part2(); part3(); part4(); part5(); part6(); part7();
    if (argc == 2 && std::string(argv[1]) == "types")
    {
        for (const auto& b : builds()) std::printf("{\"type\":%s,\"forms\":%d}\n", b.type.c_str(), b.forms);
        return 0;
    }
    if (argc != 4) return 3;
    std::ifstream in(argv[2]);
    Out out(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
        out.about(line);
        Cmd c = parse(line);
        // x: type, form, how, large; t: the value
        const Build& b = builds().at(std::size_t(c.x.at(0)));
        out.line(b.run(c.t, c.x.at(1) % b.forms, c.x.at(2), c.x.at(3) != 0));
    }
    return 0;
}
