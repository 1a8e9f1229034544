// C37 BlockAllocator against a shadow model
#include "thread/BlockAllocator.h"      // first: the header must stand alone
#include "pbt.hpp"
#include <algorithm>
#include <memory>
using namespace pbt;
namespace pbt { size_t liveBytes(); }      // live heap of the process (runner.cpp)

// live elements of one allocator: every byte of each is filled with a pattern
// of its own, so that an overlap or a stray write shows as changed contents
namespace {
struct Shadow {
    struct El { unsigned char *p; uint64_t tag; };
    std::unique_ptr<BlockAllocator> a; int sz; std::vector<El> live; size_t peak = 0, total = 0;
    explicit Shadow(int n) : a(new BlockAllocator(n)), sz(n) {}
    static uint64_t word(uint64_t tag, int i) { return mix(tag * 1315423911u + uint64_t(i) / 8); }
    void fill(const El &e) { uint64_t w = 0; for (int i = 0; i < sz; ++i) { if (!(i & 7)) w = word(e.tag, i); e.p[i] = (unsigned char)(w >> (8 * (i & 7))); } }
    void check(const El &e, const char *when) { uint64_t w = 0; for (int i = 0; i < sz; ++i) { if (!(i & 7)) w = word(e.tag, i); if (e.p[i] == (unsigned char)(w >> (8 * (i & 7)))) continue; fail( "byte %d of an element of %d changed %s (element %llu of %zu live)", i, sz, when, (unsigned long long)e.tag, live.size()); } }
    void alloc(uint64_t tag) {
        El e; e.p = (unsigned char *)a->allocate(); e.tag = tag;
        REQUIRE(e.p, "allocate returned null");
        REQUIRE(uintptr_t(e.p) % sizeof(void *) == 0, "an element at %p is not aligned for a pointer", (void *)e.p);
        fill(e); live.push_back(e); ++total; if (live.size() > peak) peak = live.size();
    }
    void release(size_t k, const char *when) { El e = live[k]; live[k] = live.back(); live.pop_back(); check(e, when); a->deallocate(e.p); }
    void checkAll(const char *when) { for (auto &e : live) check(e, when); }
    void disjoint() {
        std::vector<unsigned char *> v; for (auto &e : live) v.push_back(e.p);
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); ++i) REQUIRE(v[i] - v[i - 1] >= sz, "two live elements of %d bytes are %ld bytes apart", sz, long(v[i] - v[i - 1]));
    }
};
}
static int elementSize(Src &s) { return s.chance(10) ? s.i(1020, 2100) : s.chance(4) ? s.i(1, 400) : s.pick<int>({8, 1, 4, 7, 9, 12, 15, 16, 17, 24, 31, 33, 64, 100}); }

// up to three allocators, phases of allocating, releasing in some order, and churn
SUB(C37, history, 500, "more elements live at once than fit one block (512), releases in between, contents verified") {
    int na = s.i(1, 3); std::vector<std::unique_ptr<Shadow>> sh; for (int i = 0; i < na; ++i) { int z = elementSize(s); s.note("element size %d", z); sh.emplace_back(new Shadow(z)); }
    uint64_t tag = 1; int phases = s.i(1, 8); bool rel = false; size_t most = 0;
    for (int p = 0; p < phases; ++p) {
        Shadow &S = *sh[s.draw(na)]; int k = int(s.draw(6)); Rng r(s.seed());
        int n = s.pick<int>({512, 511, 513, 1, 1024, 1025, 3, 60, 700, 1536, 2000}); if (s.chance(4)) n = s.i(0, 1600);
        s.note("phase %d x%d", k, n);
        switch (k) {
        case 0: case 1: for (int i = 0; i < n && S.live.size() < 6000; ++i) S.alloc(tag++); break;
        case 2: for (int i = 0; i < n && !S.live.empty(); ++i) { rel = true; S.release(S.live.size() - 1, "before its release (last first)"); } break;
        case 3: for (int i = 0; i < n && !S.live.empty(); ++i) { rel = true; S.release(0, "before its release (first first)"); } break;
        case 4: for (int i = 0; i < n; ++i) { if (S.live.empty() || r.uni() < 0.5) S.alloc(tag++); else { rel = true; S.release(r.i(0, int(S.live.size()) - 1), "before its release (churn)"); } } break;
        default: { std::vector<Shadow::El> all = S.live; while (!S.live.empty()) { rel = true; S.release(r.i(0, int(S.live.size()) - 1), "before its release (emptying)"); } for (size_t i = 0; i < all.size(); ++i) S.alloc(tag++); }
        }
        if (s.chance(3)) { S.a->deallocate(0); s.note("null release"); }
        if (s.chance(3)) { size_t j = 0; for (auto &e : S.live) { if (++j % 3 == 0) { S.check(e, "before it was rewritten"); e.tag = tag++; S.fill(e); } } }
        for (auto &q : sh) { q->checkAll("while it was live"); q->disjoint(); most = std::max(most, q->peak); }
    }
    for (auto &q : sh) { if (s.b()) while (!q->live.empty()) q->release(q->live.size() - 1, "before its release at the end"); }
    s.nontrivial(most > 512 && rel);
}
// released space is reused: churning with a bounded number live must not need more memory
SUB(C37, reuse, 150, "rounds of allocating and releasing more than twice the number ever live; heap held at the same point of each round does not grow") {
    int z = elementSize(s), keep = s.pick<int>({0, 1, 511, 512, 513, 1500}), burst = s.pick<int>({1, 512, 600, 40, 1100}), rounds = s.i(4, 10) + (burst < 100 ? 20000 : 20) / burst, mode = int(s.draw(4));
    static const char *nm[] = {"oldest released first", "newest released first", "released in random order", "random ones of all released"};
    s.note("element size %d, %d kept, %d rounds of %d, %s", z, keep, rounds, burst, nm[mode]);
    Shadow S(z); uint64_t tag = 1; Rng r(s.seed()); S.live.reserve(keep + burst + 1); for (int i = 0; i < keep; ++i) S.alloc(tag++);
    size_t first = 0;
    for (int k = 0; k < rounds; ++k) {
        size_t at = S.live.size();
        for (int i = 0; i < burst; ++i) S.alloc(tag++);
        size_t held = liveBytes();
        if (k == 1) first = held;
        else if (k > 1 && held > first) REQUIRE(held - first <= 4096 + size_t(burst) * (z + 16) / 2, "with the same %d elements of %d bytes live, the heap held %zu bytes more in round %d than in round 1", int(S.live.size()), z, held - first, k);
        if (mode == 0) { for (int i = 0; i < burst; ++i) { S.check(S.live[at + i], "in a round"); S.a->deallocate(S.live[at + i].p); } S.live.resize(at); }
        else if (mode == 1) while (S.live.size() > at) S.release(S.live.size() - 1, "in a round");
        else if (mode == 2) while (S.live.size() > at) S.release(at + r.i(0, int(S.live.size() - at) - 1), "in a round");
        else while (S.live.size() > at) S.release(r.i(0, int(S.live.size()) - 1), "in a round");
        if (k < 3 || k % (16 + rounds / 32) == 0) S.checkAll("between rounds");
    }
    S.checkAll("after all rounds");
    s.nontrivial(rounds * burst > 2 * (keep + burst));
}
// very many elements live at once (more than 1024 blocks)
SUB(C37, many, 3, "more than 524288 elements live at once, then all verified") {
    int z = s.pick<int>({8, 1, 16, 24}), n = s.pick<int>({530000, 525000, 600000, 200000}); s.note("%d elements of %d bytes", n, z);
    Shadow S(z); for (int i = 0; i < n; ++i) S.alloc(i + 1);
    S.checkAll("with very many live"); S.disjoint();
    Rng r(s.seed()); for (int i = 0; i < n / 2; ++i) S.release(r.i(0, int(S.live.size()) - 1), "after very many");
    for (int i = 0; i < n / 3; ++i) S.alloc(n + i + 1);
    S.checkAll("with very many reallocated"); S.disjoint();
    s.nontrivial(n > 524288);
}
