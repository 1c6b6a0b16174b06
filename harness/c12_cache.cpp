// C12: the sub-block cache against a model (sequential), by invariants (concurrent), and its transparency for compositions.
#include "comp.hpp"
#include <thread>
using namespace comp;
using libCZI::ISubBlockCache; using libCZI::ISubBlockCacheStatistics;
using Item = libCZI::ISubBlockCacheOperation::CacheItem;

struct Bm : CallerBitmap
{
    static std::atomic<long>& alive() { static std::atomic<long> n{ 0 }; return n; }
    Bm(Rng& r, int pt, uint32_t w, uint32_t h) : CallerBitmap(r, pt, w, h, 0) { ++alive(); } ~Bm() override { --alive(); }
};
struct Huge : Bm { libCZI::IntSize sz; Huge(Rng& r, int pt) : Bm(r, pt, 2, 2), sz{ (uint32_t)r.range(20000, 400000), (uint32_t)r.range(20000, 400000) } {} libCZI::IntSize GetSize() const override { return sz; } }; // (says that it is large)
struct Mk : libCZI::IBitonalBitmapData
{
    uint32_t w, h; Bytes b; Mk(uint32_t w, uint32_t h) : w(w), h(h), b((size_t)((w + 7) / 8) * h) {}
    libCZI::IntSize GetSize() const override { return { w, h }; }
    libCZI::BitonalBitmapLockInfo Lock() override { libCZI::BitonalBitmapLockInfo l; l.ptrData = b.data(); l.stride = (w + 7) / 8; l.size = b.size(); return l; }
    void Unlock() override {}
    int GetLockCount() const override { return 0; }
};
static uint64_t sizeOf(const Item& i) { auto s = i.bitmap->GetSize(); uint64_t n = (uint64_t)s.w * s.h * bpp((int)i.bitmap->GetPixelType()); if (i.mask) { auto m = i.mask->GetSize(); n += (uint64_t)((m.w + 7) / 8) * m.h; } return n; }
static bool g_huge = false;
static Item randomItem(Rng& r) { Item i; if (g_huge && r.chance(30)) { i.bitmap = std::make_shared<Huge>(r, r.pick(allPt())); if (r.chance(40)) { auto m = std::make_shared<Mk>(1u, 1u); m->w = (uint32_t)r.range(100000, 2000000); m->h = (uint32_t)r.range(100000, 2000000); i.mask = m; } ev("huge-item"); return i; } i.bitmap = std::make_shared<Bm>(r, r.pick(allPt()), (uint32_t)r.range(1, 30), (uint32_t)r.range(1, 20)); if (r.chance(40)) i.mask = std::make_shared<Mk>((uint32_t)r.range(1, 40), (uint32_t)r.range(1, 20)); return i; }
static void checkStats(ISubBlockCache* c, uint64_t mem, uint32_t cnt)
{
    auto a = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount), b = c->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage), e = c->GetStatistics(ISubBlockCacheStatistics::kElementsCount);
    VH_CHECK(a.validityMask == 3 && b.validityMask == 1 && e.validityMask == 2, "statistics-mask", "validity masks " << (int)a.validityMask << "," << (int)b.validityMask << "," << (int)e.validityMask);
    VH_EQ(a.memoryUsage, mem, "cache-accounting", "memory usage"); VH_EQ(b.memoryUsage, mem, "cache-accounting", "memory usage (alone)"); VH_EQ(a.elementsCount, cnt, "cache-accounting", "element count"); VH_EQ(e.elementsCount, cnt, "cache-accounting", "element count (alone)");
}
static void sequential(Rng& r)
{
    auto c = libCZI::CreateSubBlockCache(); struct E { Item i; uint64_t used; }; std::map<int, E> m; uint64_t clock = 0; int range = r.pick({ 3, 10, 60 }); std::string log; g_huge = r.chance(20); bool many = r.below(300) == 0; if (many) { range = 2500; ev("many-entries"); } struct Reset { ~Reset() { g_huge = false; } } reset;
    auto mem = [&]() { uint64_t s = 0; for (auto& e : m) s += sizeOf(e.second.i); return s; };
    std::vector<Item> held; std::vector<uint64_t> heldHash;
    for (int n = many ? r.range(1500, 2500) : r.range(5, 120); n > 0; --n)
    {
        int idx = r.chance(5) ? r.pick({ -1, INT_MAX, INT_MIN }) : r.range(0, range);
        switch (r.below(16))
        {
        case 0: case 1: case 2: case 3: case 10: case 11: case 12: { Item i = randomItem(r); if (r.chance(10) && !m.empty()) i = m.begin()->second.i; c->Add(idx, i); ev(m.count(idx) ? "overwrite" : "add"); m[idx] = { i, ++clock }; log += "A" + std::to_string(idx); } break;
        case 4: case 5: case 6: case 13: case 14: case 15:
        {
            Item g = c->Get(idx); auto it = m.find(idx); log += "G" + std::to_string(idx);
            if (it == m.end()) { VH_CHECK(!g.IsValid() && !g.mask, "cache-get", "an entry is reported for index " << idx << " which is not in the cache; " << log); ev("get-absent"); }
            else { VH_CHECK(g.bitmap == it->second.i.bitmap && g.mask == it->second.i.mask, "cache-get", "Get(" << idx << ") does not give the last item stored; " << log); it->second.used = ++clock; ev("get-present"); if (r.chance(20)) { held.push_back(g); auto* b = static_cast<Bm*>(g.bitmap.get()); heldHash.push_back(hash64(b->p.get(), b->size)); } }
        } break;
        default:
        {
            ISubBlockCache::PruneOptions o; uint64_t total = mem(); if (r.chance(60)) o.maxMemoryUsage = r.chance(20) ? 0 : r.below(total + total / 4 + 2); if (r.chance(60)) o.maxSubBlockCount = (uint32_t)r.below(m.size() + 2);
            c->Prune(o); log += "P" + std::to_string(o.maxMemoryUsage) + "/" + std::to_string(o.maxSubBlockCount); bool evicted = false;
            while (!m.empty() && (mem() > o.maxMemoryUsage || m.size() > o.maxSubBlockCount)) { auto old = m.begin(); for (auto it = m.begin(); it != m.end(); ++it) if (it->second.used < old->second.used) old = it; m.erase(old); evicted = true; }
            ev(evicted ? "prune-evicting" : "prune-nothing");
        } break;
        }
        ctx().currentDesc = log; if (many && n % 50) continue; checkStats(c.get(), mem(), (uint32_t)m.size());
    }
    for (int i = -1; i <= range; ++i) { Item g = c->Get(i); auto it = m.find(i); VH_CHECK(it == m.end() ? !g.IsValid() : g.bitmap == it->second.i.bitmap && g.mask == it->second.i.mask, "cache-content", "index " << i << " after " << log); }
    for (size_t i = 0; i < held.size(); ++i) { auto* b = static_cast<Bm*>(held[i].bitmap.get()); VH_CHECK(hash64(b->p.get(), b->size) == heldHash[i], "held-bitmap", "a bitmap still held changed"); }
    c.reset(); m.clear(); held.clear(); VH_EQ(Bm::alive().load(), 0L, "cache-leak", "bitmaps still alive after the cache is gone; " << log);
    ctx().seenHash(hash64(log));
}
static void concurrent(Rng& r)
{
    auto c = libCZI::CreateSubBlockCache(); int threads = r.range(2, 6), ops = r.range(30, 150), range = r.pick({ 2, 6, 25 }); bool withMask = r.chance(60); const uint64_t unit = 8 * 4 + (withMask ? 4 : 0);
    std::atomic<int> bad{ 0 }; std::atomic<uint64_t> hits{ 0 }, inter{ 0 }; std::mutex mx; std::string first; uint64_t seed = r.next();
    auto report = [&](const std::string& s) { if (bad++ == 0) { std::lock_guard<std::mutex> l(mx); first = s; } };
    std::vector<std::thread> t; std::atomic<int> go{ 0 };
    for (int k = 0; k < threads; ++k) t.emplace_back([&, k]()
    {
        Rng q(seed + (uint64_t)k * 977); std::vector<Item> keep; ++go; while (go < threads) std::this_thread::yield();
        for (int i = 0; i < ops; ++i)
        {
            int idx = q.range(0, range);
            switch (q.below(8))
            {
            case 0: case 1: case 2: { auto b = std::make_shared<Bm>(q, 0, 8, 4); uint32_t tag = (uint32_t)q.next(); memcpy(b->p.get(), &idx, 4); memcpy(b->p.get() + 4, &tag, 4); std::shared_ptr<Mk> m; if (withMask) { m = std::make_shared<Mk>(8, 4); memcpy(m->b.data(), &tag, 4); } c->Add(idx, { b, m }); } break;
            case 3: case 4: case 5: { Item g = c->Get(idx); if (g.IsValid()) { ++hits; auto* b = static_cast<Bm*>(g.bitmap.get()); int gi; uint32_t tag, mt = 0; memcpy(&gi, b->p.get(), 4); memcpy(&tag, b->p.get() + 4, 4); if (gi != idx) report("Get(" + std::to_string(idx) + ") gave the bitmap of " + std::to_string(gi)); if (withMask != (bool)g.mask) report("mask lost or invented"); else if (withMask) { memcpy(&mt, static_cast<Mk*>(g.mask.get())->b.data(), 4); if (mt != tag) report("bitmap and mask of different items"); } if (q.chance(20)) keep.push_back(g); } } break;
            case 6: { ISubBlockCache::PruneOptions o; if (q.chance(50)) o.maxMemoryUsage = q.below(unit * (uint64_t)(range + 2)); else o.maxSubBlockCount = (uint32_t)q.range(0, range); c->Prune(o); } break;
            default: { auto s = c->GetStatistics(3); if (s.memoryUsage != s.elementsCount * unit) report("memory usage " + std::to_string(s.memoryUsage) + " does not match " + std::to_string(s.elementsCount) + " elements"); if (s.elementsCount > (uint32_t)range + 1) report("more elements than indices"); } break;
            }
        }
        for (auto& g : keep) { auto* b = static_cast<Bm*>(g.bitmap.get()); volatile uint8_t s = 0; for (size_t i = 0; i < b->size; ++i) s = s ^ b->p.get()[i]; }
    });
    for (auto& x : t) x.join();
    if (bad) fail("cache-concurrent", first);
    uint64_t mem = 0; uint32_t cnt = 0; for (int i = 0; i <= range; ++i) { Item g = c->Get(i); if (g.IsValid()) { ++cnt; mem += sizeOf(g); } }
    checkStats(c.get(), mem, cnt); ev("concurrent-run"); ev("concurrent-hits", hits); ctx().evals += (uint64_t)threads * ops; ctx().seenHash(hash64(&mem, 8, seed)); c.reset(); VH_EQ(Bm::alive().load(), 0L, "cache-leak", "after concurrent use");
}
// a repository which records which sub-blocks an accessor reads
struct Watched : libCZI::ISubBlockRepository
{
    std::shared_ptr<libCZI::ISubBlockRepository> r; std::set<int> read; explicit Watched(std::shared_ptr<libCZI::ISubBlockRepository> x) : r(std::move(x)) {}
    void EnumerateSubBlocks(const std::function<bool(int, const libCZI::SubBlockInfo&)>& f) override { r->EnumerateSubBlocks(f); }
    void EnumSubset(const libCZI::IDimCoordinate* c, const IntRect* roi, bool l0, const std::function<bool(int, const libCZI::SubBlockInfo&)>& f) override { r->EnumSubset(c, roi, l0, f); }
    std::shared_ptr<libCZI::ISubBlock> ReadSubBlock(int i) override { read.insert(i); return r->ReadSubBlock(i); }
    bool TryGetSubBlockInfoOfArbitrarySubBlockInChannel(int c, libCZI::SubBlockInfo& i) override { return r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, i); }
    bool TryGetSubBlockInfo(int i, libCZI::SubBlockInfo* x) const override { return r->TryGetSubBlockInfo(i, x); }
    libCZI::SubBlockStatistics GetStatistics() override { return r->GetStatistics(); }
    libCZI::PyramidStatistics GetPyramidStatistics() override { return r->GetPyramidStatistics(); }
    libCZI::IntPointAndFrameOfReference TransformPoint(const libCZI::IntPointAndFrameOfReference& p, libCZI::CZIFrameOfReference d) override { return r->TransformPoint(p, d); }
};
static void transparent(Rng& r)
{
    TileGen g; g.layers = true; g.maxLayer = 2; g.align = 4; g.masks = r.chance(50); g.maxTiles = 10; g.extent = 30; g.maxSize = 30; g.mixedTypes = false; TileDoc d = makeTiles(r, g); auto repo = std::make_shared<Watched>(openRepo(r, d)); auto cache = libCZI::CreateSubBlockCache();
    auto t = accessor<libCZI::ISingleChannelTileAccessor>(repo, libCZI::AccessorType::SingleChannelTileAccessor); auto p = accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(repo, libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor); auto s = accessor<libCZI::ISingleChannelScalingTileAccessor>(repo, libCZI::AccessorType::SingleChannelScalingTileAccessor);
    int count = 0; std::set<int> compressed; repo->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& x) { ++count; if (x.GetCompressionMode() != libCZI::CompressionMode::UnCompressed) compressed.insert(i); return true; });
    auto held = [&]() { std::set<int> h; for (int i = 0; i < count; ++i) if (cache->Get(i).IsValid()) h.insert(i); return h; };
    auto text = [](const std::set<int>& q) { std::string t; for (int i : q) t += std::to_string(i) + " "; return t; };
    for (int q = r.range(3, 9); q > 0; --q)
    {
        auto plane = randomPlane(r, d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(r, d); roi.x = (roi.x >> 2) * 4; roi.y = (roi.y >> 2) * 4; RgbFloatColor bg{ 0.2f, 0.4f, 0.6f }; bool mask = r.chance(50), only = r.chance(50), vis = r.chance(50);
        std::vector<const Tile*> all; for (auto& x : d.t) all.push_back(&x); int dt = destType(r, all); if (dt < 0) break;
        int kind = (int)r.below(3); uint8_t layer = (uint8_t)r.range(0, 2); roi.w = std::max(roi.w, 4); roi.h = std::max(roi.h, 4); float zoom = r.pick({ 1.f, 0.5f, 0.37f });
        auto run = [&](bool withCache) -> Img
        {
            auto common = [&](auto& o) { o.Clear(); o.backGroundColor = bg; o.maskAware = mask; if (withCache) { o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = only; } };
            if (kind == 0) { libCZI::ISingleChannelTileAccessor::Options o; common(o); o.useVisibilityCheckOptimization = vis; return fromBitmap(t->Get((PixelType)dt, roi, &pc, &o).get()); }
            if (kind == 1) { libCZI::ISingleChannelPyramidLayerTileAccessor::Options o; common(o); return fromBitmap(p->Get((PixelType)dt, roi, &pc, { 2, layer }, &o).get()); }
            libCZI::ISingleChannelScalingTileAccessor::Options o; common(o); o.useVisibilityCheckOptimization = vis; return fromBitmap(s->Get((PixelType)dt, roi, &pc, zoom, &o).get());
        };
        if (kind == 2 && ((int)(roi.w * zoom) == 0 || (int)(roi.h * zoom) == 0)) continue;
        ctx().currentDesc = "transparency, accessor " + std::to_string(kind) + (mask ? " mask-aware" : "") + (only ? " only compressed" : ""); if (r.chance(30)) { cache = libCZI::CreateSubBlockCache(); ev("fresh-cache"); }
        repo->read.clear(); Img a = run(false); std::set<int> used = repo->read, h0 = held(), fetch, h1 = h0, again; for (int i : used) { if (!h0.count(i)) fetch.insert(i); if (!only || compressed.count(i)) h1.insert(i); }
        repo->read.clear(); Img b = run(true); std::set<int> r1 = repo->read, k1 = held(); for (int i : used) if (!k1.count(i)) again.insert(i);
        repo->read.clear(); Img c2 = run(true); std::set<int> r2 = repo->read, k2 = held();
        VH_CHECK(r1 == fetch, "cache-not-used", "the accessor needs " << text(used) << ", the cache held " << text(h0) << ", but read were " << text(r1));
        VH_CHECK(k1 == h1 && k2 == h1, "cache-content", (only ? "(only compressed) " : "") << "used " << text(used) << "of which compressed are (all) " << text(compressed) << "; the cache held " << text(h0) << "before and " << text(k1) << "/ " << text(k2) << "after");
        VH_CHECK(r2 == again, "cache-not-used", "second use: read were " << text(r2) << " instead of " << text(again)); if (only && !compressed.empty() && !used.empty()) ev("only-compressed-judged");
        VH_CHECK(a == b, "cache-not-transparent", "first use: " << diff(a, b)); VH_CHECK(a == c2, "cache-not-transparent", "second use: " << diff(a, c2)); ev("transparency-compared"); ctx().seenHash(hash64(a.d.data(), a.d.size()));
        uint64_t mem = 0; uint32_t cnt = 0; for (int i = 0; i < count; ++i) { Item g2 = cache->Get(i); if (g2.IsValid()) { ++cnt; mem += sizeOf(g2); } } checkStats(cache.get(), mem, cnt); if (cnt) ev("cache-filled-by-accessor");
        if (r.chance(40)) { ISubBlockCache::PruneOptions o; o.maxMemoryUsage = r.below(mem + 1); cache->Prune(o); auto st = cache->GetStatistics(3); VH_CHECK(st.memoryUsage <= o.maxMemoryUsage, "prune-limit", "still " << st.memoryUsage << " > " << o.maxMemoryUsage); }
    }
}
static void oneCase(Rng& r, uint64_t n) { static const char* only = getenv("C12_ONLY_CONCURRENT"); if (only) { concurrent(r); return; } switch (n % 4) { case 0: case 1: sequential(r); break; case 2: concurrent(r); break; default: transparent(r); } }
int main(int argc, char** argv) { return runMain(argc, argv, "C12", Options{ 8000, 200000 }, oneCase); }
