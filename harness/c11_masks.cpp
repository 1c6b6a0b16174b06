// C11: validity masks: decoding, and mask-aware composition with every accessor.
#include <climits>
#include "comp.hpp"
using namespace comp;
using libCZI::AccessorType;

static void decodeMasks(Rng& r, const TileDoc& d, const std::shared_ptr<libCZI::ISubBlockRepository>& repo)
{
    std::map<std::string, const Tile*> byKey; for (auto& t : d.t) byKey[t.sb.infoKey()] = &t;
    repo->EnumerateSubBlocks([&](int idx, const libCZI::SubBlockInfo& inf)
    {
        auto it = byKey.find(fromInfo(inf).infoKey()); if (it == byKey.end()) return true; const Tile& t = *it->second;
        auto sb = repo->ReadSubBlock(idx); auto md = libCZI::CreateSubBlockMetadataFromSubBlock(sb.get()); auto acc = libCZI::CreateSubBlockAttachmentAccessor(sb, md);
        if (!t.hasMask) { bool threw = false; try { acc->CreateBitonalBitmapFromMaskInfo(); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "mask-from-nothing", "a sub-block without mask gives a mask"); ev("no-mask-reported"); return true; }
        VH_CHECK(acc->HasChunkContainer(), "mask-decode", "chunk container not recognised");
        std::shared_ptr<libCZI::IBitonalBitmapData> b = acc->CreateBitonalBitmapFromMaskInfo(); VH_CHECK(b != nullptr, "mask-decode", "no mask");
        acc.reset(); md.reset(); sb.reset(); // must not depend on them
        VH_CHECK(b->GetWidth() == t.mask.w && b->GetHeight() == t.mask.h, "mask-decode", "size " << b->GetWidth() << "x" << b->GetHeight() << " expected " << t.mask.w << "x" << t.mask.h);
        auto l = b->Lock(); bool same = true; for (uint32_t y = 0; y < t.mask.h; ++y) for (uint32_t x = 0; x < t.mask.w; ++x) { ctx().evals++; bool v = (((const uint8_t*)l.ptrData)[(size_t)y * l.stride + x / 8] >> (7 - x % 8)) & 1; same = same && v == t.mask.get((int)x, (int)y); } b->Unlock();
        VH_CHECK(same, "mask-decode", "the mask's bits differ (" << t.mask.w << "x" << t.mask.h << ", stride " << t.mask.stride << ")"); ev("mask-decoded");
        return r.chance(80);
    });
}
static void malformed(Rng& r)
{
    Tile t; t.sb.coord[2] = 0; t.sb.pw = t.sb.w = r.range(1, 40); t.sb.ph = t.sb.h = r.range(1, 20); t.img = randomImg(r, 0, (uint32_t)t.sb.pw, (uint32_t)t.sb.ph); t.sb.data = t.img.d; t.sb.mValid = true;
    setMask(r, t); Mask m = t.mask; Bytes a; bool mustThrow = true; std::string what;
    auto build = [&](uint32_t size, uint32_t w, uint32_t h, uint32_t rep, uint32_t stride, const Bytes& bits) { a.clear(); Bytes g = maskGuid(); a.insert(a.end(), g.begin(), g.end()); put32(a, size); put32(a, w); put32(a, h); put32(a, rep); put32(a, stride); a.insert(a.end(), bits.begin(), bits.end()); };
    uint32_t full = (uint32_t)(16 + m.bits.size()), minStride = (m.w + 7) / 8; Bytes bits = m.bits;
    switch (r.below(13))
    {
    case 0: build(full + 1 + (uint32_t)r.below(5000), m.w, m.h, 0, m.stride, bits); what = "chunk larger than the attachment"; break;
    case 1: build(0xffffffffu - (uint32_t)r.below(40), m.w, m.h, 0, m.stride, bits); what = "chunk size near 2^32"; break;
    case 2: { size_t need = (size_t)m.stride * (m.h - 1) + minStride; bits.resize(need - 1 - r.below(need)); build((uint32_t)(16 + bits.size()), m.w, m.h, 0, m.stride, bits); what = "too few bits"; } break;
    case 3: build(full, m.w, m.h, 1 + (uint32_t)r.below(9), m.stride, bits); what = "unknown representation"; break;
    case 4: build(full, m.w, m.h, 0, minStride - 1, bits); what = "stride too small"; break;
    case 5: build(full, 0, m.h, 0, m.stride, bits); what = "zero width"; break;
    case 6: build(full, m.w, 0, 0, m.stride, bits); what = "zero height"; break;
    case 7: build(full, m.w + 8 * (m.stride + 1), m.h, 0, m.stride, bits); what = "width larger than stride"; break;
    case 8: build(full, m.w, 0xffffffffu - (uint32_t)r.below(3), 0, m.stride, bits); what = "huge height"; break;
    case 9: build(full, 0xffffffffu - (uint32_t)r.below(8), m.h, 0, m.stride, bits); what = "huge width"; break;
    case 10: build(full, m.w, m.h, 0, 0xffffffffu - (uint32_t)r.below(8), bits); what = "huge stride"; mustThrow = m.h > 1; break;
    case 11: build((uint32_t)r.below(16), m.w, m.h, 0, m.stride, bits); what = "chunk too small for its header"; break;
    default: build(full, m.w, m.h, 0, m.stride, bits); a.resize((size_t)r.below(a.size() - 1)); what = "truncated attachment"; { size_t need = 36 + (size_t)m.stride * (m.h - 1) + minStride; (void)need; } break;
    }
    t.sb.att = a; ctx().currentDesc = "malformed mask: " + what;
    Doc d; d.guid = randomGuid(r); d.sb.push_back(t.sb); auto f = makeFile(); write(r, d, std::make_shared<MemOut>(f), WriteOpts()); auto rd = openReader(f);
    auto sb = rd->ReadSubBlock(0); auto acc = libCZI::CreateSubBlockAttachmentAccessor(sb, nullptr); bool threw = false;
    try { auto b = acc->CreateBitonalBitmapFromMaskInfo(); auto l = b->Lock(); volatile uint8_t s = 0; for (uint32_t y = 0; y < b->GetHeight() && y < 1000; ++y) for (uint32_t x = 0; x < (b->GetWidth() + 7) / 8 && x < 1000; ++x) s = s ^ ((const uint8_t*)l.ptrData)[(size_t)y * l.stride + x]; b->Unlock(); }
    catch (const std::exception&) { threw = true; }
    VH_CHECK(threw || !mustThrow, "malformed-mask-accepted", what); ev("malformed:" + what); ctx().seen(what + std::to_string(hash64(a.data(), a.size())));
    // composing with it must be possible or be refused, without harm
    auto c = rd->CreateSingleChannelTileAccessor(); libCZI::ISingleChannelTileAccessor::Options o; o.Clear(); o.maskAware = true; o.backGroundColor = RgbFloatColor{ 0,0,0 }; CDimCoordinate pc; pc.Set(DimensionIndex::C, 0);
    try { c->Get(IntRect{ -5,-5,60,60 }, &pc, &o); } catch (const std::exception&) {}
}
static void compose(Rng& r)
{
    TileGen g; g.masks = true; g.layers = true; g.factor = 2; g.maxLayer = 2; g.align = 4; g.maxTiles = r.pick({ 3, 8, 14 }); g.extent = r.pick({ 12, 60 }); g.maxSize = r.pick({ 20, 40 }); if (r.below(150) == 0) { g.maxSize = 280; ev("large-tiles"); } g.mixedTypes = false;
    TileDoc d = makeTiles(r, g); auto repo = openRepo(r, d);
    if (r.chance(50)) decodeMasks(r, d, repo);
    std::shared_ptr<libCZI::ISubBlockCache> cache;
    for (int q = r.range(1, 5); q > 0; --q)
    {
        auto plane = randomPlane(r, d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(r, d); bool maskAware = r.chance(75), sortByM = r.chance(90), vis = r.chance(50); RgbFloatColor bg; Back back = randomBack(r, bg);
        int kind = (int)r.below(3); std::vector<const Tile*> tiles; int f = 1, layer = 0; float zoom = 1; SceneSel all; int W = roi.w, H = roi.h; bool judge = true;
        if (kind == 1) { layer = r.range(0, 2); f = 1 << layer; roi.x = (roi.x >> 2) * 4; roi.y = (roi.y >> 2) * 4; W = std::max(1, roi.w / f); H = std::max(1, roi.h / f); roi.w = W * f; roi.h = H * f; }
        if (kind == 2) { zoom = r.chance(40) ? 1 : r.pick({ 0.5f, 0.7f, 0.33f, 0.9f, 0.25f }); W = (int)(uint32_t)(roi.w * zoom); H = (int)(uint32_t)(roi.h * zoom); if (!W || !H) continue; judge = tilesForZoom(d, plane, roi, zoom, all, tiles); }
        else for (auto& t : d.t) if (t.layer == layer && onPlane(t, plane)) tiles.push_back(&t);
        int dt = destType(r, tiles); if (dt < 0 || !judge) continue;
        std::ostringstream ds; ds << (kind == 0 ? "tile" : kind == 1 ? "pyramid layer " + std::to_string(layer) : "scaling " + std::to_string(zoom)) << ", " << tiles.size() << " tiles" << (maskAware ? " mask-aware" : "") << (vis ? " vis" : "") << " roi " << roi.x << "," << roi.y << "," << roi.w << "x" << roi.h << " plane " << libCZI::Utils::DimCoordinateToString(&pc); ctx().currentDesc = ds.str(); ctx().sample(ds.str());
        CallerBitmap cb(r, dt, (uint32_t)W, (uint32_t)H, r.chance(40) ? 0 : (uint32_t)r.range(1, 40)); if (dt == 2) cb.set(randomImg(r, 2, cb.w, cb.h)); Img before = cb.img();
        auto common = [&](auto& o) { o.Clear(); o.backGroundColor = bg; o.sortByM = sortByM; o.maskAware = maskAware; cacheOptions(r, o, cache); };
        if (kind == 0) { libCZI::ISingleChannelTileAccessor::Options o; common(o); o.useVisibilityCheckOptimization = vis; accessor<libCZI::ISingleChannelTileAccessor>(repo, AccessorType::SingleChannelTileAccessor)->Get(&cb, roi.x, roi.y, &pc, &o); }
        else if (kind == 1) { libCZI::ISingleChannelPyramidLayerTileAccessor::Options o; common(o); accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(repo, AccessorType::SingleChannelPyramidLayerTileAccessor)->Get(&cb, roi.x, roi.y, &pc, { 2, (uint8_t)layer }, &o); }
        else { libCZI::ISingleChannelScalingTileAccessor::Options o; common(o); o.useVisibilityCheckOptimization = vis; accessor<libCZI::ISingleChannelScalingTileAccessor>(repo, AccessorType::SingleChannelScalingTileAccessor)->Get(&cb, roi, &pc, zoom, &o); }
        cb.checkPadding("mask-aware"); cb.checkLocks("mask-aware"); Img got = cb.img();
        if (kind == 2 && zoom != 1) judgeScaled(tiles, got, &before, roi, sortByM, maskAware, back, ds.str());
        else judgeExact(tiles, got, &before, roi.x, roi.y, f, sortByM, maskAware, false, back, ds.str(), kind == 2);
        ev(std::string(kind == 0 ? "tile" : kind == 1 ? "pyramid" : "scaling") + (maskAware ? "-mask-aware" : "-plain")); ctx().seenHash(hash64(got.d.data(), got.d.size())); ctx().seen(ds.str());
    }
}
/// the compositor itself, with masks of any size/stride from the caller
struct CallerMask : libCZI::IBitonalBitmapData
{
    Mask m; std::unique_ptr<uint8_t[]> p; int locks = 0; explicit CallerMask(const Mask& q) : m(q), p(new uint8_t[q.bits.size()]) { memcpy(p.get(), q.bits.data(), q.bits.size()); }
    libCZI::IntSize GetSize() const override { return { m.w, m.h }; }
    libCZI::BitonalBitmapLockInfo Lock() override { ++locks; libCZI::BitonalBitmapLockInfo b; b.ptrData = p.get(); b.stride = m.stride; b.size = m.bits.size(); return b; }
    void Unlock() override { --locks; }
    int GetLockCount() const override { return locks; }
};
static void compositor(Rng& r)
{
    int W = r.range(1, 50), H = r.range(1, 40), x0 = r.range(-60, 60), y0 = r.range(-60, 60); int dt = r.pick({ 0,1,2,3,4 }); int n = r.range(0, 6);
    std::vector<Tile> tiles; std::vector<std::shared_ptr<CallerBitmap>> bm; std::vector<std::shared_ptr<CallerMask>> mk;
    for (int i = 0; i < n; ++i)
    {
        int st = r.pick({ 0,1,2,3,4 }); if (!convertible(st, dt)) st = dt; Tile t; t.sb.pt = st; t.sb.pw = t.sb.w = r.range(1, 30); t.sb.ph = t.sb.h = r.range(1, 30); t.sb.x = x0 + r.range(-40, 60); t.sb.y = y0 + r.range(-40, 50); t.sb.mValid = true; t.sb.m = i; if (r.chance(4)) { int& c = r.chance(50) ? t.sb.x : t.sb.y; c = r.pick({ INT_MIN, INT_MIN + r.range(0, 100), 2147483600, 2147483600 - r.range(0, 100) }); ev("far-away-tile"); }
        t.img = randomImg(r, st, (uint32_t)t.sb.pw, (uint32_t)t.sb.ph); if (r.chance(75)) setMask(r, t); auto b = std::make_shared<CallerBitmap>(r, st, t.img.w, t.img.h, r.chance(50) ? 0 : (uint32_t)r.range(1, 20)); b->set(t.img); bm.push_back(b); mk.push_back(t.hasMask ? std::make_shared<CallerMask>(t.mask) : nullptr); tiles.push_back(t);
    }
    CallerBitmap dst(r, dt, (uint32_t)W, (uint32_t)H, r.chance(50) ? 0 : (uint32_t)r.range(1, 33)); if (dt == 2) dst.set(randomImg(r, 2, dst.w, dst.h)); Img before = dst.img();
    ctx().currentDesc = "compositor, " + std::to_string(n) + " tiles into " + ptName(dt) + " " + std::to_string(W) + "x" + std::to_string(H);
    libCZI::Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<libCZI::IBitmapData>& s, std::shared_ptr<libCZI::IBitonalBitmapData>& m, int& x, int& y) { if (i >= n) return false; s = bm[i]; m = mk[i]; x = tiles[i].sb.x; y = tiles[i].sb.y; return true; }, &dst, x0, y0, nullptr);
    dst.checkPadding("compositor"); dst.checkLocks("compositor"); for (auto& b : bm) { b->checkLocks("source"); b->checkUnmodified("source"); } for (auto& m : mk) if (m) VH_CHECK(m->locks == 0 && memcmp(m->p.get(), m->m.bits.data(), m->m.bits.size()) == 0, "mask-lock", "the mask is still locked or was modified");
    std::vector<const Tile*> tp; for (auto& t : tiles) tp.push_back(&t); Img got = dst.img(); judgeExact(tp, got, &before, x0, y0, 1, true, true, false, Back(), "compositor"); ev("compositor"); ctx().seenHash(hash64(got.d.data(), got.d.size()));
}
static void oneCase(Rng& r, uint64_t) { int k = (int)r.below(10); if (k < 2) malformed(r); else if (k < 4) compositor(r); else compose(r); }
int main(int argc, char** argv) { return runMain(argc, argv, "C11", Options{ 8000, 200000 }, oneCase); }
