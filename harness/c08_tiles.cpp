// C08: the single-channel tile accessor and the tile compositor against the by-definition composite.
#include <climits>
#include "comp.hpp"
using namespace comp;
using Acc = libCZI::ISingleChannelTileAccessor;

static std::string rs(const IntRect& q) { std::ostringstream o; o << q.x << "," << q.y << "," << q.w << "x" << q.h; return o.str(); }

static void viaAccessor(Rng& r)
{
    TileGen g; g.layers = r.chance(40); g.maxLayer = 2; g.maxTiles = r.pick({ 2, 6, 16 }); if (r.chance(30)) { g.extent = 12; g.maxSize = 30; } if (r.below(150) == 0) { g.maxSize = 300; g.extent = 200; ev("large-tiles"); } else if (r.below(150) == 0) { g.maxTiles = 90; ev("many-tiles"); }
    TileDoc d = makeTiles(r, g);
    auto repo = openRepo(r, d); auto acc = accessor<Acc>(repo, libCZI::AccessorType::SingleChannelTileAccessor);
    std::shared_ptr<libCZI::ISubBlockCache> cache;
    for (int q = r.range(1, 5); q > 0; --q)
    {
        auto plane = randomPlane(r, d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(r, d);
        Acc::Options o; o.Clear(); Back back = randomBack(r, o.backGroundColor); SceneSel sel = randomScenes(r, 35); o.sceneFilter = sel.filter;
        o.sortByM = r.chance(85); o.useVisibilityCheckOptimization = r.chance(50); o.drawTileBorder = r.chance(15); cacheOptions(r, o, cache);
        const Acc::Options* po = &o; if (r.chance(8)) { po = nullptr; o.Clear(); back = Back(); sel = SceneSel(); }
        // the tiles which contribute
        std::vector<const Tile*> tiles; for (auto& t : d.t) if (t.sb.layer0() && onPlane(t, plane) && sel.has(t) && t.sb.x < roi.x + roi.w && t.sb.y < roi.y + roi.h && t.sb.x + t.sb.w > roi.x && t.sb.y + t.sb.h > roi.y) tiles.push_back(&t);
        std::ostringstream ds; ds << d.t.size() << " tiles, plane " << libCZI::Utils::DimCoordinateToString(&pc) << ", roi " << rs(roi) << (o.sortByM ? " M-sorted" : "") << (o.useVisibilityCheckOptimization ? " vis" : "") << (o.drawTileBorder ? " border" : "") << (o.subBlockCache ? " cache" : "") << (sel.filter ? " scenes" : "");
        ctx().currentDesc = ds.str(); ctx().sample(ds.str());
        int dt = destType(r, tiles); if (dt < 0) { ev("not-convertible"); continue; }
        CDimCoordinate bad; std::string what;
        if (r.chance(20) && invalidPlane(r, d, plane, bad, what))
        {
            CallerBitmap cb(r, dt, (uint32_t)roi.w, (uint32_t)roi.h, (uint32_t)r.range(0, 9)); bool right = false;
            try { if (r.chance(60)) acc->Get(&cb, roi.x, roi.y, &bad, po); else if (r.chance(50)) acc->Get((PixelType)dt, roi, &bad, po); else acc->Get(roi, &bad, po); }
            catch (const libCZI::LibCZIInvalidPlaneCoordinateException&) { right = true; } catch (const libCZI::LibCZIAccessorException&) { right = true; }
            VH_CHECK(right, "invalid-plane-accepted", what << ": " << libCZI::Utils::DimCoordinateToString(&bad)); cb.checkUnmodified("invalid plane"); cb.checkLocks("invalid plane"); ev("invalid-plane-rejected"); continue;
        }
        Img got; Img before; const Img* pb = nullptr; int variant = (int)r.below(4); std::string who;
        if (variant <= 1)
        {
            CallerBitmap cb(r, dt, (uint32_t)roi.w, (uint32_t)roi.h, r.chance(40) ? 0 : (uint32_t)r.range(1, 40));
            if (dt == 2) { Img init = randomImg(r, 2, (uint32_t)roi.w, (uint32_t)roi.h); cb.set(init); }
            before = cb.img(); pb = &before; acc->Get(&cb, roi.x, roi.y, &pc, po); cb.checkPadding("tile accessor"); cb.checkLocks("tile accessor"); got = cb.img(); who = "into caller bitmap";
        }
        else if (variant == 2) { auto b = acc->Get((PixelType)dt, roi, &pc, po); got = fromBitmap(b.get()); VH_EQ(got.pt, dt, "composite-type", ds.str()); who = "with pixel type"; }
        else
        {
            std::shared_ptr<libCZI::IBitmapData> b;
            try { b = r.chance(50) ? acc->Get(roi, &pc, po) : acc->Get(roi.x, roi.y, roi.w, roi.h, &pc, po); }
            catch (const libCZI::LibCZIAccessorException&) { bool none = true; for (auto& t : d.t) if (plane.count(2) && t.sb.coord.at(2) == plane[2]) none = false; VH_CHECK(none && d.bounds.count(2), "pixeltype-not-determined", ds.str()); ev("pixeltype-undetermined"); continue; }
            catch (const std::exception& e) { if (d.mixed) continue; throw; }
            got = fromBitmap(b.get()); who = "automatic pixel type";
            std::set<int> possible; for (auto& t : d.t) if (!plane.count(2) || t.sb.coord.at(2) == plane[2]) possible.insert(t.sb.pt);
            if (!possible.empty()) VH_CHECK(possible.count(got.pt), "composite-type", "the pixel type " << ptName(got.pt) << " does not occur in the channel");
            bool ok = true; for (auto* t : tiles) ok = ok && convertible(t->sb.pt, got.pt); if (!ok) continue;
        }
        VH_CHECK((int)got.w == roi.w && (int)got.h == roi.h, "composite-size", "got " << got.w << "x" << got.h);
        judgeExact(tiles, got, pb, roi.x, roi.y, 1, o.sortByM, false, o.drawTileBorder, back, who);
        ctx().seenHash(hash64(got.d.data(), got.d.size())); ctx().seen(ds.str()); if (tiles.size() > 1) ev("several-tiles");
    }
}
/// the public compositor: the tiles are drawn in the order in which they are delivered
static void viaCompositor(Rng& r)
{
    int W = r.range(1, 50), H = r.range(1, 40), x0 = r.range(-60, 60), y0 = r.range(-60, 60); if (r.chance(20)) { x0 += 2000000000; y0 -= 2000000000; }
    int dt = r.pick({ 0,1,2,3,4 }); int n = r.range(0, 7); std::vector<Tile> tiles; std::vector<std::shared_ptr<CallerBitmap>> bm;
    for (int i = 0; i < n; ++i)
    {
        int st = r.pick({ 0,1,2,3,4 }); if (!convertible(st, dt)) st = dt; Tile t; t.sb.pt = st; t.sb.pw = t.sb.w = r.range(1, 30); t.sb.ph = t.sb.h = r.range(1, 30); t.sb.x = x0 + r.range(-40, 60); t.sb.y = y0 + r.range(-40, 50); t.sb.mValid = true; t.sb.m = i; if (r.chance(4)) { int& c = r.chance(50) ? t.sb.x : t.sb.y; c = r.pick({ INT_MIN, INT_MIN + r.range(0, 100), 2147483600, 2147483600 - r.range(0, 100) }); ev("far-away-tile"); }
        t.img = randomImg(r, st, (uint32_t)t.sb.pw, (uint32_t)t.sb.ph); auto b = std::make_shared<CallerBitmap>(r, st, t.img.w, t.img.h, r.chance(50) ? 0 : (uint32_t)r.range(1, 20)); b->set(t.img); bm.push_back(b); tiles.push_back(t);
    }
    CallerBitmap dst(r, dt, (uint32_t)W, (uint32_t)H, r.chance(50) ? 0 : (uint32_t)r.range(1, 33)); if (dt == 2) dst.set(randomImg(r, 2, dst.w, dst.h));
    Img before = dst.img(); libCZI::Compositors::ComposeSingleTileOptions o; o.Clear(); o.drawTileBorder = r.chance(25);
    const auto* po = !o.drawTileBorder && r.chance(30) ? nullptr : &o;
    std::ostringstream ds; ds << "compositor " << n << " tiles into " << ptName(dt) << " " << W << "x" << H << (o.drawTileBorder ? " border" : ""); ctx().currentDesc = ds.str();
    if (r.chance(50)) libCZI::Compositors::ComposeSingleChannelTiles([&](int i, std::shared_ptr<libCZI::IBitmapData>& s, int& x, int& y) { if (i >= n) return false; s = bm[i]; x = tiles[i].sb.x; y = tiles[i].sb.y; return true; }, &dst, x0, y0, po);
    else libCZI::Compositors::ComposeSingleChannelTilesMaskAware([&](int i, std::shared_ptr<libCZI::IBitmapData>& s, std::shared_ptr<libCZI::IBitonalBitmapData>&, int& x, int& y) { if (i >= n) return false; s = bm[i]; x = tiles[i].sb.x; y = tiles[i].sb.y; return true; }, &dst, x0, y0, po);
    dst.checkPadding("compositor"); dst.checkLocks("compositor"); for (auto& b : bm) { b->checkLocks("compositor source"); b->checkUnmodified("compositor source"); }
    std::vector<const Tile*> tp; for (auto& t : tiles) tp.push_back(&t);
    Img got = dst.img(); judgeExact(tp, got, &before, x0, y0, 1, true, false, o.drawTileBorder, Back(), "compositor"); ev("compositor"); ctx().seenHash(hash64(got.d.data(), got.d.size()));
}
static void oneCase(Rng& r, uint64_t) { if (r.chance(25)) viaCompositor(r); else viaAccessor(r); }
int main(int argc, char** argv) { return runMain(argc, argv, "C08", Options{ 8000, 200000 }, oneCase); }
