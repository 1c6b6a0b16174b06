// C10: the scaling accessor.
#include "comp.hpp"
using namespace comp;
using Acc = libCZI::ISingleChannelScalingTileAccessor;

static void oneCase(Rng& r, uint64_t)
{
    TileGen g; g.layers = r.chance(70); g.factor = r.pick({ 2, 2, 3 }); g.maxLayer = r.range(1, 3); g.maxTiles = r.pick({ 3, 8, 16 }); g.extent = r.pick({ 30, 120 }); g.maxSize = r.pick({ 16, 50, 90 }); if (r.below(150) == 0) { g.maxSize = 300; g.extent = 250; ev("large-tiles"); } else if (r.below(150) == 0) { g.maxTiles = 70; ev("many-tiles"); }
    TileDoc d = makeTiles(r, g);
    auto repo = openRepo(r, d); auto acc = accessor<Acc>(repo, libCZI::AccessorType::SingleChannelScalingTileAccessor);
    std::shared_ptr<libCZI::ISubBlockCache> cache;
    for (int q = r.range(1, 5); q > 0; --q)
    {
        auto plane = randomPlane(r, d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(r, d); if (r.chance(30)) { roi.w *= 2; roi.h *= 3; }
        float zoom = 1; switch (r.below(6)) { case 0: case 1: zoom = 1; break; case 2: zoom = 1.0f / (float)r.range(2, 9); break; case 3: zoom = 0.03f + 0.97f * (float)r.unit(); break; case 4: zoom = r.pick({ 0.999f, 0.5f, 0.25f, 0.75f, 1 / 3.0f, 0.9f, 0.49f }); break; default: zoom = 0.3f + 0.7f * (float)r.unit(); break; }
        Acc::Options o; o.Clear(); Back back = randomBack(r, o.backGroundColor); SceneSel sel = randomScenes(r, 35); o.sceneFilter = sel.filter; o.sortByM = r.chance(85); o.useVisibilityCheckOptimization = r.chance(50); cacheOptions(r, o, cache);
        const Acc::Options* po = &o; if (r.chance(8)) { po = nullptr; o.Clear(); back = Back(); sel = SceneSel(); }
        std::vector<const Tile*> tiles; bool judge = tilesForZoom(d, plane, roi, zoom, sel, tiles);
        int W = (int)(uint32_t)(roi.w * zoom), H = (int)(uint32_t)(roi.h * zoom);
        std::ostringstream ds; ds << d.t.size() << " tiles, zoom " << zoom << " plane " << libCZI::Utils::DimCoordinateToString(&pc) << " roi " << roi.x << "," << roi.y << "," << roi.w << "x" << roi.h << (o.sortByM ? " M" : "") << (o.useVisibilityCheckOptimization ? " vis" : "") << (sel.filter ? " scenes" : "") << (o.subBlockCache ? " cache" : "") << " -> " << tiles.size() << " tiles";
        ctx().currentDesc = ds.str(); ctx().sample(ds.str());
        libCZI::IntSize cs = acc->CalcSize(roi, zoom); VH_CHECK((int)cs.w == W && (int)cs.h == H, "announced-size", "CalcSize gives " << cs.w << "x" << cs.h << ", expected " << W << "x" << H);
        if (W == 0 || H == 0) { ev("empty-size"); continue; }
        int dt = destType(r, tiles); if (dt < 0) continue;
        CDimCoordinate bad; std::string what;
        if (r.chance(10))
        {
            bool wrongSize = r.chance(50); if (!wrongSize && !invalidPlane(r, d, plane, bad, what)) continue;
            CallerBitmap cb(r, dt, (uint32_t)(W + (wrongSize ? (W > 1 && r.chance(50) ? -1 : 1) : 0)), (uint32_t)H, 3); bool right = false;
            try { acc->Get(&cb, roi, wrongSize ? &pc : &bad, zoom, po); } catch (const libCZI::LibCZIInvalidPlaneCoordinateException&) { right = !wrongSize; } catch (const std::invalid_argument&) { right = wrongSize; }
            VH_CHECK(right, "invalid-request-accepted", (wrongSize ? "bitmap of another size" : what)); cb.checkUnmodified("invalid request"); cb.checkLocks("invalid request"); ev(wrongSize ? "wrong-size-rejected" : "invalid-plane-rejected"); continue;
        }
        Img got, before; const Img* pb = nullptr; std::string who; int v = (int)r.below(4);
        if (v <= 1)
        {
            CallerBitmap cb(r, dt, (uint32_t)W, (uint32_t)H, r.chance(40) ? 0 : (uint32_t)r.range(1, 40)); if (dt == 2) cb.set(randomImg(r, 2, (uint32_t)W, (uint32_t)H)); before = cb.img(); pb = &before;
            try { acc->Get(&cb, roi, &pc, zoom, po); } catch (const std::exception&) { if (judge || !d.mixed) { bool conv = true; for (auto& t : d.t) conv = conv && convertible(t.sb.pt, dt); if (judge || conv) throw; } continue; }
            cb.checkPadding("scaling accessor"); cb.checkLocks("scaling accessor"); got = cb.img(); who = "into caller bitmap";
        }
        else if (v == 2) { try { got = fromBitmap(acc->Get((PixelType)dt, roi, &pc, zoom, po).get()); } catch (const std::exception&) { if (judge) throw; continue; } VH_EQ(got.pt, dt, "composite-type", ds.str()); who = "with pixel type"; }
        else
        {
            std::shared_ptr<libCZI::IBitmapData> b;
            try { b = acc->Get(roi, &pc, zoom, po); } catch (const libCZI::LibCZIAccessorException&) { bool none = true; for (auto& t : d.t) if (plane.count(2) && t.sb.coord.at(2) == plane[2]) none = false; VH_CHECK(none && d.bounds.count(2), "pixeltype-not-determined", ds.str()); continue; } catch (const std::exception&) { if (d.mixed || !judge) continue; throw; }
            got = fromBitmap(b.get()); who = "automatic pixel type"; bool ok = true; for (auto* t : tiles) ok = ok && convertible(t->sb.pt, got.pt); if (!ok) continue;
        }
        VH_CHECK((int)got.w == W && (int)got.h == H, "composite-size", "got " << got.w << "x" << got.h << ", expected " << W << "x" << H);
        if (!judge) { ev("not-judged"); continue; }
        if (zoom == 1) { judgeExact(tiles, got, pb, roi.x, roi.y, 1, o.sortByM, false, false, back, who, true); ev("zoom1"); }
        else { judgeScaled(tiles, got, pb, roi, o.sortByM, false, back, who); ev(!tiles.empty() && tiles[0]->layer ? "from-pyramid-layer" : "from-layer0"); }
        ctx().seenHash(hash64(got.d.data(), got.d.size())); ctx().seen(ds.str());
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C10", Options{ 6000, 150000 }, oneCase); }
