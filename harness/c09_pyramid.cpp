// C09: the pyramid-layer accessor composes exactly the tiles of the requested layer.
#include "comp.hpp"
using namespace comp;
using Acc = libCZI::ISingleChannelPyramidLayerTileAccessor;

static void oneCase(Rng& r, uint64_t)
{
    TileGen g; g.layers = true; g.oddSizes = true; g.factor = r.pick({ 2, 2, 3, 4 }); g.maxLayer = r.pick({ 1, 2, 3 }); if (g.factor > 2 && g.maxLayer > 2) g.maxLayer = 2; g.align = 1; for (int i = 0; i < g.maxLayer; ++i) g.align *= g.factor;
    g.maxTiles = r.pick({ 3, 8, 16 }); g.extent = 100; g.maxSize = r.pick({ 12, 40 });
    TileDoc d = makeTiles(r, g);
    auto repo = openRepo(r, d); auto acc = accessor<Acc>(repo, libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor);
    auto plain = accessor<libCZI::ISingleChannelTileAccessor>(repo, libCZI::AccessorType::SingleChannelTileAccessor);
    std::shared_ptr<libCZI::ISubBlockCache> cache;
    for (int q = r.range(1, 5); q > 0; --q)
    {
        auto plane = randomPlane(r, d); CDimCoordinate pc = toCoord(plane);
        int layer = r.chance(8) ? r.range(g.maxLayer + 1, 6) : r.range(0, g.maxLayer); int f = 1; for (int i = 0; i < layer; ++i) f *= g.factor;
        Acc::PyramidLayerInfo li; li.minificationFactor = (uint8_t)g.factor; li.pyramidLayerNo = (uint8_t)layer; if (layer == 0) li.minificationFactor = (uint8_t)r.pick({ 0, 1, 2, 3, g.factor });
        IntRect roi = randomRoi(r, d); int ox = ((roi.x % f) + f) % f, oy = ((roi.y % f) + f) % f; roi.x -= ox; roi.y -= oy; int W = r.chance(60) ? r.range(1, 60) : std::max(1, roi.w / f), H = r.chance(60) ? r.range(1, 60) : std::max(1, roi.h / f);
        roi.w = W * f + r.range(0, f - 1); roi.h = H * f + r.range(0, f - 1);
        Acc::Options o; o.Clear(); Back back = randomBack(r, o.backGroundColor); SceneSel sel = randomScenes(r, 30); o.sceneFilter = sel.filter; o.sortByM = r.chance(85); o.drawTileBorder = r.chance(10); cacheOptions(r, o, cache);
        const Acc::Options* po = &o; if (r.chance(8)) { po = nullptr; o.Clear(); back = Back(); sel = SceneSel(); }
        std::vector<const Tile*> tiles; for (auto& t : d.t) if (t.layer == layer && onPlane(t, plane) && sel.has(t) && t.sb.x < roi.x + W * f && t.sb.y < roi.y + H * f && t.sb.x + t.sb.w > roi.x && t.sb.y + t.sb.h > roi.y) tiles.push_back(&t);
        std::ostringstream ds; ds << d.t.size() << " tiles, factor " << (int)li.minificationFactor << " layer " << layer << " plane " << libCZI::Utils::DimCoordinateToString(&pc) << " roi " << roi.x << "," << roi.y << "," << roi.w << "x" << roi.h << (o.sortByM ? " M" : "") << (sel.filter ? " scenes" : "") << (o.subBlockCache ? " cache" : "");
        ctx().currentDesc = ds.str(); ctx().sample(ds.str());
        if (r.chance(4))
        { // scale factors which cannot be
            Acc::PyramidLayerInfo b; if (r.chance(50)) { b.minificationFactor = 0; b.pyramidLayerNo = (uint8_t)r.range(1, 255); } else { b.minificationFactor = (uint8_t)r.range(2, 255); b.pyramidLayerNo = (uint8_t)r.range(32, 255); }
            bool threw = false; try { acc->Get(PixelType::Gray8, roi, &pc, b, po); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "impossible-layer", "layer " << (int)b.pyramidLayerNo << " of factor " << (int)b.minificationFactor << " accepted"); ev("impossible-layer-refused"); continue;
        }
        int dt = destType(r, tiles); if (dt < 0) continue;
        CDimCoordinate bad; std::string what;
        if (r.chance(10) && invalidPlane(r, d, plane, bad, what))
        {
            CallerBitmap cb(r, dt, (uint32_t)W, (uint32_t)H, 3); bool right = false;
            try { if (r.chance(60)) acc->Get(&cb, roi.x, roi.y, &bad, li, po); else acc->Get((PixelType)dt, roi, &bad, li, po); } catch (const libCZI::LibCZIInvalidPlaneCoordinateException&) { right = true; }
            VH_CHECK(right, "invalid-plane-accepted", what); cb.checkUnmodified("invalid plane"); cb.checkLocks("invalid plane"); ev("invalid-plane-rejected"); continue;
        }
        Img got, before; const Img* pb = nullptr; std::string who; int v = (int)r.below(4);
        if (v <= 1)
        {
            CallerBitmap cb(r, dt, (uint32_t)W, (uint32_t)H, r.chance(40) ? 0 : (uint32_t)r.range(1, 40)); if (dt == 2) cb.set(randomImg(r, 2, (uint32_t)W, (uint32_t)H)); before = cb.img(); pb = &before;
            acc->Get(&cb, roi.x, roi.y, &pc, li, po); cb.checkPadding("pyramid accessor"); cb.checkLocks("pyramid accessor"); got = cb.img(); who = "into caller bitmap";
        }
        else if (v == 2) { got = fromBitmap(acc->Get((PixelType)dt, roi, &pc, li, po).get()); VH_EQ(got.pt, dt, "composite-type", ds.str()); who = "with pixel type"; }
        else
        {
            std::shared_ptr<libCZI::IBitmapData> b;
            try { b = acc->Get(roi, &pc, li, po); } catch (const libCZI::LibCZIAccessorException&) { bool none = true; for (auto& t : d.t) if (plane.count(2) && t.sb.coord.at(2) == plane[2]) none = false; VH_CHECK(none && d.bounds.count(2), "pixeltype-not-determined", ds.str()); continue; } catch (const std::exception&) { if (d.mixed) continue; throw; }
            got = fromBitmap(b.get()); who = "automatic pixel type"; bool ok = true; for (auto* t : tiles) ok = ok && convertible(t->sb.pt, got.pt); if (!ok) continue;
        }
        VH_CHECK((int)got.w == W && (int)got.h == H, "composite-size", "got " << got.w << "x" << got.h << ", expected " << W << "x" << H);
        judgeExact(tiles, got, pb, roi.x, roi.y, f, o.sortByM, false, o.drawTileBorder, back, who); ev("layer" + std::to_string(std::min(layer, 4)) + (tiles.empty() ? "-empty" : "-tiles"));
        if (layer == 0 && back.set && o.sortByM && !o.drawTileBorder)
        {
            libCZI::ISingleChannelTileAccessor::Options t; t.Clear(); t.backGroundColor = o.backGroundColor; t.sceneFilter = o.sceneFilter;
            bool ties = false; for (size_t a = 0; a < tiles.size(); ++a) for (size_t b = 0; b < a; ++b) ties = ties || mKey(tiles[a]) == mKey(tiles[b]);
            if (!ties) { Img e = fromBitmap(plain->Get((PixelType)got.pt, IntRect{ roi.x, roi.y, W, H }, &pc, &t).get()); VH_CHECK(e == got, "layer0-differs", diff(e, got)); ev("layer0-equals-tile-accessor"); }
        }
        ctx().seenHash(hash64(got.d.data(), got.d.size())); ctx().seen(ds.str());
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C09", Options{ 8000, 200000 }, oneCase); }
