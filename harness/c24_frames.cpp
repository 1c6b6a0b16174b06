// C24: frame-of-reference transforms are exact, invertible, and mean the same in every accessor.
#include "comp.hpp"
#include "stats.hpp"
#include <climits>
using namespace comp;
using libCZI::CZIFrameOfReference; using libCZI::IntPointAndFrameOfReference; using libCZI::IntRectAndFrameOfReference;
static const CZIFrameOfReference kRaw = CZIFrameOfReference::RawSubBlockCoordinateSystem, kPix = CZIFrameOfReference::PixelCoordinateSystem, kDef = CZIFrameOfReference::Default, kInv = CZIFrameOfReference::Invalid;
static const char* fname(CZIFrameOfReference f) { return f == kRaw ? "raw" : f == kPix ? "pixel" : f == kDef ? "default" : f == kInv ? "invalid" : "other"; }

struct RwInfo : libCZI::ICziReaderWriterInfo
{
    CZIFrameOfReference f; libCZI::GUID g{ 1,2,3,{4,5,6,7,8,9,10,11} }; explicit RwInfo(CZIFrameOfReference f) : f(f) {}
    bool GetForceFileGuid() const override { return false; } const libCZI::GUID& GetFileGuid() const override { return g; } CZIFrameOfReference GetDefaultFrameOfReference() const override { return f; }
};

static int coordinate(Rng& r, int64_t o)
{
    switch (r.below(6))
    {
    case 0: return r.range(-1000, 1000);
    case 1: return r.pick({ INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 0, -1, 1 });
    case 2: { int64_t v = r.chance(50) ? (int64_t)INT_MAX - o + r.range(-2, 2) : (int64_t)INT_MIN - o + r.range(-2, 2); return (int)std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, v)); }
    case 3: { int64_t v = r.chance(50) ? (int64_t)INT_MAX + o + r.range(-2, 2) : (int64_t)INT_MIN + o + r.range(-2, 2); return (int)std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, v)); }
    case 4: return (int)(uint32_t)r.next();
    default: return (int)(o + r.range(-500, 500));
    }
}
/// what the transform has to give
static void checkTransforms(Rng& r, libCZI::ISubBlockRepository* repo, const std::vector<Sb>& sb, CZIFrameOfReference def, const std::string& who)
{
    stats::Box b; for (auto& s : sb) if (s.layer0()) b.add(s);
    if (!b.valid) { b.x0 = b.y0 = 0; ev("no-layer0"); }
    auto cons = [&](CZIFrameOfReference f) { return f == kDef ? def : f; };
    for (int q = r.range(2, 10); q > 0; --q)
    {
        CZIFrameOfReference s = r.pick({ kRaw, kPix, kPix, kDef, kRaw }), d = r.pick({ kRaw, kPix, kPix, kDef, kRaw });
        bool bad = r.chance(6); if (bad) { CZIFrameOfReference x = r.pick({ kInv, (CZIFrameOfReference)4, (CZIFrameOfReference)255 }); if (r.chance(50)) s = x; else d = x; }
        IntPointAndFrameOfReference p; p.frame_of_reference = s; p.point = { coordinate(r, b.x0), coordinate(r, b.y0) };
        IntRectAndFrameOfReference rc; rc.frame_of_reference = s; rc.rectangle = { p.point.x, p.point.y, r.chance(20) ? INT_MAX : r.range(0, 100000), r.chance(20) ? INT_MAX : r.range(0, 100000) };
        std::ostringstream ds; ds << who << ": (" << p.point.x << "," << p.point.y << ") from " << fname(s) << " to " << fname(d) << ", default " << fname(def) << ", origin " << b.x0 << "," << b.y0; ctx().currentDesc = ds.str(); ctx().evals++;
        if (bad)
        {
            bool t1 = false, t2 = false; try { repo->TransformPoint(p, d); } catch (const std::exception&) { t1 = true; } try { repo->TransformRectangle(rc, d); } catch (const std::exception&) { t2 = true; }
            VH_CHECK(t1 && t2, "frame-invalid-accepted", ds.str()); ev("invalid-frame-refused"); continue;
        }
        CZIFrameOfReference cs = cons(s), cd = cons(d); int sign = cs == cd ? 0 : cd == kRaw ? 1 : -1;
        int64_t ex = p.point.x + sign * b.x0, ey = p.point.y + sign * b.y0; bool fits = ex >= INT_MIN && ex <= INT_MAX && ey >= INT_MIN && ey <= INT_MAX;
        bool threw = false; IntPointAndFrameOfReference g; IntRectAndFrameOfReference gr;
        try { g = repo->TransformPoint(p, d); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw != fits, "frame-range", ds.str() << (threw ? " was refused" : " was accepted although the result cannot be represented"));
        threw = false; try { gr = repo->TransformRectangle(rc, d); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw != fits, "frame-range", ds.str() << " as rectangle " << (threw ? " was refused" : " was accepted although the result cannot be represented"));
        if (!fits) { ev("unrepresentable-refused"); continue; }
        VH_CHECK(g.point.x == ex && g.point.y == ey, "frame-point", ds.str() << ": got " << g.point.x << "," << g.point.y << " expected " << ex << "," << ey);
        VH_CHECK(g.frame_of_reference == cd, "frame-tag", ds.str() << ": result says " << fname(g.frame_of_reference));
        VH_CHECK(gr.rectangle.x == ex && gr.rectangle.y == ey && gr.rectangle.w == rc.rectangle.w && gr.rectangle.h == rc.rectangle.h && gr.frame_of_reference == cd, "frame-rectangle", ds.str() << ": got " << gr.rectangle.x << "," << gr.rectangle.y << "," << gr.rectangle.w << "x" << gr.rectangle.h << " " << fname(gr.frame_of_reference));
        auto back = repo->TransformPoint(g, s); VH_CHECK(back.point.x == p.point.x && back.point.y == p.point.y, "frame-inverse", ds.str()); 
        ev(std::string("transform:") + fname(cs) + "-" + fname(cd)); ctx().seen(ds.str());
    }
}
static IntRect shifted(const IntRect& a, int dx, int dy) { return { a.x + dx, a.y + dy, a.w, a.h }; }

static void accessors(Rng& r, const TileDoc& d, const TileGen& g, const std::shared_ptr<libCZI::ISubBlockRepository>& repo, CZIFrameOfReference def)
{
    stats::Box b; for (auto& t : d.t) if (t.sb.layer0()) b.add(t.sb); int ox = b.valid ? (int)b.x0 : 0, oy = b.valid ? (int)b.y0 : 0;
    auto ta = accessor<libCZI::ISingleChannelTileAccessor>(repo, libCZI::AccessorType::SingleChannelTileAccessor);
    auto pa = accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(repo, libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor);
    auto sa = accessor<libCZI::ISingleChannelScalingTileAccessor>(repo, libCZI::AccessorType::SingleChannelScalingTileAccessor);
    for (int q = r.range(1, 4); q > 0; --q)
    {
        auto plane = randomPlane(r, d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(r, d); roi.w = std::min(roi.w, 120); roi.h = std::min(roi.h, 120);
        std::vector<const Tile*> onP; for (auto& t : d.t) if (onPlane(t, plane)) onP.push_back(&t);
        int dt = destType(r, onP); if (dt < 0) continue;
        CZIFrameOfReference f = r.pick({ kPix, kPix, kDef, kRaw }); bool pix = (f == kDef ? def : f) == kPix;
        IntRectAndFrameOfReference rr; rr.frame_of_reference = f; rr.rectangle = pix ? shifted(roi, -ox, -oy) : roi; IntPointAndFrameOfReference pp; pp.frame_of_reference = f; pp.point = { rr.rectangle.x, rr.rectangle.y };
        std::ostringstream ds; ds << d.t.size() << " tiles, origin " << ox << "," << oy << ", region (raw) " << roi.x << "," << roi.y << "," << roi.w << "x" << roi.h << " given in " << fname(f) << " default " << fname(def) << " plane " << libCZI::Utils::DimCoordinateToString(&pc); ctx().currentDesc = ds.str(); ctx().sample(ds.str());
        RgbFloatColor bg{ (float)r.unit(), (float)r.unit(), (float)r.unit() }; Back back; back.set = true; back.c = bg;
        int how = (int)r.below(3); // automatic type, given type, caller bitmap
        bool invalid = r.chance(5); if (invalid) rr.frame_of_reference = pp.frame_of_reference = kInv;
        Img got, raw; std::string who; bool thrown = false, typeUnknown = false;
        auto run = [&](auto viaFrame, auto viaRaw)
        {
            try { viaFrame(); } catch (const libCZI::LibCZIAccessorException&) { typeUnknown = true; } catch (const std::invalid_argument&) { if (!invalid) throw; thrown = true; }
            if (!invalid && !typeUnknown) viaRaw();
        };
        auto caller = [&](Img& out, uint32_t w, uint32_t h, auto get) { CallerBitmap cb(r, dt, w, h, r.chance(40) ? 0 : (uint32_t)r.range(1, 40)); get(&cb); cb.checkPadding("frames"); cb.checkLocks("frames"); out = cb.img(); };
        int which = (int)r.below(3); uint32_t W = (uint32_t)roi.w, H = (uint32_t)roi.h;
        // with tiles of pixel types which cannot be converted, the automatic pixel type may not be possible
        if (how == 0) { bool same = true; for (auto& t : d.t) same = same && t.sb.pt == d.t[0].sb.pt; if (!same) how = 1; }
        if (which == 0)
        {
            who = "tile accessor"; libCZI::ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = bg;
            if (how == 0) run([&] { got = fromBitmap(ta->Get(rr, &pc, &o).get()); }, [&] { raw = fromBitmap(ta->Get(roi, &pc, &o).get()); });
            else if (how == 1) run([&] { got = fromBitmap(ta->Get((PixelType)dt, rr, &pc, &o).get()); }, [&] { raw = fromBitmap(ta->Get((PixelType)dt, roi, &pc, &o).get()); });
            else run([&] { caller(got, W, H, [&](auto* p) { ta->Get(p, pp, &pc, &o); }); }, [&] { caller(raw, W, H, [&](auto* p) { ta->Get(p, roi.x, roi.y, &pc, &o); }); });
            if (!invalid && !typeUnknown) { std::vector<const Tile*> l0; for (auto* t : onP) if (t->sb.layer0()) l0.push_back(t); judgeExact(l0, got, nullptr, roi.x, roi.y, 1, true, false, false, back, who + " in frame " + fname(f)); }
        }
        else if (which == 1)
        {
            who = "pyramid-layer accessor"; libCZI::ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor = bg;
            libCZI::ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo li; li.minificationFactor = (uint8_t)g.factor; li.pyramidLayerNo = (uint8_t)r.range(0, g.maxLayer); int s = 1; for (int k = 0; k < li.pyramidLayerNo; ++k) s *= g.factor;
            W = std::max(1u, W / s); H = std::max(1u, H / s); if (roi.w < s || roi.h < s) continue;
            if (how == 0) run([&] { got = fromBitmap(pa->Get(rr, &pc, li, &o).get()); }, [&] { raw = fromBitmap(pa->Get(roi, &pc, li, &o).get()); });
            else if (how == 1) run([&] { got = fromBitmap(pa->Get((PixelType)dt, rr, &pc, li, &o).get()); }, [&] { raw = fromBitmap(pa->Get((PixelType)dt, roi, &pc, li, &o).get()); });
            else run([&] { caller(got, W, H, [&](auto* p) { pa->Get(p, pp, &pc, li, &o); }); }, [&] { caller(raw, W, H, [&](auto* p) { pa->Get(p, roi.x, roi.y, &pc, li, &o); }); });
        }
        else
        {
            who = "scaling accessor"; libCZI::ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = bg; float zoom = r.chance(30) ? 1.f : (float)(0.1 + 0.9 * r.unit());
            auto sz = sa->CalcSize(roi, zoom); if (sz.w == 0 || sz.h == 0) continue; W = sz.w; H = sz.h;
            if (how == 0) run([&] { got = fromBitmap(sa->Get(rr, &pc, zoom, &o).get()); }, [&] { raw = fromBitmap(sa->Get(roi, &pc, zoom, &o).get()); });
            else if (how == 1) run([&] { got = fromBitmap(sa->Get((PixelType)dt, rr, &pc, zoom, &o).get()); }, [&] { raw = fromBitmap(sa->Get((PixelType)dt, roi, &pc, zoom, &o).get()); });
            else run([&] { caller(got, W, H, [&](auto* p) { sa->Get(p, rr, &pc, zoom, &o); }); }, [&] { caller(raw, W, H, [&](auto* p) { sa->Get(p, roi, &pc, zoom, &o); }); });
        }
        if (typeUnknown) continue;
        if (invalid) { VH_CHECK(thrown, "frame-invalid-accepted", who << ": a region in an invalid frame was accepted"); ev("invalid-frame-refused"); continue; }
        VH_CHECK(got == raw, "frame-accessor", who << " in frame " << fname(f) << " differs from the raw frame: " << diff(raw, got));
        ev("accessor:" + std::string(which == 0 ? "tile" : which == 1 ? "pyramid" : "scaling") + (pix ? "-pixel" : "-raw")); ctx().seenHash(hash64(got.d.data(), got.d.size())); ctx().seen(ds.str());
    }
}

static void oneCase(Rng& r, uint64_t)
{
    TileGen g; g.layers = r.chance(60); g.factor = r.pick({ 2, 3 }); g.maxLayer = g.layers ? r.range(1, 2) : 0; g.maxTiles = r.pick({ 2, 6, 12 }); g.compress = false; g.mixedTypes = false; g.align = g.maxLayer == 0 ? 1 : g.maxLayer == 1 ? g.factor : g.factor * g.factor; if (r.chance(70)) g.types = { r.pick({ 0,1,3,4 }) };
    TileDoc d = makeTiles(r, g); std::vector<Sb> sb; for (auto& t : d.t) sb.push_back(t.sb);
    CZIFrameOfReference def = r.pick({ kInv, kDef, kRaw, kPix, kPix }); CZIFrameOfReference eff = def == kPix ? kPix : kRaw;
    if (r.chance(55))
    {
        auto rd = libCZI::CreateCZIReader(); libCZI::ICZIReader::OpenOptions oo; oo.SetDefault();
        if (r.chance(15)) { oo.default_frame_of_reference = eff == kPix ? kRaw : kPix; rd->Open(std::make_shared<MemIn>(d.file), &oo); rd->Close(); ev("reopened"); }
        oo.default_frame_of_reference = def; const libCZI::ICZIReader::OpenOptions* po = &oo; if (eff == kRaw && r.chance(20)) po = nullptr;
        rd->Open(std::make_shared<MemIn>(d.file), po); ev("reader");
        checkTransforms(r, rd.get(), sb, eff, "reader"); accessors(r, d, g, rd, eff); return;
    }
    auto rw = libCZI::CreateCZIReaderWriter(); std::shared_ptr<libCZI::ICziReaderWriterInfo> info; if (eff == kPix || r.chance(70)) info = std::make_shared<RwInfo>(def);
    bool edit = r.chance(50); auto file = edit ? makeFile(d.file->data) : d.file; rw->Create(std::make_shared<MemInOut>(file), info); ev("reader-writer");
    checkTransforms(r, rw.get(), sb, eff, "reader-writer");
    if (!edit) { accessors(r, d, g, rw, eff); return; }
    // the origin follows the document while it is edited
    std::map<int, Sb> m; { std::multimap<std::string, Sb> by; for (auto& s : sb) by.insert({ s.infoKey(), s }); rw->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { auto it = by.find(fromInfo(inf).infoKey()); VH_CHECK(it != by.end(), "frame-setup", "unexpected sub-block"); m[i] = it->second; by.erase(it); return true; }); }
    for (int k = r.range(1, 8); k > 0; --k)
    {
        int op = (int)r.below(3);
        if (op == 0 && m.size() > 1) { auto it = m.begin(); std::advance(it, (long)r.below(m.size())); rw->RemoveSubBlock(it->first); m.erase(it); ev("edit-remove"); }
        else
        {
            Sb s = r.chance(70) && !m.empty() ? m.begin()->second : sb[0]; s.x = d.ox + r.range(-400, 400); s.y = d.oy + r.range(-400, 400); s.mValid = true; s.m = 1000 + k; int key = -1;
            if (op == 2 && !m.empty()) { auto it = m.begin(); std::advance(it, (long)r.below(m.size())); key = it->first; }
            if (s.w != s.pw && r.chance(50)) { s.w = s.pw; s.h = s.ph; s.pyr = 0; }
            if (key >= 0) { rw->ReplaceSubBlock(key, callbackInfo(r, s)); m[key] = s; ev("edit-replace"); }
            else { rw->SyncAddSubBlock(callbackInfo(r, s)); int n = -1; rw->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo&) { if (!m.count(i)) n = i; return true; }); m[n] = s; ev("edit-add"); }
        }
        std::vector<Sb> v; for (auto& e : m) v.push_back(e.second);
        checkTransforms(r, rw.get(), v, eff, "reader-writer after editing");
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C24", Options{ 8000, 200000 }, oneCase); }
