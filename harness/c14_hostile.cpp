// C14: whatever bytes a file contains, opening it and reading everything reachable (or editing it) ends in success or in a
// std::exception, under ASan/UBSan; everything is done twice with different content of fresh heap memory and has to have the
// same outcome.
#include "comp.hpp"
#include "libCZI_compress.h"
#include "libCZI_Metadata2.h"
#include <cstdlib>
#include <new>
using namespace comp; using namespace libCZI;

// ---- memory: fresh blocks are filled with a chosen byte, huge requests fail ----------------------------------------------
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
static std::atomic<int> g_fill{ 0xbe }; static const size_t kMaxAlloc = 64u << 20;
static void onMalloc(const volatile void* p, size_t n) { if (p && n && n <= 65536) memset((void*)p, g_fill.load(std::memory_order_relaxed), n); }
static void onFree(const volatile void*) {}
void* operator new(size_t n) { if (n > kMaxAlloc) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > kMaxAlloc ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Trace
{
    std::vector<std::string> lines;
    void add(const std::string& s) { if (lines.size() < 4000) lines.push_back(s); }
    template <typename F> bool step(const std::string& what, F&& f)
    {
        ctx().currentDesc = what;
        try { f(); add(what + ": ok"); return true; }
        catch (Violation&) { throw; }
        catch (std::exception& e) { add(what + ": " + typeid(e).name()); ev("step-refused"); return false; }
        // anything else is reported by the driver as a violation (foreign exception)
    }
};
static std::string hx(const void* p, size_t n) { std::ostringstream o; o << n << ":" << std::hex << hash64(p, n); return o.str(); }
static std::string ws(const std::wstring& w) { return hx(w.data(), w.size() * sizeof(wchar_t)); }
static std::string num(double d) { if (std::isnan(d)) return "nan"; std::ostringstream o; o << d; return o.str(); }
static std::string rect(const IntRect& r) { std::ostringstream o; o << r.x << "," << r.y << "," << r.w << "," << r.h; return o.str(); }
static std::string info(const SubBlockInfo& i) { std::ostringstream o; o << rect(i.logicalRect) << "/" << i.physicalSize.w << "," << i.physicalSize.h << " m" << i.mIndex << " c" << i.compressionModeRaw << " t" << (int)i.pixelType << " p" << (int)i.pyramidType << " " << Utils::DimCoordinateToString(&i.coordinate); return o.str(); }

struct Known { std::set<uint64_t> jxr; };

static void walk(const std::shared_ptr<IXmlNodeRead>& n, int depth, int& budget, Trace& t)
{
    if (depth > 12 || --budget < 0) return;
    std::wstring v; std::string s = ws(n->Name()); if (n->TryGetValue(&v)) s += "=" + ws(v);
    n->EnumAttributes([&](const std::wstring& a, const std::wstring& b) { s += "@" + ws(a) + ws(b); return true; });
    double d; if (n->TryGetValueAsDouble(&d)) s += "d" + num(d); float f; if (n->TryGetValueAsFloat(&f)) s += "f" + num(f);
    int32_t i; if (n->TryGetValueAsInt32(&i)) s += "i" + std::to_string(i); uint32_t u; if (n->TryGetValueAsUInt32(&u)) s += "u" + std::to_string(u); int64_t l; if (n->TryGetValueAsInt64(&l)) s += "l" + std::to_string(l); uint64_t ul; if (n->TryGetValueAsUInt64(&ul)) s += "U" + std::to_string(ul); bool b; if (n->TryGetValueAsBool(&b)) s += b ? "T" : "F";
    t.add(s); n->EnumChildren([&](std::shared_ptr<IXmlNodeRead> c) { walk(c, depth + 1, budget, t); return true; });
}
static void exploreMetadata(const std::shared_ptr<IMetadataSegment>& seg, Trace& t, Rng& r)
{
    if (!seg) { t.add("no metadata"); return; }
    size_t n1 = 0, n2 = 0; auto a = seg->GetRawData(IMetadataSegment::MemBlkType::XmlMetadata, &n1); auto b = seg->GetRawData(IMetadataSegment::MemBlkType::Attachment, &n2);
    t.add("xml " + hx(a.get(), a ? n1 : 0) + " att " + hx(b.get(), b ? n2 : 0)); VH_CHECK((a != nullptr || n1 == 0) && (b != nullptr || n2 == 0), "null-with-size", "a memory block without data claims " << n1 << "/" << n2 << " bytes");
    std::shared_ptr<ICziMetadata> md; if (!t.step("parse metadata", [&]() { md = CreateMetaFromMetadataSegment(seg.get()); })) return;
    bool valid = md->IsXmlValid(); t.add(valid ? "xml valid" : "xml invalid"); if (!valid) { t.step("xml of invalid", [&]() { md->GetXml(); }); }
    ev(valid ? "metadata-valid" : "metadata-invalid");
    t.step("get xml", [&]() { auto x = md->GetXml(); t.add(hx(x.data(), x.size())); });
    t.step("walk", [&]() { int budget = 400; md->EnumChildren([&](std::shared_ptr<IXmlNodeRead> c) { walk(c, 0, budget, t); return true; }); });
    t.step("paths", [&]() { for (const char* p : { "ImageDocument/Metadata", "ImageDocument/Metadata/Information/Image/Dimensions/Channels/Channel[0]", "ImageDocument/Metadata/Information/Image/Dimensions/Channels/Channel[Id=Channel:0]", "ImageDocument/Nope[9999]" }) { std::shared_ptr<IXmlNodeRead> n; t.step("path", [&]() { n = md->GetChildNodeReadonly(p); }); if (n) t.add(ws(n->Name())); } });
    std::shared_ptr<ICziMultiDimensionDocumentInfo> di; if (!t.step("document info", [&]() { di = md->GetDocumentInfo(); }) || !di) return;
    t.step("general", [&]() { auto g = di->GetGeneralDocumentInfo(); t.add((g.name_valid ? ws(g.name) : "-") + (g.title_valid ? ws(g.title) : "-") + (g.rating_valid ? std::to_string(g.rating) : "-") + (g.creationDateTime_valid ? ws(g.creationDateTime) : "-")); });
    t.step("scaling", [&]() { auto s = di->GetScalingInfo(); t.add(num(s.scaleX) + num(s.scaleY) + num(s.scaleZ)); auto e = di->GetScalingInfoEx(); t.add(ws(e.defaultUnitFormatX)); });
    t.step("dimensions", [&]() { for (auto d : di->GetDimensions()) { auto i = di->GetDimensionInfo(d); if (!i) continue; int s = 0, e = 0; bool bs, be; i->GetInterval(&s, &e); i->GetIntervalIsExplicitlyStated(&bs, &be); t.add(std::to_string(s) + ".." + std::to_string(e) + (bs ? "s" : "") + (be ? "e" : "")); } });
    t.step("z", [&]() { auto z = di->GetDimensionZInfo(); if (!z) return; double a = 0, b = 0; std::vector<double> l; if (z->TryGetReferencePosition(&a)) t.add("ref" + num(a)); if (z->TryGetIntervalDefinition(&a, &b)) t.add(num(a) + "+" + num(b)); if (z->TryGetPositionList(&l)) { std::string s; for (double d : l) s += num(d) + " "; t.add(s); } IDimensionZInfo::XyzHandedness h; IDimensionZInfo::ZaxisDirection x; IDimensionZInfo::ZDriveMode m; if (z->TryGetXyzHandedness(&h)) t.add("h"); if (z->TryGetZAxisDirection(&x)) t.add("x"); if (z->TryGetZDriveMode(&m)) t.add("m"); if (z->TryZDriveSpeed(&a)) t.add("v" + num(a)); });
    t.step("t", [&]() { auto z = di->GetDimensionTInfo(); if (!z) return; double a = 0, b = 0; std::vector<double> l; XmlDateTime dt; if (z->TryGetStartTime(&dt)) t.add(dt.IsValid() ? dt.ToXmlString() : "bad time"); if (z->TryGetIntervalDefinition(&a, &b)) t.add(num(a) + "+" + num(b)); if (z->TryGetOffsetsList(&l)) { std::string s; for (double d : l) s += num(d) + " "; t.add(s); } });
    t.step("channels", [&]()
    {
        auto c = di->GetDimensionChannelsInfo(); if (!c) return; int n = c->GetChannelCount(); t.add("channels " + std::to_string(n));
        for (int i = 0; i < std::min(n, 6); ++i)
        {
            auto ch = c->GetChannel(i); std::string s; std::wstring w; double d; int k; PixelType pt; Rgb8Color col; SpectrumCharacteristics sc; RangeOrSingleValue<uint64_t> ex; DimensionChannelChannelType ct; DimensionChannelAcquisitionMode am; DimensionChannelIlluminationType it; DimensionChannelContrastMethod cm; DimensionChannelPinholeGeometry pg;
            if (ch->TryGetAttributeId(&w)) s += ws(w); if (ch->TryGetAttributeName(&w)) s += ws(w); if (ch->TryGetChannelType(&ct)) s += "ct" + std::to_string((int)ct); if (ch->TryGetChannelUnit(&w)) s += ws(w); if (ch->TryGetPixelType(&pt)) s += "pt" + std::to_string((int)pt); if (ch->TryGetComponentBitCount(&k)) s += "bc" + std::to_string(k); if (ch->TryGetAcquisitionMode(&am)) s += "am"; if (ch->TryGetIlluminationType(&it)) s += "it"; if (ch->TryGetContrastMethod(&cm)) s += "cm";
            if (ch->TryGetIlluminationWavelength(&sc)) { s += "iw" + std::to_string((int)sc.type); for (auto& q : sc.ranges) s += num(q.startOrSingleValue) + (q.singleValue ? "" : ".." + num(q.end)); } if (ch->TryGetDetectionWavelength(&sc)) { s += "dw"; for (auto& q : sc.ranges) s += num(q.startOrSingleValue); } if (ch->TryGetExcitationWavelength(&d)) s += num(d); if (ch->TryGetEmissionWavelength(&d)) s += num(d); if (ch->TryGetEffectiveNA(&d)) s += num(d); if (ch->TryGetDyeId(&w)) s += ws(w); if (ch->TryGetDyeDatabaseId(&w)) s += ws(w); if (ch->TryGetPinholeSize(&d)) s += num(d); if (ch->TryGetPinholeSizeAiry(&d)) s += num(d); if (ch->TryGetPinholeGeometry(&pg)) s += "pg"; if (ch->TryGetFluor(&w)) s += ws(w); if (ch->TryGetNDFilter(&d)) s += num(d); if (ch->TryGetPocketCellSetting(&k)) s += std::to_string(k); if (ch->TryGetColor(&col)) s += std::to_string(col.r * 65536 + col.g * 256 + col.b); if (ch->TryGetExposureTime(&ex)) s += std::to_string(ex.startOrSingleValue) + (ex.singleValue ? "" : ".." + std::to_string(ex.end)); if (ch->TryGetDepthOfFocus(&d)) s += num(d); if (ch->TryGetSectionThickness(&d)) s += num(d);
            ch->GetDetectorSettings(); ch->GetLightSourcesSettings(); ch->GetLightPath(); ch->GetLaserScanInfo(); ch->GetSPIMIlluminationSettings(); ch->GetSIMSettings(); ch->GetPolarizingSettings(); ch->GetAiryscanSettings(); ch->GetRatio(); t.add(s);
        }
    });
    t.step("display", [&]()
    {
        auto ds = di->GetDisplaySettings(); if (!ds) return; DisplaySettingsPOD pod; IDisplaySettings::Clone(ds.get(), pod);
        ds->EnumChannels([&](int i)
        {
            auto c = ds->GetChannelDisplaySettings(i); float b, w, g; c->GetBlackWhitePoint(&b, &w); Rgb8Color col; std::vector<IDisplaySettings::SplineControlPoint> cp; std::vector<IDisplaySettings::SplineData> sd; std::string s = num(b) + num(w) + num(c->GetWeight()) + (c->GetIsEnabled() ? "E" : "e") + std::to_string((int)c->GetGradationCurveMode());
            if (c->TryGetTintingColorRgb8(&col)) s += std::to_string(col.r * 65536 + col.g * 256 + col.b); if (c->TryGetGamma(&g)) s += "g" + num(g); if (c->TryGetSplineControlPoints(&cp)) for (auto& p : cp) s += num(p.x) + "," + num(p.y) + " "; t.add(s);
            if (c->TryGetSplineControlPoints(nullptr)) t.step("spline", [&]() { if (c->TryGetSplineData(&sd)) { std::string q; for (auto& p : sd) q += num(p.xPos); t.add(q); if (r.chance(30)) { auto l = Utils::Create8BitLookUpTableFromSplines(256, std::fmin(1.f, std::fmax(0.f, b)), std::fmin(1.f, std::fmax(0.f, w)), sd); t.add(hx(l.data(), l.size())); } } });
            return true;
        });
    });
}
static void bitmapLine(Trace& t, const std::shared_ptr<IBitmapData>& b, const char* what) { if (!b) { t.add(std::string(what) + ": null"); return; } Img m = fromBitmap(b.get()); t.add(std::string(what) + " " + describe(m) + " " + hx(m.d.data(), m.d.size())); }

template <typename TRepo> static bool exploreSubBlocks(TRepo* rd, Trace& t, Rng& r, const Known& k, bool& allDecodable)
{
    std::vector<int> idx; int n = 0; allDecodable = true;
    t.step("enumerate", [&]() { rd->EnumerateSubBlocks([&](int i, const SubBlockInfo& si) { if (n++ < 60) { idx.push_back(i); t.add(info(si)); } return n < 3000; }); });
    t.step("statistics", [&]() { auto s = rd->GetStatistics(); std::ostringstream o; o << s.subBlockCount << " " << s.minMindex << " " << s.maxMindex << " " << rect(s.boundingBox) << " " << rect(s.boundingBoxLayer0Only) << " " << Utils::DimBoundsToString(&s.dimBounds); for (auto& e : s.sceneBoundingBoxes) o << " S" << e.first << rect(e.second.boundingBox) << rect(e.second.boundingBoxLayer0); t.add(o.str()); });
    t.step("pyramid statistics", [&]() { auto p = rd->GetPyramidStatistics(); std::ostringstream o; for (auto& s : p.scenePyramidStatistics) { o << " S" << s.first; for (auto& l : s.second) o << " " << (int)l.layerInfo.minificationFactor << "/" << (int)l.layerInfo.pyramidLayerNo << ":" << l.count; } t.add(o.str()); });
    for (int c : { 0, 1, -1 }) t.step("arbitrary", [&]() { SubBlockInfo i; if (rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, i)) t.add(info(i)); });
    t.step("subset", [&]() { int m = 0; IntRect q{ r.range(-1000, 1000), r.range(-1000, 1000), r.range(1, 2000), r.range(1, 2000) }; rd->EnumSubset(nullptr, &q, r.chance(50), [&](int i, const SubBlockInfo&) { t.add(std::to_string(i)); return ++m < 100; }); });
    for (int i : idx)
    {
        std::shared_ptr<ISubBlock> sb; if (!t.step("read " + std::to_string(i), [&]() { sb = rd->ReadSubBlock(i); }) || !sb) { allDecodable = allDecodable && true; continue; }
        ev("subblock-read"); SubBlockInfo si = sb->GetSubBlockInfo(); t.add(info(si)); bool invalidJxr = false;
        for (auto ty : { ISubBlock::MemBlkType::Data, ISubBlock::MemBlkType::Metadata, ISubBlock::MemBlkType::Attachment })
        {
            const void* p = nullptr; size_t s = 0; sb->DangerousGetRawData(ty, p, s); size_t s2 = 0; auto q = sb->GetRawData(ty, &s2); VH_CHECK(s == s2 && (q.get() != nullptr || s2 == 0), "null-with-size", "sub-block " << i << ": a memory block without data claims " << s2 << " bytes"); t.add(hx(q.get(), s2));
            if (ty == ISubBlock::MemBlkType::Data && si.GetCompressionMode() == CompressionMode::JpgXr && !k.jxr.count(hash64(q.get(), s2))) { if (s2 >= 2 && !memcmp(q.get(), "II", 2)) invalidJxr = true; else ev("not-a-jxr-stream"); } // (what does not even have the signature has to be refused)
        }
        if (invalidJxr) allDecodable = false;
        else { CreateBitmapOptions o; o.handle_uncompressed_data_size_mismatch = r.chance(50); o.handle_jpgxr_bitmap_mismatch = r.chance(50); o.handle_zstd_data_size_mismatch = r.chance(50); bool def = r.chance(50); if (t.step("bitmap", [&]() { bitmapLine(t, sb->CreateBitmap(def ? nullptr : &o), "bitmap"); })) ev("bitmap-created"); }
        std::shared_ptr<ISubBlockMetadata> sm;
        t.step("sub-block metadata", [&]() { sm = CreateSubBlockMetadataFromSubBlock(sb.get()); bool v = sm->IsXmlValid(); t.add(v ? "valid" : "invalid"); std::wstring w; double d; std::tuple<double, double> p; if (sm->TryGetAttachmentDataFormat(&w)) t.add(ws(w)); if (sm->TryGetTagAsDouble(L"StageXPosition", &d)) t.add(num(d)); if (sm->TryGetTagAsString(L"StageXPosition", &w)) t.add(ws(w)); if (sm->TryGetStagePositionFromTags(&p)) t.add(num(std::get<0>(p))); if (v) { auto x = sm->GetXml(); t.add(hx(x.data(), x.size())); } });
        t.step("sub-block attachment", [&]()
        {
            auto a = CreateSubBlockAttachmentAccessor(sb, r.chance(50) ? sm : nullptr); bool c = a->HasChunkContainer(); t.add(c ? "chunks" : "no chunks");
            t.step("chunks", [&]() { int m = 0; bool b = a->EnumerateChunksInChunkContainer([&](int j, const ISubBlockAttachmentAccessor::ChunkInfo& ci) { t.add(std::to_string(j) + ":" + std::to_string(ci.offset) + "+" + std::to_string(ci.size)); return ++m < 200; }); t.add(b ? "all" : "some"); });
            t.step("mask info", [&]() { auto m = a->GetValidPixelMaskFromChunkContainer(); t.add(std::to_string(m.width) + "x" + std::to_string(m.height) + " " + std::to_string(m.type_of_representation) + " " + hx(m.data.get(), m.size_data)); });
            t.step("mask", [&]() { auto m = a->CreateBitonalBitmapFromMaskInfo(); auto l = m->Lock(); std::string s = std::to_string(m->GetSize().w) + "x" + std::to_string(m->GetSize().h) + " " + hx(l.ptrData, l.size); m->Unlock(); t.add(s); ev("mask-decoded"); });
        });
    }
    return !idx.empty();
}
template <typename TRepo> static void exploreAttachments(TRepo* rd, Trace& t)
{
    std::vector<int> idx; t.step("attachments", [&]() { t.add(std::to_string(rd->GetAttachmentCount())); rd->EnumerateAttachments([&](int i, const AttachmentInfo& a) { idx.push_back(i); t.add(a.name + "|" + a.contentFileType); return idx.size() < 50; }); });
    t.step("attachment subset", [&]() { rd->EnumerateSubset("CZTIMS", nullptr, [&](int i, const AttachmentInfo&) { t.add(std::to_string(i)); return true; }); });
    for (int i : idx) t.step("attachment", [&]() { auto a = rd->ReadAttachment(i); if (!a) return; size_t n = 0; auto p = a->GetRawData(&n); VH_CHECK(p || n == 0, "null-with-size", "attachment " << i << ": no data, but " << n << " bytes"); t.add(hx(p.get(), n)); ev("attachment-read"); });
}
static void compositions(const std::shared_ptr<ISubBlockRepository>& rd, Trace& t, Rng& r)
{
    SubBlockStatistics st; if (!t.step("stat", [&]() { st = rd->GetStatistics(); })) return;
    CDimCoordinate plane; st.dimBounds.EnumValidDimensions([&](DimensionIndex d, int start, int size) { if (d != DimensionIndex::S && size > 0) plane.Set(d, (int)((int64_t)start + (int64_t)r.below((uint64_t)std::min(size, 3)))); return true; });
    int x = st.boundingBox.x, y = st.boundingBox.y; if (r.chance(40)) { x = (int)(uint32_t)((int64_t)x + st.boundingBox.w / 2); y = (int)(uint32_t)((int64_t)y + st.boundingBox.h / 2); }
    IntRect roi{ x, y, r.range(1, 90), r.range(1, 90) }; if (r.chance(10)) roi.x = INT_MAX - r.range(0, 100); if (r.chance(10)) roi.y = INT_MIN + r.range(0, 10);
    auto pt = (PixelType)r.pick({ 0, 1, 2, 3, 4 }); bool mask = r.chance(50), vis = r.chance(50); auto cache = r.chance(50) ? CreateSubBlockCache() : nullptr;
    if (t.step("tile accessor", [&]() { ISingleChannelTileAccessor::Options o; o.Clear(); o.maskAware = mask; o.useVisibilityCheckOptimization = vis; o.subBlockCache = cache; o.backGroundColor = { .5f, .5f, .5f }; auto a = std::dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(rd, AccessorType::SingleChannelTileAccessor)); bitmapLine(t, a->Get(pt, roi, &plane, &o), "tile"); })) ev("composition");
    if (t.step("pyramid accessor", [&]() { ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.maskAware = mask; o.subBlockCache = cache; o.backGroundColor = { .5f, .5f, .5f }; auto a = std::dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(rd, AccessorType::SingleChannelPyramidLayerTileAccessor)); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi; pi.minificationFactor = (uint8_t)r.range(2, 3); pi.pyramidLayerNo = (uint8_t)r.range(0, 3); bitmapLine(t, a->Get(pt, roi, &plane, pi, &o), "pyramid"); })) ev("composition");
    if (t.step("scaling accessor", [&]() { ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.maskAware = mask; o.subBlockCache = cache; o.backGroundColor = { .5f, .5f, .5f }; auto a = std::dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(rd, AccessorType::SingleChannelScalingTileAccessor)); float zoom = r.pick({ 1.f, .5f, .25f, .1f }); bitmapLine(t, a->Get(pt, roi, &plane, zoom, &o), "scaled"); })) ev("composition");
}
static Trace explore(const Bytes& bytes, uint64_t seed, const Known& k, int fill, bool edit)
{
    Trace t; Rng r(seed); g_fill = fill; auto f = makeFile(bytes); f->maxSize = 32u << 20;
    if (!edit)
    {
        ICZIReader::OpenOptions oo; oo.SetDefault(); oo.lax_subblock_coordinate_checks = r.chance(70); oo.ignore_sizem_for_pyramid_subblocks = r.chance(50); if (r.chance(50)) oo.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence; if (r.chance(40)) oo.default_frame_of_reference = r.pick({ CZIFrameOfReference::RawSubBlockCoordinateSystem, CZIFrameOfReference::PixelCoordinateSystem });
        auto rd = CreateCZIReader(); if (!t.step("open", [&]() { rd->Open(std::make_shared<MemIn>(f), &oo); })) { ev("open-refused"); t.step("close unopened", [&]() { rd->Close(); }); g_fill = 0xbe; return t; }
        ev("opened"); t.step("header", [&]() { auto h = rd->GetFileHeaderInfo(); t.add(hx(&h.fileGuid, sizeof(h.fileGuid))); t.add(std::to_string(h.majorVersion) + "." + std::to_string(h.minorVersion)); });
        bool dec; bool any = exploreSubBlocks(rd.get(), t, r, k, dec); exploreAttachments(rd.get(), t);
        t.step("enumerate ex", [&]() { int n = 0; rd->EnumerateSubBlocksEx([&](int, const DirectorySubBlockInfo& d) { t.add(info(d) + "@" + std::to_string(d.filePosition)); return ++n < 60; }); });
        std::shared_ptr<IMetadataSegment> seg; if (t.step("metadata", [&]() { seg = rd->ReadMetadataSegment(); })) exploreMetadata(seg, t, r);
        if (any && dec) compositions(rd, t, r);
        t.step("transform", [&]() { auto p = rd->TransformPoint({ CZIFrameOfReference::PixelCoordinateSystem, { 1, 2 } }, CZIFrameOfReference::RawSubBlockCoordinateSystem); t.add(std::to_string(p.point.x)); });
        t.step("close", [&]() { rd->Close(); });
    }
    else
    {
        auto rw = CreateCZIReaderWriter(); if (!t.step("create", [&]() { rw->Create(std::make_shared<MemInOut>(f), std::make_shared<CCziReaderWriterInfo>(GUID{ 1, 2, 3, { 4, 5, 6, 7, 8, 9, 10, 11 } })); })) { ev("edit-refused"); g_fill = 0xbe; return t; }
        ev("edit-opened"); bool dec; bool any = exploreSubBlocks(rw.get(), t, r, k, dec); exploreAttachments(rw.get(), t);
        std::shared_ptr<IMetadataSegment> seg; if (t.step("metadata", [&]() { seg = rw->ReadMetadataSegment(); })) { if (seg) { size_t n; seg->GetRawData(IMetadataSegment::MemBlkType::XmlMetadata, &n); t.add(std::to_string(n)); } }
        if (any && dec && r.chance(30)) compositions(rw, t, r);
        Gen g; g.maxPayload = 600; std::vector<int> dims{ 2 };
        for (int n = r.range(1, 6); n > 0; --n)
        {
            int key = r.range(0, 6);
            switch (r.below(7))
            {
            case 0: { Sb s = randomSb(r, g, dims); t.step("add", [&]() { rw->SyncAddSubBlock(callbackInfo(r, s)); }); } break;
            case 1: { Sb s = randomSb(r, g, dims); t.step("replace", [&]() { rw->ReplaceSubBlock(key, callbackInfo(r, s)); }); } break;
            case 2: t.step("remove", [&]() { rw->RemoveSubBlock(key); }); break;
            case 3: { At a = randomAt(r, 400); t.step("add att", [&]() { rw->SyncAddAttachment(attInfo(a)); }); } break;
            case 4: { At a = randomAt(r, 400); t.step("replace att", [&]() { rw->ReplaceAttachment(key, attInfo(a)); }); } break;
            case 5: t.step("remove att", [&]() { rw->RemoveAttachment(key); }); break;
            default: { std::string x = randomXml(r); Bytes none; t.step("write metadata", [&]() { rw->SyncWriteMetadata(mdInfo(x, none)); }); } break;
            }
        }
        t.step("close rw", [&]() { rw->Close(); }); rw.reset(); if (f->data.size() < (4u << 20)) t.add("file " + hx(f->data.data(), f->data.size()));
    }
    g_fill = 0xbe; return t;
}

// ---- hostile files -------------------------------------------------------------------------------------------------------
static std::string hostileNumber(Rng& r) { return r.pick(std::vector<std::string>{ "0", "1", "-1", "2147483647", "-2147483648", "4294967296", "99999999999999999999", "1e999", "-1e308", "NaN", "inf", "", " ", "1,5", "0x10", "1.5e", "abc", "1 2", "\xE4\xBD\xA0", "1\xE4\xBD\xA0", "0.5", "2-3", "18446744073709551615" }); }
static std::string hostileXml(Rng& r)
{
    auto v = [&](const char* good) { return r.chance(65) ? std::string(good) : hostileNumber(r); };
    auto el = [&](const char* n, const char* good) { return r.chance(12) ? std::string() : std::string("<") + n + ">" + v(good) + "</" + n + ">"; };
    std::string x = "<?xml version=\"1.0\"?>\n<ImageDocument><Metadata><Information><Document>" + el("Name", "n") + el("Title", "t") + el("Rating", "3") + el("CreationDate", "2020-01-01T00:00:00") + "</Document><Image>" + el("SizeX", "10") + el("PixelType", "Gray8") + el("SizeZ", "4") + el("StartZ", "1") + el("SizeC", "2") + el("SizeT", "2") + el("StartT", "-1") + el("SizeS", "1") + el("ComponentBitCount", "14") + "<Dimensions><Z>" + el("StartPosition", "0.5") + el("XYZHandedness", "LeftHanded") + el("ZAxisDirection", "Undefined") + el("ZDriveMode", "Step") + el("ZDriveSpeed", "1.25");
    x += r.chance(50) ? "<Positions><Interval>" + el("Start", "0") + el("Increment", "0.1") + "</Interval></Positions>" : "<Positions><List><Offsets>" + v("0 1.5 2") + " " + v("3") + "</Offsets></List></Positions>";
    x += "</Z><T>" + el("StartTime", "2017-04-05T11:12:13.456Z") + "<Positions>" + (r.chance(50) ? "<Interval>" + el("Start", "0") + el("Increment", "1") + "</Interval>" : "<List><Offsets>" + v("0 1") + "</Offsets></List>") + "</Positions></T><Channels>";
    for (int i = r.range(0, 3); i > 0; --i) x += "<Channel Id=\"" + v("Channel:0") + "\" Name=\"" + v("DAPI") + "\">" + el("ChannelType", "Heterochromatic") + el("PixelType", "Gray16") + el("ComponentBitCount", "14") + el("AcquisitionMode", "WideField") + el("IlluminationType", "Epifluorescence") + el("ContrastMethod", "Fluorescence") + "<IlluminationWavelength>" + el("SinglePeak", "400") + el("Ranges", "400-500,510-520") + "</IlluminationWavelength><DetectionWavelength>" + el("Ranges", "420.5-430") + "</DetectionWavelength>" + el("ExcitationWavelength", "405") + el("Color", "#FF00FF00") + el("ExposureTime", "100000") + el("PinholeSize", "1") + el("PinholeGeometry", "Circular") + el("Reflector", "r") + "<DetectorSettings>" + el("Gain", "1") + el("Binning", "1,1") + el("Voltage", "2") + "</DetectorSettings><LightSourcesSettings><LightSourceSettings>" + el("Intensity", "10 %") + el("Wavelength", "405") + "</LightSourceSettings></LightSourcesSettings><LaserScanInfo>" + el("PixelTime", "1") + el("Averaging", "2") + "</LaserScanInfo></Channel>";
    x += "</Channels></Dimensions></Image></Information><Scaling><Items><Distance Id=\"X\">" + el("Value", "1e-6") + el("DefaultUnitFormat", "um") + "</Distance><Distance Id=\"Y\">" + el("Value", "1e-6") + "</Distance></Items></Scaling><DisplaySetting><Channels>";
    for (int i = r.range(0, 3); i > 0; --i) x += "<Channel Id=\"Channel:0\">" + el("Low", "0.1") + el("High", "0.9") + el("Weight", "1") + el("Gamma", "1.2") + el("Color", "#FFFF0000") + el("ColorMode", "None") + el("IsSelected", "true") + (r.chance(60) ? "<Mode>Spline</Mode><Points>" + v("0.36,0.87") + " " + v("0.55,0.56") + (r.chance(30) ? ",0.6" : "") + "</Points>" : "") + "</Channel>";
    x += "</Channels></DisplaySetting></Metadata></ImageDocument>";
    if (r.chance(15)) for (int k = r.range(1, 4); k > 0; --k) x[(size_t)r.below(x.size())] = (char)r.next();
    if (r.chance(5)) x.resize((size_t)r.below(x.size())); if (r.chance(3)) { std::string deep; int n = r.range(100, 3000); for (int i = 0; i < n; ++i) deep += "<a>"; for (int i = 0; i < n; ++i) deep += "</a>"; x = "<ImageDocument>" + deep + "</ImageDocument>"; }
    return x;
}
static int64_t hostileValue(Rng& r, const Bytes& b, int64_t old)
{
    switch (r.below(10))
    {
    case 0: return r.pick({ (int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)2, (int64_t)-2 });
    case 1: return r.pick({ (int64_t)INT_MAX, (int64_t)INT_MIN, (int64_t)INT_MAX + 1, (int64_t)0xffffffffll, (int64_t)INT_MAX - 31, (int64_t)1 << 30 });
    case 2: return r.pick({ (int64_t)INT64_MAX, (int64_t)INT64_MIN, (int64_t)INT64_MAX - 31, (int64_t)1 << 62, (int64_t)1 << 40 });
    case 3: return (int64_t)b.size() + r.range(-300, 300);
    case 4: return (int64_t)((uint64_t)old + (uint64_t)(int64_t)r.range(-3, 3)); case 5: return (int64_t)((uint64_t)old + (uint64_t)(int64_t)r.range(-1000, 1000)); case 6: return (int64_t)((uint64_t)old * 2); case 7: return old / 2; case 8: return r.range(-200, 200);
    default: return (int64_t)r.next();
    }
}
static void poke(Bytes& b, uint64_t off, int width, int64_t v) { for (int i = 0; i < width && off + (uint64_t)i < b.size(); ++i) b[(size_t)off + (size_t)i] = (uint8_t)((uint64_t)v >> (8 * i)); }
static int64_t peek(const Bytes& b, uint64_t off, int width) { uint64_t v = 0; for (int i = 0; i < width && off + (uint64_t)i < b.size(); ++i) v |= (uint64_t)b[(size_t)off + (size_t)i] << (8 * i); return width == 4 ? (int64_t)(int32_t)(uint32_t)v : (int64_t)v; }
struct Field { uint64_t off; int width; const char* name; };
static std::vector<Field> fieldsOf(const Bytes& b)
{
    std::vector<Field> v; auto h = czi::header(b);
    auto seg = [&](uint64_t p) { v.push_back({ p + 16, 8, "AllocatedSize" }); v.push_back({ p + 24, 8, "UsedSize" }); v.push_back({ p, 4, "Id" }); };
    auto dv = [&](uint64_t o) -> uint64_t { v.push_back({ o, 2, "Schema" }); v.push_back({ o + 2, 4, "PixelType" }); v.push_back({ o + 6, 8, "FilePosition" }); v.push_back({ o + 18, 4, "Compression" }); v.push_back({ o + 22, 1, "PyramidType" }); v.push_back({ o + 28, 4, "DimensionCount" }); int n = (int)peek(b, o + 28, 4); for (int i = 0; i < n; ++i) { uint64_t p = o + 32 + 20ull * (uint64_t)i; v.push_back({ p, 4, "Dimension" }); v.push_back({ p + 4, 4, "Start" }); v.push_back({ p + 8, 4, "Size" }); v.push_back({ p + 16, 4, "StoredSize" }); } return 32 + 20ull * (uint64_t)n; };
    seg(0); for (int o : { 32, 36, 80 }) v.push_back({ (uint64_t)o, 4, "header" }); for (int o : { 84, 92, 104 }) v.push_back({ (uint64_t)o, 8, "header-position" });
    if (h.sbDir > 0) { uint64_t p = (uint64_t)h.sbDir; seg(p); v.push_back({ p + 32, 4, "EntryCount" }); uint64_t o = p + 160; auto e = czi::sbDirectory(b, p); for (size_t i = 0; i < e.size(); ++i) { o += dv(o); uint64_t s = (uint64_t)e[i].filePos; seg(s); v.push_back({ s + 32, 4, "MetadataSize" }); v.push_back({ s + 36, 4, "AttachmentSize" }); v.push_back({ s + 40, 8, "DataSize" }); dv(s + 48); } }
    if (h.attDir > 0) { uint64_t p = (uint64_t)h.attDir; seg(p); v.push_back({ p + 32, 4, "AttEntryCount" }); auto e = czi::attDirectory(b, p); for (size_t i = 0; i < e.size(); ++i) { uint64_t o = p + 288 + 128 * i; v.push_back({ o, 2, "AttSchema" }); v.push_back({ o + 12, 8, "AttPosition" }); v.push_back({ o + 40, 4, "AttType" }); uint64_t s = (uint64_t)e[i].filePos; seg(s); v.push_back({ s + 32, 8, "AttDataSize" }); } }
    if (h.md > 0) { uint64_t p = (uint64_t)h.md; seg(p); v.push_back({ p + 32, 4, "XmlSize" }); v.push_back({ p + 36, 4, "MdAttSize" }); }
    return v;
}
static Bytes jxrPayload(Rng& r, Img& m)
{
    int pt = r.pick({ 0, 1, 3, 4 }); m = randomImg(r, pt, (uint32_t)r.range(1, 20), (uint32_t)r.range(1, 20)); auto* site = GetDefaultSiteObject(SiteObjectType::Default); (void)site;
    auto blk = JxrLibCompress::Compress(m.px(0, 0) ? (PixelType)pt : (PixelType)pt, m.w, m.h, (uint32_t)m.line(), m.d.data(), nullptr); return Bytes((uint8_t*)blk->GetPtr(), (uint8_t*)blk->GetPtr() + blk->GetSizeOfData());
}
static void oneCase(Rng& r, uint64_t)
{
    static bool once = (__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree), true); (void)once;
    g_fill = 0xbe; std::string what; Known k; Bytes b;
    // a document
    Doc d; d.guid = randomGuid(r);
    if (r.chance(70)) { TileGen g; g.masks = r.chance(60); g.layers = r.chance(40); g.maxLayer = 2; g.maxTiles = 6; g.types = { 0, 1, 2, 3, 4, 9 }; TileDoc td = makeTiles(r, g); for (auto& t : td.t) d.sb.push_back(t.sb); }
    else { Gen g; g.maxSb = 6; d = randomDoc(r, g); }
    if (!d.sb.empty() && r.chance(25)) { Img m; Sb& s = d.sb[(size_t)r.below(d.sb.size())]; s.data = jxrPayload(r, m); s.comp = 4; s.pt = m.pt; s.pw = s.w = (int)m.w; s.ph = s.h = (int)m.h; k.jxr.insert(hash64(s.data.data(), s.data.size())); }
    d.at.clear(); for (int i = r.range(0, 3); i > 0; --i) d.at.push_back(randomAt(r, 300)); d.hasMd = r.chance(80); if (d.hasMd) d.xml = hostileXml(r);
    // hostile payloads
    if (!d.sb.empty() && r.chance(35))
    {
        Sb& s = d.sb[(size_t)r.below(d.sb.size())]; what += "payload;";
        switch (r.below(7))
        {
        case 0: if (s.comp != 4) s.data = r.bytes(r.below(200)); break;
        case 1: if (!s.data.empty() && s.comp != 4) for (int n = r.range(1, 5); n > 0; --n) s.data[(size_t)r.below(s.data.size())] ^= (uint8_t)(1 << r.below(8)); break;
        case 2: if (s.comp != 4) s.data.resize((size_t)r.below(s.data.size() + 1)); break;
        case 3: if (s.comp != 4) s.comp = r.pick({ 0, 1, 2, 3, 5, 6, 7, 100, -1, 1000 }); break;
        case 4: { std::string x = chunkXml(); s.md.assign(x.begin(), x.end()); s.att = r.bytes(r.below(80)); if (r.chance(60)) { Bytes g = maskGuid(); s.att.insert(s.att.begin(), g.begin(), g.end()); if (s.att.size() > 40) { auto it = [&](int o, int64_t v) { poke(s.att, (uint64_t)o, 4, v); }; it(16, r.chance(50) ? (int64_t)s.att.size() - 20 : hostileValue(r, s.att, 16)); it(20, r.chance(50) ? 8 : hostileValue(r, s.att, 8)); it(24, r.chance(50) ? 4 : hostileValue(r, s.att, 4)); it(28, r.chance(80) ? 0 : 1); it(32, r.chance(50) ? 1 : hostileValue(r, s.att, 1)); } } } break;
        case 5: { std::string x = hostileXml(r); s.md.assign(x.begin(), x.end()); } break;
        default: s.md = r.bytes(r.below(100)); break;
        }
    }
    if (r.chance(15)) { Layout lay; lay.zeroSlack = r.chance(50); b = compose(r, d, lay); }
    else { auto f = makeFile(); WriteOpts wo; try { doc::write(r, d, std::make_shared<MemOut>(f), wo); } catch (LibCZIWriteException&) { ev("document-not-writable"); return; } b = f->data; } // (changing a tile's size may have made it a duplicate)
    auto fields = fieldsOf(b); std::map<std::string, int> byName;
    for (int n = r.chance(15) ? 0 : r.chance(70) ? 1 : r.range(2, 5); n > 0; --n)
    {
        switch (r.below(12))
        {
        case 0: { b.resize((size_t)r.below(b.size() + 1)); what += "truncated;"; } break;
        case 1: { for (int q = r.range(1, 20); q > 0 && !b.empty(); --q) b[(size_t)r.below(b.size())] = (uint8_t)r.next(); what += "noise;"; } break;
        case 2: { if (b.size() > 200) { size_t s = (size_t)r.below(b.size() - 100), t = (size_t)r.below(b.size() - 100), l = (size_t)r.range(1, 99); Bytes c(b.begin() + (long)s, b.begin() + (long)(s + l)); std::copy(c.begin(), c.end(), b.begin() + (long)t); what += "copied;"; } } break;
        case 3: if (r.chance(20)) { b = r.bytes(r.below(700)); if (b.size() >= 16 && r.chance(70)) { memcpy(b.data(), "ZISRAWFILE\0\0\0\0\0\0", 16); } what += "random;"; break; }
            [[fallthrough]];
        default:
        {
            // choose by name first, so that each kind of field is hit equally often
            std::vector<std::string> names; for (auto& f : fields) if (!byName[f.name]++) names.push_back(f.name); byName.clear();
            std::string nm = r.pick(names); std::vector<Field> c; for (auto& f : fields) if (nm == f.name) c.push_back(f); const Field& f = c[(size_t)r.below(c.size())];
            int64_t v = hostileValue(r, b, peek(b, f.off, f.width));
            if (nm == "Id") { const char* ids[] = { "ZISRAWFILE\0\0\0\0\0\0", "ZISRAWDIRECTORY\0", "ZISRAWSUBBLOCK\0\0", "ZISRAWMETADATA\0\0", "ZISRAWATTDIR\0\0\0\0", "ZISRAWATTACH\0\0\0\0", "DELETED\0\0\0\0\0\0\0\0\0" }; const char* id = ids[r.below(7)]; for (int i = 0; i < 16 && f.off + (uint64_t)i < b.size(); ++i) b[(size_t)f.off + (size_t)i] = (uint8_t)id[i]; }
            else if (nm == "Dimension") { poke(b, f.off, 4, r.chance(70) ? (int64_t)("XYMCZSTxBQ"[r.below(11)]) : v); }
            else if (nm == "DimensionCount") poke(b, f.off, 4, r.chance(50) ? r.pick({ 0, 1, 2, 10, 11, 39, 40, 41, 42, 60, 100, -1, INT_MIN, INT_MAX, 0x0ccccccd, 107374183 }) : v);
            else if (nm == "Schema" && r.chance(60)) { poke(b, f.off, 2, 0x4544); }
            else poke(b, f.off, f.width, v);
            // make the copy of the field in the other place (directory / segment) equal as well, sometimes
            if (r.chance(40) && c.size() > 1) { const Field& f2 = c[(size_t)r.below(c.size())]; poke(b, f2.off, f2.width, peek(b, f.off, f.width)); }
            what += nm + "@" + std::to_string(f.off) + "=" + std::to_string(peek(b, f.off, f.width)) + ";"; ev("field:" + nm);
        } break;
        }
    }
    if (what.empty()) what = "xml only"; ctx().sample(what);
    uint64_t seed = r.next(); bool edit = r.chance(35); std::string save = what + (edit ? " (edited)" : " (read)");
    Trace a = explore(b, seed, k, 0x00, edit), c = explore(b, seed, k, 0xe7, edit);
    if (a.lines != c.lines) { size_t i = 0; while (i < a.lines.size() && i < c.lines.size() && a.lines[i] == c.lines[i]) ++i; fail("uninitialised-memory", "the outcome depends on the content of fresh memory (" + save + "), step " + std::to_string(i) + ": '" + (i < a.lines.size() ? a.lines[i] : "-") + "' / '" + (i < c.lines.size() ? c.lines[i] : "-") + "', after '" + (i ? a.lines[i - 1] : "") + "'"); }
    uint64_t h = 0; for (auto& l : a.lines) h = hash64(l, h ^ 0x9e37); ctx().seenHash(h); ctx().evals += a.lines.size(); ev("outcomes-compared");
}
int main(int argc, char** argv) { return runMain(argc, argv, "C14", Options{ 12000, 300000 }, oneCase); }
