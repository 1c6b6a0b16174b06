// C17: many threads on shared readers/accessors/caches/bitmaps/metadata (and on independent objects): the race detector watches,
// and every result is compared with what a single-threaded run on a fresh reader gives.
#include "comp.hpp"
#include "libCZI_compress.h"
#include <thread>
#include <unistd.h>
using namespace comp; using libCZI::StreamsFactory;

// a stream without any synchronisation of its own (so that it does not hide races)
struct ConstIn : libCZI::IStream
{
    std::shared_ptr<const Bytes> b; int lag = 0; explicit ConstIn(std::shared_ptr<const Bytes> b, int lag) : b(std::move(b)), lag(lag) {}
    void Read(std::uint64_t off, void* pv, std::uint64_t size, std::uint64_t* done) override
    {
        uint64_t k = off >= b->size() ? 0 : std::min<uint64_t>(size, b->size() - off); if (k) memcpy(pv, b->data() + off, (size_t)k); if (done) *done = k;
        if (lag && (off >> 5) % (uint64_t)lag == 0) std::this_thread::yield();
    }
};
static std::string scratch(const char* n) { const char* s = getenv("VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/c17_" + std::to_string((long)getpid()) + n; }
static std::string hx(const void* p, size_t n) { char b[40]; snprintf(b, sizeof(b), "%zu:%016llx", n, (unsigned long long)(n ? hash64(p, n) : 0)); return b; }
static std::string hx(const Bytes& b) { return hx(b.data(), b.size()); }
static std::string hx(const Img& m) { return describe(m) + hx(m.d); }
static std::string narrow(const std::wstring& w) { std::string s; for (wchar_t c : w) { s += (char)c; if (c > 127) s += '?'; } return s; }

static Bytes raw(libCZI::ISubBlock* b, libCZI::ISubBlock::MemBlkType t) { size_t n = 0; auto p = b->GetRawData(t, &n); const uint8_t* q = (const uint8_t*)p.get(); return n ? Bytes(q, q + n) : Bytes(); } // (no accounting: runs in many threads)
struct Sh // the shared objects
{
    std::shared_ptr<libCZI::IStream> stream; std::shared_ptr<libCZI::ICZIReader> reader; std::vector<std::shared_ptr<libCZI::ISubBlock>> sb; std::vector<std::shared_ptr<libCZI::IBitmapData>> bmp; std::vector<std::shared_ptr<libCZI::IAttachment>> att;
    std::shared_ptr<libCZI::IMetadataSegment> seg; std::shared_ptr<libCZI::ICziMetadata> md; std::shared_ptr<libCZI::ICziMultiDimensionDocumentInfo> di; std::shared_ptr<libCZI::IDisplaySettings> ds; std::shared_ptr<libCZI::IIndexSet> set;
    std::shared_ptr<libCZI::ISubBlockMetadata> sbmd;
    std::shared_ptr<libCZI::ISingleChannelTileAccessor> t; std::shared_ptr<libCZI::ISingleChannelPyramidLayerTileAccessor> p; std::shared_ptr<libCZI::ISingleChannelScalingTileAccessor> s; std::shared_ptr<libCZI::ISubBlockCache> cache;
    int nSb = 0, nAt = 0;
};
struct World { TileDoc d; std::shared_ptr<const Bytes> bytes; int streamKind = 0; int lag = 0; std::string path; bool withShared = true; };
static const char* kStreams[] = { "own", "memory", "file", "c_runtime", "pread" };
static std::shared_ptr<libCZI::IStream> makeStream(const World& w, int kind)
{
    switch (kind)
    {
    case 1: { auto b = w.bytes; return libCZI::CreateStreamFromMemory(std::shared_ptr<const void>(b, b->data()), b->size()); }
    case 2: return libCZI::CreateStreamFromFile(std::wstring(w.path.begin(), w.path.end()).c_str());
    case 3: case 4: { StreamsFactory::CreateStreamInfo i; i.class_name = kind == 3 ? "c_runtime_file_inputstream" : "pread_file_inputstream"; return StreamsFactory::CreateStream(i, w.path); }
    default: return std::make_shared<ConstIn>(w.bytes, w.lag);
    }
}
static Sh build(const World& w, bool shared, int kind)
{
    Sh s; s.stream = makeStream(w, kind); s.reader = libCZI::CreateCZIReader(); s.reader->Open(s.stream); s.nAt = s.reader->GetAttachmentCount(); s.reader->EnumerateSubBlocks([&](int, const libCZI::SubBlockInfo&) { ++s.nSb; return true; });
    s.t = accessor<libCZI::ISingleChannelTileAccessor>(s.reader, libCZI::AccessorType::SingleChannelTileAccessor); s.p = accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(s.reader, libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor); s.s = accessor<libCZI::ISingleChannelScalingTileAccessor>(s.reader, libCZI::AccessorType::SingleChannelScalingTileAccessor);
    s.cache = libCZI::CreateSubBlockCache(); s.set = libCZI::Utils::IndexSetFromString(L"0-3,7,9-12,20-inf");
    if (shared)
    {
        for (int i = 0; i < s.nSb && i < 6; ++i) { auto b = s.reader->ReadSubBlock(i); s.sb.push_back(b); if (b->GetSubBlockInfo().GetCompressionMode() == libCZI::CompressionMode::UnCompressed) s.bmp.push_back(b->CreateBitmap()); }
        for (int i = 0; i < s.nAt; ++i) s.att.push_back(s.reader->ReadAttachment(i));
        s.seg = s.reader->ReadMetadataSegment(); s.md = s.seg->CreateMetaFromMetadataSegment(); s.di = s.md->GetDocumentInfo(); s.ds = s.di->GetDisplaySettings();
        if (!s.sb.empty()) s.sbmd = libCZI::CreateSubBlockMetadataFromSubBlock(s.sb[0].get());
    }
    return s;
}
struct Op { int kind; uint64_t seed; };
static std::string infoText(const libCZI::SubBlockInfo& i) { return fromInfo(i).infoKey(); }
static std::string rc(const libCZI::IntRect& r) { std::ostringstream o; o << r.x << "," << r.y << "," << r.w << "," << r.h << ";"; return o.str(); }
static std::string docInfoText(libCZI::ICziMultiDimensionDocumentInfo* di)
{
    std::ostringstream o; auto g = di->GetGeneralDocumentInfo(); o << g.name_valid << narrow(g.name) << g.title_valid << narrow(g.title) << g.userName_valid << narrow(g.userName) << g.rating_valid << g.rating << g.creationDateTime_valid; auto sc = di->GetScalingInfo(); o << "|" << sc.IsScaleXValid() << (sc.IsScaleXValid() ? sc.scaleX : 0) << "," << sc.IsScaleYValid() << (sc.IsScaleYValid() ? sc.scaleY : 0); auto ex = di->GetScalingInfoEx(); o << "|" << narrow(ex.defaultUnitFormatX);
    di->EnumDimensions([&](libCZI::DimensionIndex d) { auto q = di->GetDimensionInfo(d); int a = -1, b = -1; q->GetInterval(&a, &b); o << "|" << (int)d << ":" << a << "-" << b; return true; });
    if (auto z = di->GetDimensionZInfo()) { double a = 0, b = 0; o << "|z" << z->TryGetIntervalDefinition(&a, &b) << a << "," << b; } if (auto t = di->GetDimensionTInfo()) { double a = 0, b = 0; o << "|t" << t->TryGetIntervalDefinition(&a, &b) << a << "," << b; }
    if (auto c = di->GetDimensionChannelsInfo()) { int n = c->GetChannelCount(); o << "|c" << n; for (int i = 0; i < n; ++i) { std::string nm; c->GetChannel(i)->TryGetAttributeName(nullptr); o << "."; } }
    return o.str();
}
static std::string displayText(libCZI::IDisplaySettings* ds)
{
    std::ostringstream o; if (!ds) return "none"; ds->EnumChannels([&](int c) { auto s = ds->GetChannelDisplaySettings(c); float b = 0, w = 0, g = 0; s->GetBlackWhitePoint(&b, &w); libCZI::Rgb8Color col{ 0,0,0 }; bool t = s->TryGetTintingColorRgb8(&col); o << c << ":" << s->GetIsEnabled() << s->GetWeight() << "," << b << "," << w << "," << t << (int)col.r << (int)col.g << (int)col.b << "m" << (int)s->GetGradationCurveMode();
        if (s->TryGetGamma(&g)) { auto l = libCZI::Utils::Create8BitLookUpTableFromGamma(256, b, w, g); o << "g" << g << hx(l.data(), l.size()); }
        std::vector<libCZI::IDisplaySettings::SplineData> sd; if (s->TryGetSplineData(&sd)) { auto l = libCZI::Utils::Create8BitLookUpTableFromSplines(256, b, w, sd); o << "s" << sd.size() << hx(l.data(), l.size()); } return true; });
    return o.str();
}
static const int kOps = 27;
static const char* kOpName[kOps] = { "read-subblock", "read-and-decode", "shared-subblock-decode", "shared-subblock-raw", "read-attachment", "read-metadata", "shared-metadata", "statistics", "enumerate", "attachments", "tile-accessor", "pyramid-accessor", "scaling-accessor", "shared-bitmap", "zstd", "jxr", "multi-channel", "mask", "header", "prune", "display", "index-set", "subblock-metadata", "stream-read", "bitonal", "own-reader", "text" };
static std::string runOp(const World& w, const Sh& s, const Op& op, bool reference)
{
    Rng r(op.seed); std::ostringstream o; auto any = [&](size_t n) { return (int)r.below(n); };
    switch (op.kind)
    {
    case 0: case 1: { int i = any((size_t)s.nSb + 1); auto b = s.reader->ReadSubBlock(i); if (!b) { o << "null"; break; } o << infoText(b->GetSubBlockInfo()); for (auto t : { libCZI::ISubBlock::Data, libCZI::ISubBlock::Metadata, libCZI::ISubBlock::Attachment }) o << "|" << hx(raw(b.get(), t)); if (op.kind == 1) o << "|" << hx(fromBitmap(b->CreateBitmap().get())); } break;
    case 2: { if (s.sb.empty()) break; auto& b = s.sb[(size_t)any(s.sb.size())]; auto bm = b->CreateBitmap(); o << hx(fromBitmap(bm.get())); } break;
    case 3: { if (s.sb.empty()) break; auto& b = s.sb[(size_t)any(s.sb.size())]; o << infoText(b->GetSubBlockInfo()); for (auto t : { libCZI::ISubBlock::Data, libCZI::ISubBlock::Metadata, libCZI::ISubBlock::Attachment }) o << "|" << hx(raw(b.get(), t)); } break;
    case 4: { int i = any((size_t)s.nAt + 1); auto a = s.reader->ReadAttachment(i); if (!a) { o << "null"; break; } size_t n = 0; auto p = a->GetRawData(&n); o << a->GetAttachmentInfo().name << a->GetAttachmentInfo().contentFileType << hx(p.get(), n); if (i < (int)s.att.size()) { p = s.att[(size_t)i]->GetRawData(&n); o << hx(p.get(), n); } } break;
    case 5: { auto g = s.reader->ReadMetadataSegment(); size_t n = 0; auto p = g->GetRawData(libCZI::IMetadataSegment::XmlMetadata, &n); o << hx(p.get(), n); auto m = g->CreateMetaFromMetadataSegment(); o << hash64(m->GetXml()) << docInfoText(m->GetDocumentInfo().get()); if (s.seg) { p = s.seg->GetRawData(libCZI::IMetadataSegment::XmlMetadata, &n); o << hx(p.get(), n); auto m2 = s.seg->CreateMetaFromMetadataSegment(); o << m2->IsXmlValid(); } } break;
    case 6: { if (!s.md) break; switch (r.below(3)) { case 0: o << hash64(s.md->GetXml()); break; case 1: o << docInfoText(s.md->GetDocumentInfo().get()) << docInfoText(s.di.get()); break; default: { auto n = s.md->GetChildNodeReadonly("ImageDocument/Metadata/Information"); if (n) { o << narrow(n->Name()); n->EnumChildren([&](std::shared_ptr<libCZI::IXmlNodeRead> c) { std::wstring v; o << narrow(c->Name()) << c->TryGetValue(&v) << narrow(v); c->EnumAttributes([&](const std::wstring& a, const std::wstring& b) { o << narrow(a) << narrow(b); return true; }); return true; }); } } } } break;
    case 7: { auto st = s.reader->GetStatistics(); o << st.subBlockCount << rc(st.boundingBox) << rc(st.boundingBoxLayer0Only) << st.minMindex << "," << st.maxMindex << libCZI::Utils::DimBoundsToString(&st.dimBounds); for (auto& e : st.sceneBoundingBoxes) o << e.first << rc(e.second.boundingBox) << rc(e.second.boundingBoxLayer0); auto ps = s.reader->GetPyramidStatistics(); for (auto& e : ps.scenePyramidStatistics) { o << "S" << e.first; for (auto& l : e.second) o << (int)l.layerInfo.minificationFactor << "/" << (int)l.layerInfo.pyramidLayerNo << "=" << l.count << ","; } } break;
    case 8: { auto pl = randomPlane(r, w.d); CDimCoordinate pc = toCoord(pl); auto roi = randomRoi(r, w.d); switch (r.below(4)) { case 0: s.reader->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& f) { o << i << infoText(f); return true; }); break; case 1: s.reader->EnumSubset(&pc, r.chance(50) ? &roi : nullptr, r.chance(50), [&](int i, const libCZI::SubBlockInfo& f) { o << i << infoText(f); return true; }); break; case 2: s.reader->EnumerateSubBlocksEx([&](int i, const libCZI::DirectorySubBlockInfo& f) { o << i << "@" << f.filePosition; return true; }); break; default: { libCZI::SubBlockInfo f; int i = any((size_t)s.nSb + 2); if (s.reader->TryGetSubBlockInfo(i, &f)) o << infoText(f); o << s.reader->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(r.range(0, 3), f); } } } break;
    case 9: { o << s.reader->GetAttachmentCount(); s.reader->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo& a) { o << i << a.name << a.contentFileType; return true; }); libCZI::AttachmentInfo ai; for (int i = 0; i < s.nAt; ++i) if (s.reader->TryGetAttachmentInfo(i, &ai)) { o << ai.name; s.reader->EnumerateSubset(nullptr, ai.name.c_str(), [&](int k, const libCZI::AttachmentInfo&) { o << k; return true; }); } } break;
    case 10: case 11: case 12:
    {
        auto plane = randomPlane(r, w.d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(r, w.d); roi.w = std::min(std::max(roi.w, 4), 90); roi.h = std::min(std::max(roi.h, 4), 90); std::vector<const Tile*> all; for (auto& x : w.d.t) all.push_back(&x); int dt = destType(r, all); if (dt < 0) break;
        bool mask = r.chance(50), own = r.chance(30), useCache = r.chance(70), only = r.chance(40), vis = r.chance(50); float zoom = r.pick({ 1.f, 0.5f, 0.37f }); int layer = r.range(0, 2);
        auto common = [&](auto& q) { q.Clear(); q.backGroundColor = { .2f, .4f, .6f }; q.maskAware = mask; if (useCache && !reference) { q.subBlockCache = s.cache; q.onlyUseSubBlockCacheForCompressedData = only; } };
        if (op.kind == 10) { auto a = own ? accessor<libCZI::ISingleChannelTileAccessor>(s.reader, libCZI::AccessorType::SingleChannelTileAccessor) : s.t; libCZI::ISingleChannelTileAccessor::Options q; common(q); q.useVisibilityCheckOptimization = vis; o << hx(fromBitmap(a->Get((PixelType)dt, roi, &pc, &q).get())); }
        else if (op.kind == 11) { auto a = own ? accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(s.reader, libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor) : s.p; libCZI::ISingleChannelPyramidLayerTileAccessor::Options q; common(q); o << hx(fromBitmap(a->Get((PixelType)dt, roi, &pc, { 2, (uint8_t)layer }, &q).get())); }
        else { auto a = own ? accessor<libCZI::ISingleChannelScalingTileAccessor>(s.reader, libCZI::AccessorType::SingleChannelScalingTileAccessor) : s.s; libCZI::ISingleChannelScalingTileAccessor::Options q; common(q); q.useVisibilityCheckOptimization = vis; if ((int)(roi.w * zoom) == 0 || (int)(roi.h * zoom) == 0) break; o << hx(fromBitmap(a->Get((PixelType)dt, roi, &pc, zoom, &q).get())); }
    } break;
    case 13: { if (s.bmp.empty()) break; auto& b = s.bmp[(size_t)any(s.bmp.size())]; libCZI::ScopedBitmapLockerSP l{ b }; auto l2 = b->Lock(); o << hx(fromBitmap(b.get())) << (b->GetLockCount() >= 2) << (l2.ptrDataRoi == l.ptrDataRoi); b->Unlock(); } break;
    case 14: { Rng q(r.next() & 7); int pt = r.pick({ 0, 1, 1, 4, 3 }); Img m = randomImg(q, pt, (uint32_t)q.range(1, 50), (uint32_t)q.range(1, 20)); uint32_t stride = (uint32_t)m.line(); libCZI::CompressParametersOnMap pm; pm.map[(int)libCZI::CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = libCZI::CompressParameter(true); auto c = libCZI::ZstdCompress::CompressZStd1Alloc(m.w, m.h, stride, (PixelType)pt, m.d.data(), &pm); auto dec = libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default)->GetDecoder(libCZI::ImageDecoderType::ZStd1, nullptr); auto b = dec->Decode(c->GetPtr(), c->GetSizeOfData(), (PixelType)pt, m.w, m.h); Img g = fromBitmap(b.get()); o << (g == m) << hx(g); } break;
    case 15: { Rng q(r.next() & 7); int pt = q.pick({ 0, 1, 3, 4 }); Img m = randomImg(q, pt, (uint32_t)q.range(1, 40), (uint32_t)q.range(1, 30)); auto c = libCZI::JxrLibCompress::Compress((PixelType)pt, m.w, m.h, (uint32_t)m.line(), m.d.data(), nullptr); auto dec = libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default)->GetDecoder(libCZI::ImageDecoderType::JPXR_JxrLib, nullptr); Img g = fromBitmap(dec->Decode(c->GetPtr(), c->GetSizeOfData(), (PixelType)pt, m.w, m.h).get()); o << (g == m) << hx(g); } break;
    case 16: { if (s.bmp.empty()) break; auto& b = s.bmp[(size_t)any(s.bmp.size())]; int pt = (int)b->GetPixelType(); if (pt == 2 || pt == 8) break; libCZI::IBitmapData* src[2] = { b.get(), b.get() }; libCZI::Compositors::ChannelInfo ci[2]; for (auto& c : ci) { c.Clear(); c.weight = 0.5f; c.blackPoint = 0; c.whitePoint = 1; c.enableTinting = r.chance(50); c.tinting.color = { 200, 30, 90 }; } o << hx(fromBitmap(libCZI::Compositors::ComposeMultiChannel_Bgr24(2, src, ci).get())); } break;
    case 17: { if (s.sb.empty()) break; auto& b = s.sb[(size_t)any(s.sb.size())]; if (raw(b.get(), libCZI::ISubBlock::Attachment).empty()) break; auto m = libCZI::CreateSubBlockMetadataFromSubBlock(b.get()); auto a = libCZI::CreateSubBlockAttachmentAccessor(b, m); if (!a || !a->HasChunkContainer()) break; auto bb = a->CreateBitonalBitmapFromMaskInfo(); auto z = bb->GetSize(); auto l = bb->Lock(); for (uint32_t y = 0; y < z.h; ++y) for (uint32_t x = 0; x < z.w; ++x) o << libCZI::BitonalBitmapOperations::GetPixelValue(l, z, x, y); bb->Unlock(); } break;
    case 18: { auto h = s.reader->GetFileHeaderInfo(); o << hx(&h.fileGuid, 16) << h.majorVersion << h.minorVersion; libCZI::IntPointAndFrameOfReference p; p.frame_of_reference = libCZI::CZIFrameOfReference::PixelCoordinateSystem; p.point = { r.range(-9, 9), r.range(-9, 9) }; auto q = s.reader->TransformPoint(p, libCZI::CZIFrameOfReference::RawSubBlockCoordinateSystem); o << q.point.x << "," << q.point.y; } break;
    case 19: { if (reference) break; libCZI::ISubBlockCache::PruneOptions q; q.maxSubBlockCount = (uint32_t)r.range(0, 5); s.cache->Prune(q); s.cache->GetStatistics(3); } break;
    case 20: { if (!s.ds) break; o << displayText(s.ds.get()); } break;
    case 21: { for (int i = 0; i < 25; ++i) o << s.set->IsContained(i); } break;
    case 22: { if (!s.sbmd) break; double d = 0; std::wstring f; o << s.sbmd->IsXmlValid() << s.sbmd->TryGetTagAsDouble(L"StageXPosition", &d) << d << s.sbmd->TryGetAttachmentDataFormat(&f) << narrow(f) << hash64(s.sbmd->GetXml()); } break;
    case 23: { uint64_t off = r.below(w.bytes->size()), n = r.below(2000), got = 0; Bytes b((size_t)n + 1); s.stream->Read(off, b.data(), n, &got); o << got << hx(b.data(), (size_t)std::min(got, n)); } break;
    case 24: { Rng q(r.next() & 3); uint32_t W = (uint32_t)q.range(1, 40), H = (uint32_t)q.range(1, 9); auto b = libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default)->CreateBitmap(PixelType::Gray8, W, H, W, 0, 0); auto l = b->Lock(); for (uint32_t y = 0; y < H; ++y) memset((uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, (int)(y * 7), W); b->Unlock(); o << hx(fromBitmap(b.get())); } break;
    case 25: { auto rd = libCZI::CreateCZIReader(); rd->Open(std::make_shared<ConstIn>(w.bytes, 0)); o << rd->GetStatistics().subBlockCount; auto b = rd->ReadSubBlock(any((size_t)s.nSb)); o << hx(fromBitmap(b->CreateBitmap().get())); rd->Close(); } break;
    case 26: { auto c = CDimCoordinate::Parse("C2Z-3T4"); o << libCZI::Utils::DimCoordinateToString(&c); auto m = libCZI::CreateMetadataBuilder(); m->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Image/SizeX")->SetValueI32((int)r.below(100)); o << m->GetXml(r.chance(50)); StreamsFactory::Initialize(); o << StreamsFactory::GetStreamClassesCount(); o << libCZI::Utils::PixelTypeToInformalString(PixelType::Bgr48) << (libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default) == libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default)); } break;
    }
    return o.str();
}
static std::string richXml(Rng& r)
{
    std::ostringstream o; o << "<?xml version=\"1.0\"?><ImageDocument><Metadata><Information><Document><Name>n" << r.below(100) << "</Name><Title>t</Title><UserName>u</UserName><Rating>3</Rating></Document><Image><SizeX>10</SizeX><SizeY>12</SizeY><SizeC>2</SizeC><SizeZ>3</SizeZ><SizeT>2</SizeT><Dimensions><Channels><Channel Id=\"Channel:0\" Name=\"A\"/><Channel Id=\"Channel:1\" Name=\"B\"/></Channels><Z><StartPosition>1.5</StartPosition><Positions><Interval><Start>0</Start><Increment>0.5</Increment></Interval></Positions></Z><T><Positions><Interval><Start>0</Start><Increment>2</Increment></Interval></Positions></T></Dimensions></Image></Information><Scaling><Items><Distance Id=\"X\"><Value>1e-6</Value><DefaultUnitFormat>um</DefaultUnitFormat></Distance></Items></Scaling><DisplaySetting><Channels><Channel Id=\"Channel:0\"><Low>0.1</Low><High>0.8</High><Gamma>1.7</Gamma><Weight>0.5</Weight></Channel><Channel Id=\"Channel:1\"><Mode>Spline</Mode><Points>0.2,0.3 0.6,0.5</Points></Channel></Channels></DisplaySetting><Experiment/></Metadata></ImageDocument>";
    return o.str();
}
static void sharedCase(Rng& r, int mode /*0 shared, 1 with Close, 2 independent*/)
{
    World w; TileGen g; g.layers = true; g.maxLayer = 2; g.align = 4; g.masks = true; g.maxTiles = 12; g.extent = 30; g.maxSize = 30; g.mixedTypes = false; w.d = makeTiles(r, g);
    Doc m; m.guid = randomGuid(r); for (auto& t : w.d.t) m.sb.push_back(t.sb); for (int i = r.range(0, 3); i > 0; --i) m.at.push_back(randomAt(r, 500)); m.hasMd = true; m.xml = richXml(r);
    w.bytes = std::make_shared<const Bytes>(writeToBytes(r, m)); w.lag = r.pick({ 0, 0, 3, 9 }); w.streamKind = r.chance(50) ? 0 : r.range(1, 4); w.withShared = r.chance(75);
    w.path = scratch(".czi"); if (w.streamKind >= 2) { std::ofstream f(w.path, std::ios::binary); f.write((const char*)w.bytes->data(), (std::streamsize)w.bytes->size()); }
    int threads = r.range(2, 6), per = r.range(2, mode == 1 ? 40 : 25); std::vector<std::vector<Op>> plan((size_t)threads); std::vector<std::vector<std::string>> res((size_t)threads);
    std::vector<int> pool; for (int i = 0; i < kOps; ++i) pool.push_back(i); if (r.chance(50)) { r.shuffle(pool); pool.resize((size_t)r.range(1, 6)); } // few kinds of operation: many collisions
    int first = r.pick({ 14, 15, 26, 24, 1, 5, 25, 20 }); bool sameFirst = r.chance(50);
    for (auto& p : plan) for (int i = 0; i < per; ++i) p.push_back({ i == 0 && (sameFirst || mode == 2) ? first : r.pick(pool), r.next() });
    std::ostringstream d; d << (mode == 1 ? "with Close, " : mode == 2 ? "independent, " : "") << threads << " threads x " << per << " ops, stream " << kStreams[w.streamKind] << ", " << w.d.t.size() << " tiles"; ctx().currentDesc = d.str(); ctx().sample(d.str());
    Sh sh; if (mode != 2) sh = build(w, w.withShared, w.streamKind); std::vector<Sh> own((size_t)threads);
    std::atomic<int> go{ 0 }, tick{ 0 }; std::vector<std::vector<int>> ticks((size_t)threads); int closer = mode == 1 ? r.range(0, threads - 1) : -1; int closeAt = mode == 1 ? r.range(0, per - 1) : -1;
    std::vector<std::thread> th;
    for (int k = 0; k < threads; ++k) th.emplace_back([&, k]()
    {
        auto& out = res[(size_t)k]; out.resize(plan[(size_t)k].size()); go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < threads) std::this_thread::yield();
        try { if (mode == 2 && plan[(size_t)k][0].kind == 1) own[(size_t)k] = build(w, true, 0); } catch (std::exception&) {}
        for (size_t i = 0; i < plan[(size_t)k].size(); ++i)
        {
            if (k == closer && (int)i == closeAt) { try { sh.reader->Close(); } catch (std::exception&) {} }
            if (mode == 2 && i == 1 && !own[(size_t)k].reader) { try { own[(size_t)k] = build(w, true, 0); } catch (std::exception&) {} }
            ticks[(size_t)k].push_back(tick.fetch_add(1, std::memory_order_relaxed));
            try { const Sh& x = mode == 2 ? own[(size_t)k] : sh; const Op& op = plan[(size_t)k][i]; if (mode == 2 && i == 0 && !x.reader && (op.kind == 5 || op.kind == 20)) { own[(size_t)k] = build(w, true, 0); } if (mode == 2 && op.kind == 25 && !x.reader) { Sh y; y.nSb = (int)w.d.t.size(); out[i] = runOp(w, y, op, false); } else out[i] = runOp(w, x, op, false); }
            catch (std::exception& e) { out[i] = std::string("!") + e.what(); }
        }
    });
    for (auto& t : th) t.join();
    // the same operations, one after the other, on a fresh reader
    Sh ref = build(w, mode == 2 || w.withShared, 0); uint64_t done = 0, refused = 0;
    for (int k = 0; k < threads; ++k) for (size_t i = 0; i < plan[(size_t)k].size(); ++i)
    {
        const Op& op = plan[(size_t)k][i]; const std::string& got = res[(size_t)k][i]; std::string e; try { e = runOp(w, ref, op, true); } catch (std::exception& x) { e = std::string("!") + x.what(); }
        if (mode == 1 && !got.empty() && got[0] == '!') { ++refused; continue; }
        VH_CHECK(got == e, "differs-from-single-threaded", kOpName[op.kind] << ": got " << got.substr(0, 300) << " -- expected " << e.substr(0, 300)); ++done; ev(std::string("op:") + kOpName[op.kind]);
    }
    ev(mode == 1 ? "case-close" : mode == 2 ? "case-independent" : "case-shared"); ev("ops-compared", done); if (refused) ev("refused-after-close", refused); ev(std::string("stream-") + kStreams[w.streamKind]);
    uint64_t sw = 0; std::vector<int> who((size_t)tick.load()); for (int k = 0; k < threads; ++k) for (int t : ticks[(size_t)k]) who[(size_t)t] = k; for (size_t i = 1; i < who.size(); ++i) sw += who[i] != who[i - 1]; ev("thread-switches", sw); ctx().seenHash(hash64(who.data(), who.size() * sizeof(int))); ctx().evals += done;
    if (mode == 1) { bool threw = false; try { sh.reader->ReadSubBlock(0); } catch (std::exception&) { threw = true; } VH_CHECK(threw, "usable-after-close", "ReadSubBlock succeeds after Close"); }
    if (w.streamKind >= 2) ::unlink(w.path.c_str());
}
// concurrent writes to disjoint ranges of one file, and (for the in/out stream) reads of what is already there
static void streamWrites(Rng& r)
{
    int threads = r.range(2, 6); size_t n = (size_t)r.range(1, 40000); Bytes b = r.bytes(n); std::string path = scratch(".bin"); std::wstring wp(path.begin(), path.end()); ::unlink(path.c_str()); bool inout = r.chance(50); std::shared_ptr<libCZI::IOutputStream> os; std::shared_ptr<libCZI::IInputOutputStream> io;
    if (inout) { io = libCZI::CreateInputOutputStreamForFile(wp.c_str()); os = io; } else os = libCZI::CreateOutputStreamForFile(wp.c_str(), true);
    struct Piece { size_t o, n; }; std::vector<Piece> p; for (size_t o = 0; o < n;) { size_t k = std::min(n - o, (size_t)r.range(1, 3000)); p.push_back({ o, k }); o += k; } r.shuffle(p);
    std::atomic<int> go{ 0 }; std::atomic<int> bad{ 0 }; std::vector<std::thread> th; ctx().currentDesc = std::to_string(threads) + " threads writing " + std::to_string(p.size()) + " pieces";
    for (int k = 0; k < threads; ++k) th.emplace_back([&, k]() { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < threads) std::this_thread::yield(); for (size_t i = (size_t)k; i < p.size(); i += (size_t)threads) { uint64_t done = 0; os->Write(p[i].o, b.data() + p[i].o, p[i].n, &done); if (done != p[i].n) bad.fetch_add(1); if (io) { Bytes q(p[i].n); uint64_t got = 0; io->Read(p[i].o, q.data(), q.size(), &got); if (got != q.size() || memcmp(q.data(), b.data() + p[i].o, q.size())) bad.fetch_add(1); } } });
    for (auto& t : th) t.join(); os.reset(); io.reset();
    std::ifstream f(path, std::ios::binary); Bytes g((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); ::unlink(path.c_str());
    VH_CHECK(bad == 0, "stream-concurrent", "short or wrong transfer"); VH_CHECK(g == b, "stream-concurrent", "file content differs: " << diffBytes(b, g)); ev(inout ? "concurrent-inout" : "concurrent-writes"); ctx().evals += p.size(); ctx().seenHash(hash64(b.data(), b.size()));
}
static void oneCase(Rng& r, uint64_t n)
{
    static bool cold = true; if (cold) { cold = false; ev("cold-start"); sharedCase(r, n % 3 == 1 ? 0 : 2); return; }
    switch (r.below(8)) { case 0: sharedCase(r, 2); break; case 1: case 2: sharedCase(r, 1); break; case 3: streamWrites(r); break; default: sharedCase(r, 0); }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C17", Options{ 1500, 40000 }, oneCase); }
