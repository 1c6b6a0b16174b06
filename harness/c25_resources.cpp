// C25: scenarios on readers, accessors, codecs, writers and reader-writers, also ended by faults of the stream, the decoder, the bitmap
// factory, the caller's callbacks or an allocation. Monitored: the balance of the heap and of the file descriptors after releasing
// everything (each scenario is repeated, so that one-time initialisation does not count), lock counters of all bitmaps (memory of a bitmap
// is inaccessible while it is not locked), and the content of objects that outlive what they came from.
#include "comp.hpp"
#include "libCZI_compress.h"
#include <new>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>
extern "C" { int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)); size_t __sanitizer_get_allocated_size(const volatile void*); }
using namespace comp; using libCZI::StreamsFactory;

// ---- faults -------------------------------------------------------------------------------------------------------------
enum FaultKind { fNone, fRead, fWrite, fBitmap, fDecoder, fNew, fCallback, fKinds };
static const char* kFault[] = { "none", "read", "write", "bitmap", "decoder", "allocation", "callback" };
static struct { FaultKind kind = fNone; uint64_t at = 0; uint64_t count[fKinds] = {}; bool fired = false; bool counting = false; } g_f;
static bool hit(FaultKind k) { if (!g_f.counting) return false; uint64_t n = g_f.count[k]++; if (g_f.kind == k && n == g_f.at && !g_f.fired) { g_f.fired = true; return true; } return false; }
static void* allocate(size_t n) { if (g_f.counting && hit(fNew)) return nullptr; return malloc(n ? n : 1); }
void* operator new(size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = allocate(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
struct NoFaults { bool c; NoFaults() : c(g_f.counting) { g_f.counting = false; } ~NoFaults() { g_f.counting = c; } };

// ---- balance of the heap ---------------------------------------------------------------------------------------------------
static long g_blocks = 0; static long long g_bytes = 0;
static void onMalloc(const volatile void* p, size_t n) { if (p) { ++g_blocks; g_bytes += (long long)n; } }
static void onFree(const volatile void* p) { if (p) { --g_blocks; g_bytes -= (long long)__sanitizer_get_allocated_size((const void*)p); } }

// ---- bitmaps that watch how they are used ---------------------------------------------------------------------------------
static int g_bitmaps = 0; static char g_bad[200] = "";
static void bad(const char* what) { if (!g_bad[0]) snprintf(g_bad, sizeof(g_bad), "%s", what); }
struct Watched : libCZI::IBitmapData
{
    PixelType pt; uint32_t w, h, stride; size_t size; uint8_t* p; int locks = 0;
    Watched(PixelType pt, uint32_t w, uint32_t h, uint32_t stride) : pt(pt), w(w), h(h), stride(stride)
    {
        size_t line = (size_t)w * libCZI::Utils::GetBytesPerPixel(pt); if (stride == 0) this->stride = (uint32_t)line + (w % 3 ? 8 : 0); size = h ? (size_t)this->stride * (h - 1) + line : 0; p = (uint8_t*)malloc((size + 7) / 8 * 8 + 8); if (!p) throw std::bad_alloc(); ++g_bitmaps; __asan_poison_memory_region(p, (size + 7) / 8 * 8);
    }
    ~Watched() override { if (locks != 0) bad("a bitmap was destroyed while it was locked"); __asan_unpoison_memory_region(p, (size + 7) / 8 * 8); free(p); --g_bitmaps; }
    PixelType GetPixelType() const override { return pt; }
    libCZI::IntSize GetSize() const override { return { w, h }; }
    libCZI::BitmapLockInfo Lock() override { if (locks++ == 0) __asan_unpoison_memory_region(p, size); libCZI::BitmapLockInfo l; l.ptrData = l.ptrDataRoi = p; l.stride = stride; l.size = size; return l; }
    void Unlock() override { if (locks <= 0) { bad("a bitmap was unlocked more often than it was locked"); return; } if (--locks == 0) __asan_poison_memory_region(p, (size + 7) / 8 * 8); }
    int GetLockCount() const override { return locks; }
};
struct FaultyDecoder : libCZI::IDecoder
{
    std::shared_ptr<libCZI::IDecoder> d; explicit FaultyDecoder(std::shared_ptr<libCZI::IDecoder> d) : d(std::move(d)) {}
    std::shared_ptr<libCZI::IBitmapData> Decode(const void* p, size_t n, const PixelType* pt, const uint32_t* w, const uint32_t* h, const char* a) override { if (hit(fDecoder)) throw std::runtime_error("injected decoder failure"); return d->Decode(p, n, pt, w, h, a); }
};
struct Site : libCZI::ISite
{
    std::shared_ptr<libCZI::IDecoder> dec[8];
    bool IsEnabled(int) override { return false; }
    void Log(int, const char*) override {}
    std::shared_ptr<libCZI::IDecoder> GetDecoder(libCZI::ImageDecoderType t, const char* a) override { auto d = libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default)->GetDecoder(t, a); if (!d) return d; return std::make_shared<FaultyDecoder>(d); }
    std::shared_ptr<libCZI::IBitmapData> CreateBitmap(PixelType pt, uint32_t w, uint32_t h, uint32_t stride, uint32_t, uint32_t) override { if (hit(fBitmap)) throw std::bad_alloc(); return std::make_shared<Watched>(pt, w, h, stride); }
    void TerminateProgram(TerminationReason, const char* m) override { bad(m ? m : "TerminateProgram"); }
};
static Site g_site;

// ---- streams ----------------------------------------------------------------------------------------------------------------
struct In : libCZI::IStream { std::shared_ptr<const Bytes> b; explicit In(std::shared_ptr<const Bytes> b) : b(std::move(b)) {} void Read(uint64_t off, void* pv, uint64_t size, uint64_t* done) override { if (hit(fRead)) throw std::runtime_error("injected read error"); uint64_t k = off >= b->size() ? 0 : std::min<uint64_t>(size, b->size() - off); if (k) memcpy(pv, b->data() + off, (size_t)k); if (done) *done = k; } };
struct FaultyIn : libCZI::IStream { std::shared_ptr<libCZI::IStream> s; explicit FaultyIn(std::shared_ptr<libCZI::IStream> s) : s(std::move(s)) {} void Read(uint64_t off, void* pv, uint64_t size, uint64_t* done) override { if (hit(fRead)) throw std::runtime_error("injected read error"); s->Read(off, pv, size, done); } };
struct FaultyOut : libCZI::IOutputStream { std::shared_ptr<libCZI::IOutputStream> s; explicit FaultyOut(std::shared_ptr<libCZI::IOutputStream> s) : s(std::move(s)) {} void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* done) override { if (hit(fWrite)) throw std::runtime_error("injected write error"); s->Write(off, pv, size, done); } };
struct FaultyIo : libCZI::IInputOutputStream { std::shared_ptr<libCZI::IInputOutputStream> s; explicit FaultyIo(std::shared_ptr<libCZI::IInputOutputStream> s) : s(std::move(s)) {} void Read(uint64_t off, void* pv, uint64_t size, uint64_t* done) override { if (hit(fRead)) throw std::runtime_error("injected read error"); s->Read(off, pv, size, done); } void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* done) override { if (hit(fWrite)) throw std::runtime_error("injected write error"); s->Write(off, pv, size, done); } };

static std::string scratch(const char* n) { const char* s = getenv("VERIF_SCRATCH"); return std::string(s ? s : "/tmp") + "/c25_" + std::to_string((long)getpid()) + n; }
static std::wstring W(const std::string& s) { return std::wstring(s.begin(), s.end()); }
static int openFds() { int n = 0; for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }

// ---- what outlives -------------------------------------------------------------------------------------------------------------
struct Kept
{
    std::vector<std::pair<std::shared_ptr<libCZI::ISubBlock>, std::string>> sb; std::vector<std::pair<std::shared_ptr<libCZI::IBitmapData>, uint64_t>> bm; std::vector<std::tuple<std::shared_ptr<const void>, size_t, uint64_t>> mem; std::vector<std::pair<std::shared_ptr<libCZI::IAttachment>, std::string>> at;
    std::vector<std::pair<std::shared_ptr<libCZI::IMetadataSegment>, uint64_t>> seg; std::vector<std::pair<std::shared_ptr<libCZI::ICziMetadata>, uint64_t>> md; std::vector<std::pair<std::shared_ptr<libCZI::ICziMultiDimensionDocumentInfo>, std::string>> di; std::vector<std::pair<std::shared_ptr<libCZI::IDisplaySettings>, std::string>> ds;
    std::vector<std::pair<std::shared_ptr<libCZI::IMemoryBlock>, uint64_t>> blk; std::vector<std::pair<std::shared_ptr<libCZI::ISubBlockMetadata>, uint64_t>> smd; std::vector<std::pair<std::shared_ptr<libCZI::IBitonalBitmapData>, uint64_t>> bit; std::vector<std::pair<std::shared_ptr<libCZI::IStream>, uint64_t>> st;
};
template <typename T> static uint64_t xmlHash(T* m) { NoFaults nf; return hash64(m->GetXml()); }
static uint64_t pixels(libCZI::IBitmapData* b) { NoFaults nf; Img m = fromBitmap(b); return hash64(m.d.data(), m.d.size(), (uint64_t)m.pt * 77 + m.w * 31ull + m.h); }
static uint64_t bitPixels(libCZI::IBitonalBitmapData* b) { NoFaults nf; auto z = b->GetSize(); auto l = b->Lock(); uint64_t h = z.w * 31ull + z.h; for (uint32_t y = 0; y < z.h; ++y) h = hash64((const uint8_t*)l.ptrData + (size_t)y * l.stride, z.w / 8, h); b->Unlock(); return h; }
static uint64_t rawHash(libCZI::ISubBlock* s, libCZI::ISubBlock::MemBlkType t) { size_t n = 0; auto p = s->GetRawData(t, &n); return hash64(p.get(), n, n + 5); }
static std::string sbText(libCZI::ISubBlock* s) { NoFaults nf; std::ostringstream o; o << fromInfo(s->GetSubBlockInfo()).infoKey() << rawHash(s, libCZI::ISubBlock::Data) << "," << rawHash(s, libCZI::ISubBlock::Metadata) << "," << rawHash(s, libCZI::ISubBlock::Attachment); return o.str(); }
static std::string atText(libCZI::IAttachment* a) { NoFaults nf; size_t n = 0; auto p = a->GetRawData(&n); return a->GetAttachmentInfo().name + a->GetAttachmentInfo().contentFileType + std::to_string(hash64(p.get(), n, n)); }
static uint64_t segHash(libCZI::IMetadataSegment* s) { NoFaults nf; size_t n = 0; auto p = s->GetRawData(libCZI::IMetadataSegment::XmlMetadata, &n); return hash64(p.get(), n, n); }
static std::string diText(libCZI::ICziMultiDimensionDocumentInfo* d) { NoFaults nf; std::ostringstream o; auto g = d->GetGeneralDocumentInfo(); for (wchar_t c : g.name) o << (char)c; auto s = d->GetScalingInfo(); o << s.IsScaleXValid(); d->EnumDimensions([&](libCZI::DimensionIndex x) { int a = 0, b = 0; auto q = d->GetDimensionInfo(x); q->GetInterval(&a, &b); o << (int)x << a << b; return true; }); if (auto c = d->GetDimensionChannelsInfo()) { o << c->GetChannelCount(); for (int i = 0; i < c->GetChannelCount(); ++i) { std::wstring n; auto ch = c->GetChannel(i); o << ch->TryGetAttributeName(&n) << n.size(); } } return o.str(); }
static std::string dsText(libCZI::IDisplaySettings* d) { NoFaults nf; std::ostringstream o; d->EnumChannels([&](int c) { auto s = d->GetChannelDisplaySettings(c); float b = 0, w = 0; s->GetBlackWhitePoint(&b, &w); o << c << s->GetIsEnabled() << s->GetWeight() << b << w; return true; }); return o.str(); }
static void verify(Kept& k, const char* when)
{
    NoFaults nf;
    for (auto& e : k.sb) VH_CHECK(sbText(e.first.get()) == e.second, "object-changed", "sub-block " << when);
    for (auto& e : k.bm) VH_CHECK(pixels(e.first.get()) == e.second, "object-changed", "bitmap " << when);
    for (auto& e : k.mem) VH_CHECK(hash64(std::get<0>(e).get(), std::get<1>(e)) == std::get<2>(e), "object-changed", "raw data " << when);
    for (auto& e : k.at) VH_CHECK(atText(e.first.get()) == e.second, "object-changed", "attachment " << when);
    for (auto& e : k.seg) VH_CHECK(segHash(e.first.get()) == e.second, "object-changed", "metadata segment " << when);
    for (auto& e : k.md) VH_CHECK(hash64(e.first->GetXml()) == e.second, "object-changed", "metadata " << when);
    for (auto& e : k.di) VH_CHECK(diText(e.first.get()) == e.second, "object-changed", "document info " << when);
    for (auto& e : k.ds) VH_CHECK(dsText(e.first.get()) == e.second, "object-changed", "display settings " << when);
    for (auto& e : k.blk) VH_CHECK(hash64(e.first->GetPtr(), e.first->GetSizeOfData()) == e.second, "object-changed", "memory block " << when);
    for (auto& e : k.smd) VH_CHECK(hash64(e.first->GetXml()) == e.second, "object-changed", "sub-block metadata " << when);
    for (auto& e : k.bit) VH_CHECK(bitPixels(e.first.get()) == e.second, "object-changed", "mask " << when);
    for (auto& e : k.st) { Bytes b(64); uint64_t n = 0; e.first->Read(0, b.data(), 64, &n); VH_CHECK(hash64(b.data(), (size_t)n) == e.second, "object-changed", "attachment stream " << when); }
    for (auto& e : k.bm) VH_EQ(e.first->GetLockCount(), 0, "lock-count", "bitmap " << when);
    ev("kept", k.sb.size() + k.bm.size() + k.mem.size() + k.at.size() + k.seg.size() + k.md.size() + k.di.size() + k.ds.size() + k.blk.size() + k.smd.size() + k.bit.size() + k.st.size());
}
static void checkBad(const std::string& op) { if (g_bad[0]) { NoFaults nf; std::string m = g_bad; g_bad[0] = 0; fail("bitmap-lock", m + " (" + op + ")"); } }

struct World { TileDoc d; std::shared_ptr<const Bytes> bytes; std::string path; int streamKind = 0; int nAt = 0; };
static uint64_t g_failed = 0, g_ops = 0;
template <typename F> static bool attempt(const char* name, F&& f)
{
    ++g_ops; bool ok = true;
    try { f(); } catch (const Violation&) { throw; } catch (const std::exception&) { ok = false; ++g_failed; }
    checkBad(name); return ok;
}
static std::shared_ptr<libCZI::IStream> openStream(const World& w)
{
    switch (w.streamKind)
    {
    case 1: return std::make_shared<FaultyIn>(libCZI::CreateStreamFromFile(W(w.path).c_str()));
    case 2: { StreamsFactory::CreateStreamInfo i; i.class_name = "c_runtime_file_inputstream"; return std::make_shared<FaultyIn>(StreamsFactory::CreateStream(i, w.path)); }
    case 3: { auto b = w.bytes; return std::make_shared<FaultyIn>(libCZI::CreateStreamFromMemory(std::shared_ptr<const void>(b, b->data()), b->size())); }
    default: return std::make_shared<In>(w.bytes);
    }
}
// ---- a session with a reader -------------------------------------------------------------------------------------------------
static void readerScenario(const World& w, uint64_t seed)
{
    Rng r(seed); Kept k; std::shared_ptr<libCZI::ICZIReader> rd = libCZI::CreateCZIReader(); std::shared_ptr<libCZI::ISubBlockCache> cache; int nSb = (int)w.d.t.size();
    if (!attempt("open", [&] { auto s = openStream(w); rd->Open(s); })) { if (r.chance(50)) rd = libCZI::CreateCZIReader(); if (!attempt("open again", [&] { rd->Open(openStream(w)); })) return; }
    if (r.chance(60)) attempt("cache", [&] { cache = libCZI::CreateSubBlockCache(); });
    std::vector<std::shared_ptr<Watched>> own; { NoFaults nf; for (int i = 0; i < 2; ++i) { static const PixelType t[] = { PixelType::Gray8, PixelType::Bgr24, PixelType::Gray16, PixelType::Bgr48, PixelType::Gray32Float }; auto b = std::make_shared<Watched>(t[r.below(5)], (uint32_t)r.range(5, 60), (uint32_t)r.range(5, 60), 0); auto l = b->Lock(); memset(l.ptrData, 9, l.size); b->Unlock(); own.push_back(b); } }
    int n = r.range(3, 14);
    for (int q = 0; q < n; ++q)
    {
        int kind = r.range(0, 21); uint64_t s2 = r.next(); Rng o(s2);
        attempt("operation", [&]
        {
            switch (kind)
            {
            case 0: { auto b = rd->ReadSubBlock(o.range(0, nSb)); if (b) { std::string t = sbText(b.get()); k.sb.emplace_back(b, t); } } break;
            case 1: case 2: { auto b = rd->ReadSubBlock(o.range(0, nSb - 1)); libCZI::CreateBitmapOptions bo; bo.handle_zstd_data_size_mismatch = o.chance(50); auto m = o.chance(50) ? b->CreateBitmap() : b->CreateBitmap(&bo); uint64_t h = pixels(m.get()); k.bm.emplace_back(m, h); if (o.chance(40)) { std::string t = sbText(b.get()); k.sb.emplace_back(b, t); } } break;
            case 3: { auto b = rd->ReadSubBlock(o.range(0, nSb - 1)); size_t z = 0; auto p = b->GetRawData(o.pick({ libCZI::ISubBlock::Data, libCZI::ISubBlock::Metadata, libCZI::ISubBlock::Attachment }), &z); if (z) k.mem.emplace_back(p, z, hash64(p.get(), z)); } break;
            case 4: { if (!w.nAt) break; auto a = rd->ReadAttachment(o.range(0, w.nAt - 1)); std::string t = atText(a.get()); k.at.emplace_back(a, t); size_t z = 0; auto p = a->GetRawData(&z); if (z) k.mem.emplace_back(p, z, hash64(p.get(), z)); if (z && o.chance(40)) { auto st = libCZI::CreateStreamFromMemory(a.get()); Bytes x(64); uint64_t g = 0; st->Read(0, x.data(), 64, &g); k.st.emplace_back(st, hash64(x.data(), (size_t)g)); auto e = libCZI::CreateCZIReader(); try { e->Open(st); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) {} } } break;
            case 5: case 6: { auto g = rd->ReadMetadataSegment(); uint64_t h = segHash(g.get()); k.seg.emplace_back(g, h); if (o.chance(30)) break; auto m = g->CreateMetaFromMetadataSegment(); h = xmlHash(m.get()); k.md.emplace_back(m, h); if (o.chance(30)) break; auto d = m->GetDocumentInfo(); std::string t = diText(d.get()); k.di.emplace_back(d, t); auto ds = d->GetDisplaySettings(); if (ds) { t = dsText(ds.get()); k.ds.emplace_back(ds, t); } } break;
            case 7: case 8: case 9: case 10:
            {
                auto plane = randomPlane(o, w.d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(o, w.d); roi.w = std::min(std::max(roi.w, 1), 90); roi.h = std::min(std::max(roi.h, 1), 90); bool toOwn = o.chance(60); auto& ob = own[(size_t)o.below(own.size())]; PixelType pt = o.pick({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float }); bool autoPt = o.chance(30);
                auto opt = [&](auto& q2) { q2.Clear(); q2.maskAware = o.chance(60); if (o.chance(60)) q2.backGroundColor = { .1f, .5f, .9f }; if (cache && o.chance(70)) { q2.subBlockCache = cache; q2.onlyUseSubBlockCacheForCompressedData = o.chance(50); } };
                std::shared_ptr<libCZI::IBitmapData> g;
                if (kind <= 8) { auto a = accessor<libCZI::ISingleChannelTileAccessor>(rd, libCZI::AccessorType::SingleChannelTileAccessor); libCZI::ISingleChannelTileAccessor::Options q2; opt(q2); q2.drawTileBorder = o.chance(20); q2.useVisibilityCheckOptimization = o.chance(50); if (toOwn) a->Get(ob.get(), roi.x, roi.y, &pc, &q2); else g = autoPt ? a->Get(roi, &pc, &q2) : a->Get(pt, roi, &pc, &q2); }
                else if (kind == 9) { auto a = accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(rd, libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor); libCZI::ISingleChannelPyramidLayerTileAccessor::Options q2; opt(q2); libCZI::ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pl; pl.minificationFactor = 2; pl.pyramidLayerNo = (uint8_t)o.range(0, 2); if (toOwn) a->Get(ob.get(), roi.x, roi.y, &pc, pl, &q2); else g = autoPt ? a->Get(roi, &pc, pl, &q2) : a->Get(pt, roi, &pc, pl, &q2); }
                else { auto a = accessor<libCZI::ISingleChannelScalingTileAccessor>(rd, libCZI::AccessorType::SingleChannelScalingTileAccessor); libCZI::ISingleChannelScalingTileAccessor::Options q2; opt(q2); q2.useVisibilityCheckOptimization = o.chance(50); float z = o.pick({ 1.f, .5f, .3f }); if (toOwn) { auto sz = a->CalcSize(roi, z); if (sz.w == 0 || sz.h == 0) break; NoFaults* nf = new NoFaults; std::shared_ptr<Watched> x; try { x = std::make_shared<Watched>(pt, sz.w, sz.h, 0); } catch (...) { delete nf; throw; } delete nf; a->Get(x.get(), roi, &pc, z, &q2); VH_EQ(x->locks, 0, "lock-count", "scaling accessor"); } else { g = autoPt ? a->Get(roi, &pc, z, &q2) : a->Get(pt, roi, &pc, z, &q2); } }
                if (g) { uint64_t h = pixels(g.get()); k.bm.emplace_back(g, h); }
            } break;
            case 11: { if (k.bm.empty()) break; auto b = k.bm[(size_t)o.below(k.bm.size())].first; libCZI::IBitmapData* src[2] = { b.get(), b.get() }; libCZI::Compositors::ChannelInfo ci[2]; for (auto& c : ci) { c.Clear(); c.weight = 0.5f; c.whitePoint = 1; c.enableTinting = o.chance(50); c.tinting.color = { 10, 200, 90 }; } std::vector<uint8_t> lut((size_t)(o.chance(50) ? 256 : o.range(1, 70000)), 7); if (o.chance(30)) { ci[0].lookUpTableElementCount = (int)lut.size(); ci[0].ptrLookUpTable = lut.data(); } auto g = o.chance(50) ? libCZI::Compositors::ComposeMultiChannel_Bgr24(2, src, ci) : libCZI::Compositors::ComposeMultiChannel_Bgra32(200, 2, src, ci); uint64_t h = pixels(g.get()); k.bm.emplace_back(g, h); } break;
            case 12: { auto b = rd->ReadSubBlock(o.range(0, nSb - 1)); auto m = libCZI::CreateSubBlockMetadataFromSubBlock(b.get()); if (m && m->IsXmlValid()) { uint64_t h = xmlHash(m.get()); k.smd.emplace_back(m, h); } auto a = libCZI::CreateSubBlockAttachmentAccessor(b, o.chance(50) ? m : nullptr); if (a && a->HasChunkContainer()) { auto bb = a->CreateBitonalBitmapFromMaskInfo(); uint64_t h = bitPixels(bb.get()); k.bit.emplace_back(bb, h); a->EnumerateChunksInChunkContainer([&](int, const libCZI::ISubBlockAttachmentAccessor::ChunkInfo&) { if (hit(fCallback)) throw std::runtime_error("callback"); return true; }); } } break;
            case 13: { auto cb = [&](int, const libCZI::SubBlockInfo&) { if (hit(fCallback)) throw std::runtime_error("callback"); return true; }; auto pl = randomPlane(o, w.d); CDimCoordinate pc = toCoord(pl); auto roi = randomRoi(o, w.d); if (o.chance(40)) rd->EnumerateSubBlocks(cb); else rd->EnumSubset(&pc, &roi, o.chance(50), cb); rd->EnumerateAttachments([&](int, const libCZI::AttachmentInfo&) { if (hit(fCallback)) throw std::runtime_error("callback"); return true; }); } break;
            case 14: { if (k.bm.empty()) break; auto b = k.bm[(size_t)o.below(k.bm.size())].first; auto g = libCZI::Utils::GetBytesPerPixel(b->GetPixelType()) ? libCZI::Utils::NearestNeighborResize(b.get(), (uint32_t)o.range(1, 40), (uint32_t)o.range(1, 40)) : nullptr; if (g) { uint64_t h = pixels(g.get()); k.bm.emplace_back(g, h); } } break;
            case 15: case 16: { if (k.bm.empty()) break; auto b = k.bm[(size_t)o.below(k.bm.size())].first; std::shared_ptr<libCZI::IMemoryBlock> m; libCZI::ScopedBitmapLockerSP l{ b }; libCZI::CompressParametersOnMap pm; pm.map[(int)libCZI::CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = libCZI::CompressParameter(o.chance(50)); switch (o.below(3)) { case 0: m = libCZI::ZstdCompress::CompressZStd0Alloc(b->GetWidth(), b->GetHeight(), l.stride, b->GetPixelType(), l.ptrDataRoi, nullptr); break; case 1: m = libCZI::ZstdCompress::CompressZStd1Alloc(b->GetWidth(), b->GetHeight(), l.stride, b->GetPixelType(), l.ptrDataRoi, &pm); break; default: m = libCZI::JxrLibCompress::Compress(b->GetPixelType(), b->GetWidth(), b->GetHeight(), l.stride, l.ptrDataRoi, nullptr); } if (m) k.blk.emplace_back(m, hash64(m->GetPtr(), m->GetSizeOfData())); } break;
            case 17: { if (!cache) break; libCZI::ISubBlockCache::PruneOptions po; po.maxSubBlockCount = (uint32_t)o.range(0, 4); cache->Prune(po); auto st = cache->GetStatistics(3); (void)st; if (o.chance(20)) cache.reset(); } break;
            case 18: { if (o.chance(40)) rd->Close(); if (o.chance(60)) { rd = libCZI::CreateCZIReader(); rd->Open(openStream(w)); } } break;
            case 21: // a JPEG-XR stream which is stored rotated: the decoder cannot deliver it, and fails only after the bitmap was created and locked
            {
                const Sb* js = nullptr; for (auto& t : w.d.t) if (t.sb.comp == 4 && t.sb.data.size() > 80) js = &t.sb; if (!js) break; Bytes rot; { NoFaults nf; rot = js->data; } size_t tag = 0; for (size_t i = 0; i + 12 < std::min<size_t>(rot.size(), 200) && !tag; ++i) if (rot[i] == 0x02 && rot[i + 1] == 0xbc && rot[i + 2] == 4 && rot[i + 4] == 1) tag = i; if (!tag) break; rot[tag + 8] = (uint8_t)o.range(0, 7);
                auto dec = libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::WithJxrDecoder)->GetDecoder(libCZI::ImageDecoderType::JPXR_JxrLib, nullptr); try { auto m = dec->Decode(rot.data(), rot.size(), nullptr, nullptr, nullptr, nullptr); ev("oriented-jxr-decoded"); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { ev("rotated-jxr-refused"); }
            } break;
            case 20: { if (k.bm.empty()) break; auto b = k.bm[(size_t)o.below(k.bm.size())].first; bool refuse = o.chance(40); int live = 0, asked = 0; std::string what; bool done = false;
                auto al = [&](size_t n)->void* { ++asked; if (refuse) return nullptr; ++live; return malloc(n); }; auto fr = [&](void* p) { if (p) { --live; free(p); } else what = "null released"; };
                { libCZI::ScopedBitmapLockerSP l{ b }; libCZI::CompressParametersOnMap pm; pm.map[(int)libCZI::CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = libCZI::CompressParameter(o.chance(70)); std::shared_ptr<libCZI::IMemoryBlock> m; int which = o.range(0, 3); Bytes out; { NoFaults nf; out.resize(o.chance(40) ? (size_t)o.range(1, 60) : libCZI::ZstdCompress::CalculateMaxCompressedSizeZStd1(b->GetWidth(), b->GetHeight(), b->GetPixelType())); } size_t z = out.size();
                try { switch (which) { case 0: m = libCZI::ZstdCompress::CompressZStd0Alloc(b->GetWidth(), b->GetHeight(), l.stride, b->GetPixelType(), l.ptrDataRoi, al, fr, nullptr); break; case 1: m = libCZI::ZstdCompress::CompressZStd1Alloc(b->GetWidth(), b->GetHeight(), l.stride, b->GetPixelType(), l.ptrDataRoi, al, fr, &pm); break;
                    case 2: libCZI::ZstdCompress::CompressZStd0(b->GetWidth(), b->GetHeight(), l.stride, b->GetPixelType(), l.ptrDataRoi, al, fr, out.data(), z, &pm); break; default: libCZI::ZstdCompress::CompressZStd1(b->GetWidth(), b->GetHeight(), l.stride, b->GetPixelType(), l.ptrDataRoi, al, fr, out.data(), z, &pm); } done = true; }
                catch (const std::bad_alloc&) { throw; } catch (const std::runtime_error&) {} catch (const std::exception& e) { NoFaults nf; if (refuse && asked) what = std::string("refused temporary buffer reported as: ") + e.what(); } }
                { NoFaults nf; VH_CHECK(what.empty(), "temp-buffer", what); VH_EQ(live, 0, "temp-buffer-not-released", "temporary buffers of the compressor"); VH_CHECK(!(done && refuse && asked), "temp-buffer", "compression went on without the temporary buffer"); ev("temp-buffers", (uint64_t)asked); } } break;
            case 19: { auto e = libCZI::CreateCZIReader(); NoFaults* nf = new NoFaults; auto cut = std::make_shared<Bytes>(); try { cut->assign(w.bytes->begin(), w.bytes->begin() + (long)o.below(w.bytes->size())); if (o.chance(50) && !cut->empty()) (*cut)[(size_t)o.below(cut->size())] ^= (uint8_t)o.next(); } catch (...) {} delete nf; e->Open(std::make_shared<In>(cut)); e->GetStatistics(); e->ReadSubBlock(0)->CreateBitmap(); } break;
            }
        });
        for (auto& b : own) VH_EQ(b->locks, 0, "lock-count", "caller bitmap after operation " << kind);
        if (r.chance(15) && !k.sb.empty()) k.sb.erase(k.sb.begin() + (long)r.below(k.sb.size()));
    }
    bool close = r.chance(40); if (close) attempt("close", [&] { rd->Close(); });
    { NoFaults nf; if (r.chance(60)) { rd.reset(); cache.reset(); } verify(k, "after the reader is gone"); for (auto& e : k.sb) { try { auto b = e.first->CreateBitmap(); fromBitmap(b.get()); } catch (const std::exception&) {} } checkBad("decode afterwards"); }
}
// ---- sessions with writer and reader-writer ------------------------------------------------------------------------------------
template <typename T> static void spoilCallbacks(T& i) { auto f = i.getData; if (f) i.getData = [f](int c, size_t o, const void*& p, size_t& n)->bool { if (hit(fCallback)) throw std::runtime_error("callback"); return f(c, o, p, n); }; auto m = i.getMetaData; if (m) i.getMetaData = [m](int c, size_t o, const void*& p, size_t& n)->bool { if (hit(fCallback)) throw std::runtime_error("callback"); return m(c, o, p, n); }; }
static void writerScenario(const World& w, uint64_t seed)
{
    Rng r(seed); std::string path = scratch(".out"); bool file = r.chance(60); vh::MemFileP mf; std::shared_ptr<libCZI::ICziWriter> wr; libCZI::CZIWriterOptions wo; wo.allow_duplicate_subblocks = r.chance(40);
    Doc d; { NoFaults nf; d.guid = randomGuid(r); for (auto& t : w.d.t) d.sb.push_back(t.sb); for (int i = 0; i < 3; ++i) d.at.push_back(randomAt(r, 300)); mf = vh::makeFile(); if (file) ::unlink(path.c_str()); }
    if (!attempt("create", [&] { wr = libCZI::CreateCZIWriter(&wo); std::shared_ptr<libCZI::IOutputStream> o; if (file) o = libCZI::CreateOutputStreamForFileUtf8(path.c_str(), r.chance(50)); else o = std::make_shared<vh::MemOut>(mf); WriteOpts q; if (r.chance(40)) { q.resSb = 1000; q.resAt = 500; q.resMd = 700; } wr->Create(std::make_shared<FaultyOut>(o), writerInfo(d, q)); })) { wr.reset(); NoFaults nf; ::unlink(path.c_str()); return; }
    for (auto& s : d.sb) attempt("add", [&] { deliver(r, s, [&](auto i) { if constexpr (std::is_same<decltype(i), libCZI::AddSubBlockInfo>::value) spoilCallbacks(i); wr->SyncAddSubBlock(i); }); });
    for (auto& a : d.at) attempt("attachment", [&] { wr->SyncAddAttachment(attInfo(a)); });
    attempt("metadata", [&] { libCZI::PrepareMetadataInfo pi; pi.funcGenerateIdAndNameForChannel = [](int c) { if (hit(fCallback)) throw std::runtime_error("callback"); return std::make_tuple(std::string("Channel:") + std::to_string(c), std::make_tuple(true, std::string("n"))); }; auto b = wr->GetPreparedMetadata(pi); auto xml = b->GetXml(true); wr->SyncWriteMetadata(mdInfo(xml, Bytes())); });
    if (r.chance(80)) attempt("close", [&] { wr->Close(); });
    wr.reset(); { NoFaults nf; if (file) ::unlink(path.c_str()); } checkBad("writer");
}
static void rwScenario(const World& w, uint64_t seed)
{
    Rng r(seed); std::string path = scratch(".rw"); bool file = r.chance(60); vh::MemFileP mf; std::shared_ptr<libCZI::ICziReaderWriter> rw; Kept k; Doc d;
    { NoFaults nf; mf = vh::makeFile(*w.bytes); if (file) { int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); ssize_t x = ::write(fd, w.bytes->data(), w.bytes->size()); (void)x; ::close(fd); } for (int i = 0; i < 3; ++i) d.at.push_back(randomAt(r, 300)); }
    if (!attempt("create", [&] { rw = libCZI::CreateCZIReaderWriter(); std::shared_ptr<libCZI::IInputOutputStream> o; if (file) o = libCZI::CreateInputOutputStreamForFile(W(path).c_str()); else o = std::make_shared<vh::MemInOut>(mf); rw->Create(std::make_shared<FaultyIo>(o)); })) { rw.reset(); NoFaults nf; ::unlink(path.c_str()); return; }
    int nSb = (int)w.d.t.size(); std::vector<std::shared_ptr<Watched>> none;
    for (int n = r.range(2, 10); n > 0; --n)
    {
        int kind = r.range(0, 8); uint64_t s2 = r.next(); Rng o(s2);
        attempt("operation", [&]
        {
            switch (kind)
            {
            case 0: { Sb s = w.d.t[(size_t)o.below(w.d.t.size())].sb; s.x += 1000 + o.range(0, 50); s.mValid = false; deliver(o, s, [&](auto i) { if constexpr (std::is_same<decltype(i), libCZI::AddSubBlockInfo>::value) spoilCallbacks(i); rw->SyncAddSubBlock(i); }); ++nSb; } break;
            case 1: { Sb s = w.d.t[(size_t)o.below(w.d.t.size())].sb; int key = o.range(0, nSb); deliver(o, s, [&](const auto& i) { rw->ReplaceSubBlock(key, i); }); } break;
            case 2: rw->RemoveSubBlock(o.range(0, nSb)); break;
            case 3: { auto& a = d.at[(size_t)o.below(d.at.size())]; if (o.chance(50)) rw->SyncAddAttachment(attInfo(a)); else rw->ReplaceAttachment(o.range(0, 2), attInfo(a)); } break;
            case 4: rw->RemoveAttachment(o.range(0, 2)); break;
            case 5: { auto b = rw->ReadSubBlock(o.range(0, nSb)); if (b) { std::string t = sbText(b.get()); k.sb.emplace_back(b, t); auto m = b->CreateBitmap(); uint64_t h = pixels(m.get()); k.bm.emplace_back(m, h); } } break;
            case 6: { auto a = rw->ReadAttachment(o.range(0, 2)); if (a) { std::string t = atText(a.get()); k.at.emplace_back(a, t); } auto g = rw->ReadMetadataSegment(); if (g) { uint64_t h = segHash(g.get()); k.seg.emplace_back(g, h); } } break;
            case 7: { auto x = randomXml(o); rw->SyncWriteMetadata(mdInfo(x, Bytes())); } break;
            default: { auto plane = randomPlane(o, w.d); CDimCoordinate pc = toCoord(plane); IntRect roi = randomRoi(o, w.d); roi.w = std::min(std::max(roi.w, 1), 60); roi.h = std::min(std::max(roi.h, 1), 60); auto a = accessor<libCZI::ISingleChannelTileAccessor>(rw, libCZI::AccessorType::SingleChannelTileAccessor); libCZI::ISingleChannelTileAccessor::Options q2; q2.Clear(); auto g = a->Get(PixelType::Gray8, roi, &pc, &q2); uint64_t h = pixels(g.get()); k.bm.emplace_back(g, h); } break;
            }
        });
    }
    if (r.chance(70)) attempt("close", [&] { rw->Close(); });
    if (r.chance(80)) rw.reset(); verify(k, "after the reader-writer is gone"); rw.reset(); { NoFaults nf; if (file) ::unlink(path.c_str()); } checkBad("reader-writer");
}
static void run(int what, const World& w, uint64_t seed) { switch (what) { case 0: readerScenario(w, seed); break; case 1: writerScenario(w, seed); break; default: rwScenario(w, seed); } }

static void measured(int what, const World& w, uint64_t seed, FaultKind f, uint64_t at, long* blocks, long long* bytes, int* fds, int* bms)
{
    memset(g_f.count, 0, sizeof(g_f.count)); g_f.kind = f; g_f.at = at; g_f.fired = false; g_bad[0] = 0; int f0 = openFds(), b0 = g_bitmaps; long n0 = g_blocks; long long y0 = g_bytes; g_f.counting = true;
    struct Off { ~Off() { g_f.counting = false; if (lsan) __lsan_enable(); } bool lsan; } off{ f == fNew }; if (off.lsan) __lsan_disable(); try { run(what, w, seed); } catch (const std::bad_alloc&) { if (f != fNew) throw; } g_f.counting = false; *blocks = g_blocks - n0; *bytes = g_bytes - y0; *fds = openFds() - f0; *bms = g_bitmaps - b0;
}
static std::string xmlOf(Rng& r)
{
    std::ostringstream o; o << "<?xml version=\"1.0\"?><ImageDocument><Metadata><Information><Document><Name>n" << r.below(100) << "</Name></Document><Image><SizeX>10</SizeX><SizeC>2</SizeC><SizeZ>3</SizeZ><Dimensions><Channels><Channel Id=\"Channel:0\" Name=\"A\"/><Channel Id=\"Channel:1\" Name=\"B\"/></Channels></Dimensions></Image></Information><DisplaySetting><Channels><Channel Id=\"Channel:0\"><Low>0.1</Low><High>0.7</High><Gamma>1.3</Gamma></Channel><Channel Id=\"Channel:1\"><IsSelected>true</IsSelected></Channel></Channels></DisplaySetting></Metadata></ImageDocument>"; return o.str();
}
static void oneCase(Rng& r, uint64_t)
{
    World w; TileGen g; g.layers = true; g.maxLayer = 2; g.align = 4; g.masks = true; g.maxTiles = 7; g.extent = 20; g.maxSize = 25; g.mixedTypes = r.chance(30); w.d = makeTiles(r, g);
    Doc m; m.guid = randomGuid(r); for (auto& t : w.d.t) { if ((t.sb.pt == 0 || t.sb.pt == 1 || t.sb.pt == 3 || t.sb.pt == 4) && r.chance(25)) { auto c = libCZI::JxrLibCompress::Compress((PixelType)t.sb.pt, t.img.w, t.img.h, (uint32_t)t.img.line(), t.img.d.data(), nullptr); t.sb.data.assign((const uint8_t*)c->GetPtr(), (const uint8_t*)c->GetPtr() + c->GetSizeOfData()); t.sb.comp = 4; } m.sb.push_back(t.sb); }
    w.nAt = r.range(0, 3); for (int i = 0; i < w.nAt; ++i) m.at.push_back(randomAt(r, 400)); if (w.nAt && r.chance(30)) m.at[0].data = writeToBytes(r, Doc()); m.hasMd = true; m.xml = xmlOf(r); w.bytes = std::make_shared<const Bytes>(writeToBytes(r, m));
    w.streamKind = r.range(0, 3); w.path = scratch(".czi"); if (w.streamKind == 1 || w.streamKind == 2) { std::ofstream f(w.path, std::ios::binary); f.write((const char*)w.bytes->data(), (std::streamsize)w.bytes->size()); }
    int what = r.pick({ 0, 0, 0, 1, 2 }); uint64_t seed = r.next(); static const char* names[] = { "reader", "writer", "reader-writer" };
    ctx().currentDesc = std::string(names[what]) + ", stream " + std::to_string(w.streamKind) + ", no fault"; long blocks; long long bytes; int fds, bms; g_failed = g_ops = 0;
    measured(what, w, seed, fNone, 0, &blocks, &bytes, &fds, &bms); uint64_t counts[fKinds]; memcpy(counts, g_f.count, sizeof(counts)); ev("operations", g_ops); ev("operations-refused", g_failed);
    for (int k = 0, n = r.range(1, 4); k <= n; ++k)
    {
        FaultKind f = k == 0 ? fNone : (FaultKind)r.range(1, fKinds - 1); if (r.chance(30) && k) f = fNew; if (f != fNone && counts[f] == 0) continue; uint64_t at = f == fNone ? 0 : r.below(counts[f]);
        ctx().currentDesc = std::string(names[what]) + ", stream " + std::to_string(w.streamKind) + ", fault " + kFault[f] + " no. " + std::to_string(at) + " of " + std::to_string(f == fNone ? 0 : counts[f]);
        std::string desc = ctx().currentDesc; long grown = 0; long long grownBytes = 0; bool leak = true;
        for (int rep = 0; rep < 4 && leak; ++rep)
        {
            measured(what, w, seed, f, at, &blocks, &bytes, &fds, &bms); if (f != fNew) VH_EQ(fds, 0, "file-not-closed", "file descriptors after the scenario (difference)"); VH_EQ(bms, 0, "bitmap-leaked", "bitmaps after the scenario (difference)"); leak = blocks > 0 || bytes > 0; if (leak) { grown = blocks; grownBytes = bytes; }
        }
        if (f != fNew) VH_CHECK(!leak, "memory-not-released", grown << " blocks / " << grownBytes << " bytes are left after each repetition");
        ev(std::string("scenario-") + names[what]); ev(std::string("fault-") + kFault[f]); if (f != fNone && g_f.fired) ev(std::string("delivered-") + kFault[f]); ctx().seen(desc);
    }
    if (w.streamKind == 1 || w.streamKind == 2) ::unlink(w.path.c_str());
}
int main(int argc, char** argv)
{
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); libCZI::SetSiteObject(&g_site); ::close(0); // (so that the first file gets the descriptor 0)
    return runMain(argc, argv, "C25", Options{ 1500, 30000 }, oneCase);
}
