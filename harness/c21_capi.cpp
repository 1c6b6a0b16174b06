// C21: random sessions through the C API, each object shadowed by the same object of the C++ API on the same bytes. Monitored: every
// result and out-parameter, life time of the caller's stream objects (closed exactly once, never used afterwards), calls with null, stale,
// foreign or invented handles and with null pointers, faults of the streams and failing allocations (must come back as an error code,
// never as an exception), leaks (LSan); in a second build many threads share one reader handle under TSan.
#include "comp.hpp"
#include "libCZIApi.h"
#include <rapidjson/document.h>
#include <thread>
#include <new>
#include <unistd.h>
#include <sys/stat.h>
#ifdef __SANITIZE_ADDRESS__
#define C21_ASAN 1
#include <sanitizer/lsan_interface.h>
#endif
using namespace comp; using std::string; using std::shared_ptr; namespace L = libCZI;

// ---- failing allocations --------------------------------------------------------------------------------------------------
static thread_local struct { bool armed = false; int64_t left = 0; bool fired = false; } g_new;
#ifdef C21_ASAN
static bool failNow() { if (!g_new.armed || g_new.fired) return false; if (g_new.left-- == 0) { g_new.fired = true; return true; } return false; }
void* operator new(size_t n) { if (failNow()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { if (failNow()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif
static Rng* g_r = nullptr; static bool g_mayFail = false; // inject a failing allocation into the next call (decided per call)
struct Outcome { int code = 0; bool newFailed = false; };
/// one call through the C API
template <typename F> static Outcome call(const char* name, F&& f)
{
    Outcome o; bool inject = false;
#ifdef C21_ASAN
    if (g_mayFail && g_r && g_r->chance(20)) { inject = true; g_new.left = g_r->range(0, g_r->chance(50) ? 6 : 80); g_new.fired = false; __lsan_disable(); g_new.armed = true; }
#endif
    string thrown;
    try { o.code = f(); }
    catch (const std::exception& e) { g_new.armed = false; thrown = string("exception: ") + e.what(); }
    catch (...) { g_new.armed = false; thrown = "an unknown exception"; }
    g_new.armed = false;
#ifdef C21_ASAN
    if (inject) { __lsan_enable(); o.newFailed = g_new.fired; g_new.fired = false; if (o.newFailed) ev("allocation-failed"); }
#endif
    (void)inject;
    if (!thrown.empty()) fail("exception-crossed", string(name) + (o.newFailed ? " (failing allocation)" : "") + ": " + thrown);
    ev("calls"); ev(o.code == 0 ? "calls-ok" : "calls-refused");
    return o;
}
#define CALL(fn, ...) call(#fn, [&] { return fn(__VA_ARGS__); })

// ---- objects ----------------------------------------------------------------------------------------------------------------
enum Type { tReader, tSubBlock, tIn, tOut, tBitmap, tMeta, tAtt, tWriter, tAcc, tDoc, tDs, tCh, kTypes };
static const char* kName[] = { "reader", "sub-block", "input stream", "output stream", "bitmap", "metadata segment", "attachment", "writer", "accessor", "document info", "display settings", "channel display settings" };
struct Ext // a stream of the caller
{
    MemFileP f; std::atomic<int> closed{ 0 }; std::atomic<bool> usedAfterClose{ false }; std::atomic<uint64_t> ops{ 0 }; int64_t failAt = -1; int failKind = 0; bool fired = false; string msg;
};
using ExtP = shared_ptr<Ext>;
struct Obj
{
    ExtP ext; shared_ptr<L::IStream> in; shared_ptr<L::ICZIReader> rd; bool opened = false; shared_ptr<L::ISubBlock> sb; shared_ptr<L::IBitmapData> bm; int locks = 0; void* locked = nullptr; bool pixelsKnown = true;
    shared_ptr<L::IMetadataSegment> md; shared_ptr<L::IAttachment> at; shared_ptr<L::ISingleChannelScalingTileAccessor> acc; shared_ptr<L::ICziMultiDimensionDocumentInfo> doc; shared_ptr<L::IDisplaySettings> ds; std::vector<ExtP> keeps; // streams that must stay open
};
struct Handle { Type t; ObjectHandle h; shared_ptr<Obj> o; };
struct World
{
    Rng& r; Bytes bytes; TileDoc tiles; bool tiled = false; int nSb = 0, nAt = 0; std::vector<Handle> live; std::vector<std::pair<Type, ObjectHandle>> stale; std::vector<ExtP> exts; string log; string path; bool fileWritten = false;
    explicit World(Rng& r) : r(r) {}
    Handle* any(Type t) { std::vector<size_t> c; for (size_t i = 0; i < live.size(); ++i) if (live[i].t == t) c.push_back(i); return c.empty() ? nullptr : &live[c[(size_t)r.below(c.size())]]; }
    bool isLive(Type t, ObjectHandle h) const { for (auto& l : live) if (l.t == t && l.h == h) return true; return false; }
    Handle& add(Type t, ObjectHandle h, shared_ptr<Obj> o)
    {
        VH_CHECK(h != kInvalidObjectHandle, "handle", "a call succeeded but gave no handle of a " << kName[t]);
        for (auto& l : live) VH_CHECK(l.h != h, "handle", "the handle of a new " << kName[t] << " equals the one of a living " << kName[l.t]);
        live.push_back({ t, h, std::move(o) }); ev(string("created-") + kName[t]); return live.back();
    }
    void note(const string& s) { log += s + "; "; ctx().currentDesc = log.size() > 4000 ? log.substr(log.size() - 4000) : log; }
};
static string scratch(const string& n) { const char* s = getenv("VERIF_SCRATCH"); return string(s ? s : "/tmp") + "/c21_" + std::to_string((long)getpid()) + n; }
static std::wstring W(const string& s) { return std::wstring(s.begin(), s.end()); }
static int32_t failStream(Ext* e, ExternalStreamErrorInfoInterop* ei)
{
    e->fired = true;
    if (e->failKind && ei) { void* p = nullptr; if (libCZI_AllocateMemory(40, &p) == 0) { memset(p, 0, 40); strcpy((char*)p, "the disk is on fire"); ei->error_code = kStreamErrorCode_UnspecifiedError; ei->error_message = (MemoryAllocationObjectHandle)(intptr_t)p; } }
    return 1;
}
static int32_t extRead(uintptr_t a, uintptr_t b, uint64_t off, void* pv, uint64_t size, uint64_t* done, ExternalStreamErrorInfoInterop* ei)
{
    struct Off { bool a = g_new.armed; Off() { g_new.armed = false; } ~Off() { g_new.armed = a; } } guard;
    Ext* e = (Ext*)a; if (b != ~a || e->closed.load(std::memory_order_relaxed)) { e->usedAfterClose = true; return 1; }
    if ((int64_t)e->ops.fetch_add(1, std::memory_order_relaxed) == e->failAt) return failStream(e, ei);
    const Bytes& d = e->f->data; uint64_t k = off >= d.size() ? 0 : std::min<uint64_t>(size, d.size() - off); if (k) memcpy(pv, d.data() + off, (size_t)k); if (done) *done = k; return 0;
}
static int32_t extWrite(uintptr_t a, uintptr_t b, uint64_t off, const void* pv, uint64_t size, uint64_t* done, ExternalStreamErrorInfoInterop* ei)
{
    struct Off { bool a = g_new.armed; Off() { g_new.armed = false; } ~Off() { g_new.armed = a; } } guard;
    Ext* e = (Ext*)a; if (b != ~a || e->closed.load(std::memory_order_relaxed)) { e->usedAfterClose = true; return 1; }
    if ((int64_t)e->ops.fetch_add(1, std::memory_order_relaxed) == e->failAt) { if (e->failKind == 2 && size > 0) { e->fired = true; uint64_t k = size - 1; Bytes& d = e->f->data; if (off + k > d.size()) d.resize((size_t)(off + k)); memcpy(d.data() + off, pv, (size_t)k); if (done) *done = k; return 0; } return failStream(e, ei); }
    Bytes& d = e->f->data; if (off + size > (1u << 28)) return 1; if (off + size > d.size()) d.resize((size_t)(off + size)); if (size) memcpy(d.data() + off, pv, (size_t)size); if (done) *done = size; return 0;
}
static void extClose(uintptr_t a, uintptr_t b) { Ext* e = (Ext*)a; if (b != ~a) { fprintf(stderr, "wrong opaque handles at close\n"); abort(); } e->closed++; }
static ExternalInputStreamStructInterop inStruct(Ext* e) { ExternalInputStreamStructInterop s; s.opaque_handle1 = (uintptr_t)e; s.opaque_handle2 = ~(uintptr_t)e; s.read_function = extRead; s.close_function = extClose; return s; }
static ExternalOutputStreamStructInterop outStruct(Ext* e) { ExternalOutputStreamStructInterop s; s.opaque_handle1 = (uintptr_t)e; s.opaque_handle2 = ~(uintptr_t)e; s.write_function = extWrite; s.close_function = extClose; return s; }

static void checkStreams(World& w)
{
    for (auto& e : w.exts) { VH_CHECK(!e->usedAfterClose, "stream-life", "a stream of the caller was used after it was closed (or with wrong opaque values)"); VH_CHECK(e->closed <= 1, "stream-life", "a stream of the caller was closed " << e->closed << " times"); }
    for (auto& l : w.live) for (auto& k : l.o->keeps) VH_CHECK(k->closed == 0, "stream-life", "a stream of the caller was closed although a " << kName[l.t] << " still needs it");
}

// ---- comparing ---------------------------------------------------------------------------------------------------------------
template <typename F> static bool twin(F&& f) { try { f(); return true; } catch (const Violation&) { throw; } catch (const std::exception&) { return false; } }
/// `code` against "did the same call of the C++ API succeed"; returns true if the results are to be compared.
static bool judge(const char* fn, const Outcome& o, bool twinOk, bool fault = false)
{
    if (o.newFailed || fault) { if (o.code != 0) { ev("failure-reported"); return false; } if (!fault) return twinOk; }
    if (fault) fail("fault-swallowed", string(fn) + " reported success although reading/writing failed");
    VH_CHECK((o.code == 0) == twinOk, "result-code", fn << " returned " << o.code << ", the C++ API " << (twinOk ? "succeeded" : "failed"));
    return twinOk;
}
static bool sameRect(const IntRectInterop& a, const L::IntRect& b) { return a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h; }
static CoordinateInterop coordOf(const L::IDimCoordinate* c) { CoordinateInterop r; memset(&r, 0, sizeof(r)); int k = 0; for (int d = 1; d <= 9; ++d) { int v; if (c->TryGetPosition((DimensionIndex)d, &v)) { r.dimensions_valid |= 1u << (d - 1); r.value[k++] = v; } } return r; }
static void sameCoord(const CoordinateInterop& g, const L::IDimCoordinate* e, const char* fn)
{
    CoordinateInterop x = coordOf(e); VH_EQ(g.dimensions_valid, x.dimensions_valid, "sub-block-info", fn << ": dimensions"); int n = 0; for (int i = 0; i < 9; ++i) n += (x.dimensions_valid >> i) & 1; for (int i = 0; i < n; ++i) VH_EQ(g.value[i], x.value[i], "sub-block-info", fn << ": coordinate " << i);
}
static void sameInfo(const SubBlockInfoInterop& g, const L::SubBlockInfo& e, const char* fn)
{
    VH_EQ(g.compression_mode_raw, e.compressionModeRaw, "sub-block-info", fn); VH_EQ(g.pixel_type, (int)e.pixelType, "sub-block-info", fn); sameCoord(g.coordinate, &e.coordinate, fn);
    VH_CHECK(sameRect(g.logical_rect, e.logicalRect), "sub-block-info", fn << ": logical rectangle"); VH_EQ((uint32_t)g.physical_size.w, e.physicalSize.w, "sub-block-info", fn); VH_EQ((uint32_t)g.physical_size.h, e.physicalSize.h, "sub-block-info", fn);
    VH_EQ(g.m_index, e.IsMindexValid() ? e.mIndex : INT32_MIN, "sub-block-info", fn);
}
static void sameStats(const SubBlockStatisticsInterop& g, const L::SubBlockStatistics& e, const char* fn)
{
    VH_EQ(g.sub_block_count, e.subBlockCount, "statistics", fn); VH_EQ(g.min_m_index, e.minMindex, "statistics", fn); VH_EQ(g.max_m_index, e.maxMindex, "statistics", fn);
    VH_CHECK(sameRect(g.bounding_box, e.boundingBox), "statistics", fn << ": bounding box"); VH_CHECK(sameRect(g.bounding_box_layer0, e.boundingBoxLayer0Only), "statistics", fn << ": layer-0 bounding box");
    int k = 0; for (int d = 1; d <= 9; ++d) { int s, z; bool has = e.dimBounds.TryGetInterval((DimensionIndex)d, &s, &z); VH_EQ(((g.dim_bounds.dimensions_valid >> (d - 1)) & 1) != 0, has, "statistics", fn << ": dimension " << d); if (has) { VH_EQ(g.dim_bounds.start[k], s, "statistics", fn << ": start of dimension " << d); VH_EQ(g.dim_bounds.size[k], z, "statistics", fn << ": size of dimension " << d); ++k; } }
    VH_EQ(g.dim_bounds.dimensions_valid >> 9, 0u, "statistics", fn);
}
static void sameAttInfo(const AttachmentInfoInterop& g, const L::AttachmentInfo& e, const char* fn)
{
    VH_CHECK(memcmp(g.guid, &e.contentGuid, 16) == 0, "attachment-info", fn << ": GUID"); VH_CHECK(memcmp(g.content_file_type, e.contentFileType, 9) == 0, "attachment-info", fn << ": file type");
    if (g.name_overflow) { VH_CHECK(g.name_in_case_of_overflow && e.name == (const char*)g.name_in_case_of_overflow, "attachment-info", fn << ": long name"); libCZI_Free(g.name_in_case_of_overflow); }
    else VH_CHECK(memchr(g.name, 0, sizeof(g.name)) && e.name == g.name, "attachment-info", fn << ": name '" << string(g.name, strnlen(g.name, sizeof(g.name))) << "' instead of '" << e.name << "'");
}
using Flat = std::map<string, string>;
static string num(double d) { if (std::isnan(d) || std::isinf(d)) return "null"; char b[60]; snprintf(b, sizeof(b), "n:%.17g", d == 0 ? 0.0 : d); return b; }
static void flatten(const rapidjson::Value& v, const string& p, Flat& f)
{
    if (v.IsObject()) { if (v.MemberCount() == 0) f[p] = "{}"; for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it) { string k = p + "/" + it->name.GetString(); VH_CHECK(!f.count(k), "json", "key '" << k << "' appears twice"); flatten(it->value, k, f); } }
    else if (v.IsArray()) { if (v.Size() == 0) f[p] = "[]"; for (rapidjson::SizeType i = 0; i < v.Size(); ++i) flatten(v[i], p + "[" + std::to_string(i) + "]", f); }
    else if (v.IsString()) f[p] = string("s:") + string(v.GetString(), v.GetStringLength());
    else if (v.IsNumber()) f[p] = num(v.GetDouble());
    else if (v.IsBool()) f[p] = v.GetBool() ? "true" : "false"; else f[p] = "null";
}
static std::vector<double> numbers(const string& s) { std::vector<double> r; const char* p = s.c_str(); while (*p) { char* e; if ((*p >= '0' && *p <= '9') || *p == '.') { r.push_back(strtod(p, &e)); p = e; } else ++p; } return r; }
static void sameJson(const char* text, const Flat& want, const char* fn)
{
    VH_CHECK(text != nullptr, "json", fn << ": no text"); rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(text); VH_CHECK(!d.HasParseError(), "json", fn << ": not JSON: " << text); Flat got; flatten(d, "", got);
    auto c = got.find("/creation_date"); if (c != got.end()) { got["/creation_date_time"] = c->second; got.erase(c); }
    for (auto& e : want)
    {
        auto it = got.find(e.first); VH_CHECK(it != got.end(), "json", fn << ": '" << e.first << "' is missing in " << text);
        if (e.first.size() > 7 && e.first.substr(e.first.size() - 7) == "/ranges") { auto a = numbers(it->second), b = numbers(e.second); bool ok = a.size() == b.size() && std::count(it->second.begin(), it->second.end(), ',') == std::count(e.second.begin(), e.second.end(), ','); for (size_t i = 0; ok && i < a.size(); ++i) ok = (a[i] > 1e300 && b[i] > 1e300) || std::fabs(a[i] - b[i]) <= 1e-4 * std::fabs(b[i]) + 1e-300; VH_CHECK(ok, "json", fn << ": '" << e.first << "' is " << it->second << " instead of " << e.second); }
        else VH_CHECK(it->second == e.second, "json", fn << ": '" << e.first << "' is '" << it->second << "' instead of '" << e.second << "'");
    }
    for (auto& e : got) VH_CHECK(want.count(e.first), "json", fn << ": unexpected '" << e.first << "'='" << e.second << "'"); ev("json-values", want.size());
}
static Img pixelsOf(World& w, Handle& h)
{
    BitmapInfoInterop bi; memset(&bi, 0xcc, sizeof(bi)); VH_EQ(libCZI_BitmapGetInfo(h.h, &bi), 0, "bitmap", "GetInfo"); auto sz = h.o->bm->GetSize(); VH_EQ(bi.width, sz.w, "bitmap", "width"); VH_EQ(bi.height, sz.h, "bitmap", "height"); VH_EQ(bi.pixelType, (int)h.o->bm->GetPixelType(), "bitmap", "pixel type");
    Img m(bi.pixelType, bi.width, bi.height); size_t line = m.line(); uint32_t stride = (uint32_t)line + (w.r.chance(50) ? (uint32_t)w.r.range(1, 20) : 0);
    size_t total = bi.height ? (size_t)stride * (bi.height - 1) + line : 0; std::unique_ptr<uint8_t[]> p(new uint8_t[total ? total : 1]); memset(p.get(), 0xA5, total);
    VH_EQ(libCZI_BitmapCopyTo(h.h, bi.width, bi.height, bi.pixelType, stride, p.get()), 0, "bitmap", "CopyTo");
    for (uint32_t y = 0; y < bi.height; ++y) { if (line) memcpy(m.d.data() + y * line, p.get() + (size_t)y * stride, line); if (y + 1 < bi.height) for (size_t x = line; x < stride; ++x) VH_CHECK(p[(size_t)y * stride + x] == 0xA5, "bitmap", "CopyTo wrote behind a line"); }
    return m;
}
static void samePixels(World& w, Handle& h, const char* fn)
{
    Img g = pixelsOf(w, h); if (!h.o->pixelsKnown) return; Img e = fromBitmap(h.o->bm.get()); VH_CHECK(g == e, "pixels", fn << ": " << diff(e, g)); ctx().evals += g.d.size(); ev("bitmaps-compared"); ctx().seenHash(hash64(g.d.data(), g.d.size()));
}

// ---- documents ---------------------------------------------------------------------------------------------------------------
static string esc(const string& s) { string o; for (char c : s) { if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c; } return o; }
static string text(Rng& r) { return r.pick(std::vector<string>{ "abc", "two words", "say \"hi\" \\ / there", "\xC3\xA4\xC3\xB6\xE2\x82\xAC\xF0\x9D\x84\x9E", "<tag> & more", "x", string((size_t)r.range(1, 300), 'q'), "1,5;[a]{b}" }); }
static string dbl(Rng& r) { char b[60]; double d = r.chance(30) ? r.range(-100, 1000) : r.chance(50) ? (double)r.range(-100000, 100000) / 64.0 : (r.unit() - 0.3) * std::pow(10.0, r.range(-9, 9)); snprintf(b, sizeof(b), "%.17g", d); return b; }
static string posdbl(Rng& r) { char b[60]; snprintf(b, sizeof(b), "%.17g", r.chance(50) ? r.range(0, 900) : r.range(0, 90000) / 64.0); return b; }
#define EV(E, x) { E::x, #x }
template <typename T> using Names = std::vector<std::pair<T, string>>;
static const Names<L::DimensionChannelChannelType> kChType{ EV(L::DimensionChannelChannelType,Heightmap),EV(L::DimensionChannelChannelType,PalHR),EV(L::DimensionChannelChannelType,PalWidefield),EV(L::DimensionChannelChannelType,SimHR),EV(L::DimensionChannelChannelType,SimWidefield),EV(L::DimensionChannelChannelType,SimDWF),EV(L::DimensionChannelChannelType,AiryScanSum),EV(L::DimensionChannelChannelType,AiryScanRawSr),EV(L::DimensionChannelChannelType,AiryScanRaw),EV(L::DimensionChannelChannelType,AiryScanSr),EV(L::DimensionChannelChannelType,AiryScanVp),EV(L::DimensionChannelChannelType,AiryScanMb),EV(L::DimensionChannelChannelType,AiryScanRingSheppardSum),EV(L::DimensionChannelChannelType,OnlineUnmixing),EV(L::DimensionChannelChannelType,Unspecified) };
static const Names<L::PixelType> kPxType{ EV(L::PixelType,Gray8),EV(L::PixelType,Gray16),EV(L::PixelType,Gray32Float),EV(L::PixelType,Bgr24),EV(L::PixelType,Bgr48),EV(L::PixelType,Bgr96Float),EV(L::PixelType,Bgra32),EV(L::PixelType,Gray64ComplexFloat),EV(L::PixelType,Bgr192ComplexFloat),EV(L::PixelType,Gray32),EV(L::PixelType,Gray64Float) };
static const Names<L::DimensionChannelAcquisitionMode> kAcq{ EV(L::DimensionChannelAcquisitionMode,WideField),EV(L::DimensionChannelAcquisitionMode,LaserScanningConfocalMicroscopy),EV(L::DimensionChannelAcquisitionMode,SpinningDiskConfocal),EV(L::DimensionChannelAcquisitionMode,SlitScanConfocal),EV(L::DimensionChannelAcquisitionMode,MultiPhotonMicroscopy),EV(L::DimensionChannelAcquisitionMode,StructuredIllumination),EV(L::DimensionChannelAcquisitionMode,SingleMoleculeImaging),EV(L::DimensionChannelAcquisitionMode,TotalInternalReflection),EV(L::DimensionChannelAcquisitionMode,FluorescenceLifetime),EV(L::DimensionChannelAcquisitionMode,SpectralImaging),EV(L::DimensionChannelAcquisitionMode,FluorescenceCorrelationSpectroscopy),EV(L::DimensionChannelAcquisitionMode,NearFieldScanningOpticalMicroscopy),EV(L::DimensionChannelAcquisitionMode,SecondHarmonicGenerationImaging),EV(L::DimensionChannelAcquisitionMode,PALM),EV(L::DimensionChannelAcquisitionMode,STORM),EV(L::DimensionChannelAcquisitionMode,STED),EV(L::DimensionChannelAcquisitionMode,TIRF),EV(L::DimensionChannelAcquisitionMode,FSM),EV(L::DimensionChannelAcquisitionMode,LCM),EV(L::DimensionChannelAcquisitionMode,SPIM),EV(L::DimensionChannelAcquisitionMode,SEM),EV(L::DimensionChannelAcquisitionMode,FIB),EV(L::DimensionChannelAcquisitionMode,FIB_SEM),EV(L::DimensionChannelAcquisitionMode,ApertureCorrelation),EV(L::DimensionChannelAcquisitionMode,Other) };
static const Names<L::DimensionChannelIlluminationType> kIll{ EV(L::DimensionChannelIlluminationType,Transmitted),EV(L::DimensionChannelIlluminationType,Epifluorescence),EV(L::DimensionChannelIlluminationType,Oblique),EV(L::DimensionChannelIlluminationType,NonLinear),EV(L::DimensionChannelIlluminationType,Other) };
static const Names<L::DimensionChannelContrastMethod> kCon{ EV(L::DimensionChannelContrastMethod,Brightfield),EV(L::DimensionChannelContrastMethod,Phase),EV(L::DimensionChannelContrastMethod,DIC),EV(L::DimensionChannelContrastMethod,HoffmanModulation),EV(L::DimensionChannelContrastMethod,ObliqueIllumination),EV(L::DimensionChannelContrastMethod,PolarizedLight),EV(L::DimensionChannelContrastMethod,Darkfield),EV(L::DimensionChannelContrastMethod,Fluorescence),EV(L::DimensionChannelContrastMethod,MultiPhotonFluorescence),EV(L::DimensionChannelContrastMethod,Other) };
static const Names<L::DimensionChannelPinholeGeometry> kPin{ EV(L::DimensionChannelPinholeGeometry,Circular),EV(L::DimensionChannelPinholeGeometry,Rectangular),EV(L::DimensionChannelPinholeGeometry,Other) };
static string documentXml(Rng& r)
{
    if (r.chance(8)) return "<ImageDocument><Metadata/></ImageDocument>";
    std::ostringstream x; x << "<?xml version=\"1.0\" encoding=\"utf-8\"?><ImageDocument><Metadata>"; int p = r.pick({ 30, 70, 95 }); auto on = [&] { return r.chance(p); }; auto el = [&](const string& n, const string& v) { x << "<" << n << ">" << esc(v) << "</" << n << ">"; };
    x << "<Information>";
    if (on()) { x << "<Document>"; for (auto n : { "Name", "Title", "UserName", "Description", "Comment", "Keywords", "CreationDate" }) if (on()) el(n, text(r)); if (on()) el("Rating", std::to_string(r.range(-5, 10))); x << "</Document>"; }
    x << "<Image>"; for (char d : string("ZCTRSIHVBXYM")) { if (on()) el(string("Size") + d, std::to_string(r.range(1, 50))); if (r.chance(30)) el(string("Start") + d, std::to_string(r.range(-5, 50))); }
    if (r.chance(80))
    {
        x << "<Dimensions>";
        auto positions = [&](const char*) { int k = (int)r.below(3); if (k == 1) x << "<Positions><Interval><Start>" << dbl(r) << "</Start><Increment>" << dbl(r) << "</Increment></Interval></Positions>"; if (k == 2) { x << "<Positions><List><Offsets>"; for (int i = r.range(1, 9); i > 0; --i) x << dbl(r) << (i > 1 ? " " : ""); x << "</Offsets></List></Positions>"; } };
        if (on()) { x << "<Z>"; positions("Z"); if (on()) el("StartPosition", r.chance(5) ? "INF" : dbl(r)); if (on()) el("XYZHandedness", r.pick({ string("LeftHanded"), string("RightHanded"), string("Undefined") })); if (on()) el("ZAxisDirection", r.pick({ string("FromSpecimenToObjective"), string("FromObjectiveToSpecimen"), string("Undefined") })); if (on()) el("ZDriveMode", r.pick({ string("Continuous"), string("Step") })); if (on()) el("ZDriveSpeed", dbl(r)); x << "</Z>"; }
        if (on()) { x << "<T>"; positions("T"); if (on()) el("StartTime", r.pick({ string("2016-03-25T11:12:13Z"), string("1999-12-31T23:59:59"), string("2020-02-29T00:00:00+05:30") })); x << "</T>"; }
        if (on())
        {
            x << "<Channels>";
            for (int c = r.range(0, 4); c > 0; --c)
            {
                x << "<Channel"; if (on()) x << " Id=\"" << esc(text(r)) << "\""; if (on()) x << " Name=\"" << esc(text(r)) << "\""; x << ">";
                if (on()) el("ChannelType", r.pick(kChType).second); if (on()) el("ChannelUnit", text(r)); if (on()) el("PixelType", r.pick(kPxType).second); if (on()) el("ComponentBitCount", std::to_string(r.range(1, 32)));
                if (on()) { string a = r.pick(kAcq).second; el("AcquisitionMode", a == "FIB_SEM" ? "FIB-SEM" : a); } if (on()) el("IlluminationType", r.pick(kIll).second); if (on()) el("ContrastMethod", r.pick(kCon).second);
                for (auto n : { "IlluminationWavelength", "DetectionWavelength" }) if (on()) { x << "<" << n << ">"; if (r.chance(40)) el("SinglePeak", dbl(r)); else { string t; for (int k = r.range(1, 4); k > 0; --k) { t += posdbl(r); if (r.chance(60)) t += "-" + posdbl(r); if (k > 1) t += ","; } el("Ranges", t); } x << "</" << n << ">"; }
                for (auto n : { "ExcitationWavelength", "EmissionWavelength", "EffectiveNA", "PinholeSize", "PinholeSizeAiry", "NDFilter", "DepthOfFocus", "SectionThickness", "NACondenser" }) if (on()) el(n, r.chance(3) ? "NaN" : dbl(r));
                for (auto n : { "DyeId", "DyeDatabaseId", "Fluor", "Reflector", "CondenserContrast" }) if (on()) el(n, text(r));
                if (on()) el("PinholeGeometry", r.pick(kPin).second); if (on()) el("PockelCellSetting", std::to_string(r.range(-5, 5)));
                if (on()) { char b[20]; snprintf(b, sizeof(b), "#%08X", (unsigned)r.next()); el("Color", b); } if (on()) el("ExposureTime", std::to_string(r.below(1000000000)) + (r.chance(40) ? "-" + std::to_string(r.below(1000000)) : ""));
                x << "</Channel>";
            }
            x << "</Channels>";
        }
        x << "</Dimensions>";
    }
    x << "</Image></Information>";
    if (on()) { x << "<Scaling><Items>"; for (char d : { 'X', 'Y', 'Z' }) if (on()) x << "<Distance Id=\"" << d << "\"><Value>" << dbl(r) << "</Value></Distance>"; x << "</Items></Scaling>"; }
    if (on())
    {
        x << "<DisplaySetting><Channels>";
        for (int c = r.range(0, 4), i = 0; i < c; ++i)
        {
            auto f01 = [&] { std::ostringstream o; o << (r.chance(20) ? 0.0 : r.unit() * 0.5); return o.str(); };
            x << "<Channel Id=\"Channel:" << i << "\">"; if (on()) el("Low", f01()); if (on()) { std::ostringstream o; o << 0.5 + r.unit() * 0.5; el("High", o.str()); } if (on()) { std::ostringstream o; o << r.unit(); el("Weight", o.str()); } if (on()) el("IsSelected", r.chance(80) ? "true" : "false");
            if (r.chance(50)) { el("ColorMode", "Color"); char b[20]; snprintf(b, sizeof(b), "#%08X", (unsigned)r.next()); el("Color", b); } else if (r.chance(30)) el("ColorMode", "None");
            if (r.chance(35)) { std::ostringstream o; o << 0.4 + r.unit() * 2; el("Gamma", o.str()); } else if (r.chance(50)) { el("Mode", "Spline"); std::ostringstream o; double v = 0; for (int k = r.range(1, 3), j = 1; j <= k; ++j) { v = j / (k + 1.0); o << (j > 1 ? " " : "") << v << "," << r.unit(); } el("Points", o.str()); }
            x << "</Channel>";
        }
        x << "</Channels></DisplaySetting>";
    }
    x << "</Metadata></ImageDocument>"; return x.str();
}
static void makeWorld(World& w)
{
    Rng& r = w.r; Doc m; WriteOpts wo; w.tiled = r.chance(60);
    if (w.tiled) { TileGen g; g.maxTiles = 8; g.layers = r.chance(40); g.maxLayer = g.layers ? 2 : 0; g.masks = r.chance(30); g.maxSize = 16; g.extent = 40; w.tiles = makeTiles(r, g); for (auto& t : w.tiles.t) m.sb.push_back(t.sb); }
    else { Gen g; g.maxSb = 8; m = randomDoc(r, g); m.at.clear(); for (auto& s : m.sb) if (s.comp == 4) s.comp = 5; }
    m.guid = randomGuid(r); for (int n = r.chance(30) ? 0 : r.range(1, 4); n > 0; --n) m.at.push_back(randomAt(r, 600));
    m.hasMd = r.chance(90); if (m.hasMd) m.xml = r.chance(90) ? documentXml(r) : r.chance(50) ? string() : "this is <not XML"; m.mdAtt.clear();
    w.bytes = writeToBytes(r, m, wo); w.nSb = (int)m.sb.size(); w.nAt = (int)m.at.size();
    if (r.chance(10)) { w.bytes.resize((size_t)r.below(w.bytes.size() + 1)); ev("truncated-files"); }
    w.path = scratch(".czi");
}

// ---- JSON expected from what the C++ API says --------------------------------------------------------------------------------
static string u8(const std::wstring& s) { string o; for (wchar_t c : s) { uint32_t v = (uint32_t)c; if (v < 0x80) o += (char)v; else if (v < 0x800) { o += (char)(0xC0 | v >> 6); o += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { o += (char)(0xE0 | v >> 12); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } else { o += (char)(0xF0 | v >> 18); o += (char)(0x80 | (v >> 12 & 63)); o += (char)(0x80 | (v >> 6 & 63)); o += (char)(0x80 | (v & 63)); } } return o; }
static void list(Flat& f, const string& k, const std::vector<double>& v) { if (v.empty()) f[k] = "[]"; for (size_t i = 0; i < v.size(); ++i) f[k + "[" + std::to_string(i) + "]"] = num(v[i]); }
static void finish(Flat& f) { if (f.empty()) f[""] = "{}"; }
static Flat generalJson(const L::GeneralDocumentInfo& g)
{
    Flat f; auto s = [&](bool ok, const char* k, const std::wstring& v) { if (ok) f[string("/") + k] = "s:" + u8(v); };
    s(g.name_valid, "name", g.name); s(g.title_valid, "title", g.title); s(g.userName_valid, "user_name", g.userName); s(g.description_valid, "description", g.description); s(g.comment_valid, "comment", g.comment); s(g.keywords_valid, "keywords", g.keywords); s(g.creationDateTime_valid, "creation_date_time", g.creationDateTime); if (g.rating_valid) f["/rating"] = num(g.rating); finish(f); return f;
}
static Flat zJson(const L::IDimensionZInfo& z)
{
    Flat f; double a, b; std::vector<double> l; if (z.TryGetReferencePosition(&a)) f["/reference_position"] = num(a); if (z.TryGetIntervalDefinition(&a, &b)) list(f, "/interval_definition", { a, b }); else if (z.TryGetPositionList(&l)) list(f, "/position_list", l);
    using Z = L::IDimensionZInfo; Z::XyzHandedness h; if (z.TryGetXyzHandedness(&h)) f["/xyz_handedness"] = h == Z::XyzHandedness::LeftHanded ? "s:left_handed" : h == Z::XyzHandedness::RightHanded ? "s:right_handed" : "s:undefined";
    Z::ZaxisDirection d; if (z.TryGetZAxisDirection(&d)) f["/z_axis_direction"] = d == Z::ZaxisDirection::FromSpecimenToObjective ? "s:from_specimen_to_objective" : d == Z::ZaxisDirection::FromObjectiveToSpecimen ? "s:from_objective_to_specimen" : "s:undefined";
    Z::ZDriveMode m; if (z.TryGetZDriveMode(&m)) f["/z_drive_mode"] = m == Z::ZDriveMode::Continuous ? "s:continuous" : "s:step"; if (z.TryZDriveSpeed(&a)) f["/z_drive_speed"] = num(a); finish(f); return f;
}
static Flat tJson(const L::IDimensionTInfo& t)
{
    Flat f; double a, b; std::vector<double> l; L::XmlDateTime d; if (t.TryGetStartTime(&d)) f["/start_time"] = "s:" + d.ToXmlString(); if (t.TryGetIntervalDefinition(&a, &b)) list(f, "/interval_definition", { a, b }); else if (t.TryGetOffsetsList(&l)) list(f, "/offset_list", l); finish(f); return f;
}
static Flat cJson(const L::IDimensionsChannelsInfo& ci)
{
    using Ch = L::IDimensionChannelInfo; Flat f;
    for (int i = 0; i < ci.GetChannelCount(); ++i)
    {
        auto c = ci.GetChannel(i); string p = "/" + std::to_string(i); size_t before = f.size();
        auto S = [&](const char* k, bool (Ch::* m)(std::wstring*) const) { std::wstring v; if (((*c).*m)(&v)) f[p + "/" + k] = "s:" + u8(v); };
        auto D = [&](const char* k, bool (Ch::* m)(double*) const) { double v; if (((*c).*m)(&v)) f[p + "/" + k] = num(v); };
        auto I = [&](const char* k, bool (Ch::* m)(int*) const) { int v; if (((*c).*m)(&v)) f[p + "/" + k] = num(v); };
        auto E = [&](const char* k, auto m, const auto& names) { auto v = names[0].first; if (((*c).*m)(&v)) for (auto& n : names) if (n.first == v) f[p + "/" + k] = "s:" + n.second; };
        auto Sp = [&](const char* k, bool (Ch::* m)(L::SpectrumCharacteristics*) const) { L::SpectrumCharacteristics s; if (!((*c).*m)(&s)) return; string q = p + "/" + k; if (s.type == L::SpectrumCharacteristics::InformationType::SinglePeak) { f[q + "/type"] = "s:SinglePeak"; f[q + "/single_peak"] = num(s.singlePeak); } else { f[q + "/type"] = "s:Ranges"; std::ostringstream o; o.precision(17); bool first = true; for (auto& x : s.ranges) { if (!first) o << ","; first = false; o << x.startOrSingleValue; if (!x.singleValue) o << "-" << x.end; } f[q + "/ranges"] = "s:" + o.str(); } };
        S("attribute_id", &Ch::TryGetAttributeId); S("attribute_name", &Ch::TryGetAttributeName); E("channel_type", &Ch::TryGetChannelType, kChType); S("channel_unit", &Ch::TryGetChannelUnit); E("pixel_type", &Ch::TryGetPixelType, kPxType); I("component_bit_count", &Ch::TryGetComponentBitCount);
        E("acquisition_mode", &Ch::TryGetAcquisitionMode, kAcq); E("illumination_type", &Ch::TryGetIlluminationType, kIll); E("contrast_method", &Ch::TryGetContrastMethod, kCon); Sp("illumination_wavelength", &Ch::TryGetIlluminationWavelength); Sp("detection_wavelength", &Ch::TryGetDetectionWavelength);
        D("excitation_wavelength", &Ch::TryGetExcitationWavelength); D("emission_wavelength", &Ch::TryGetEmissionWavelength); D("effective_na", &Ch::TryGetEffectiveNA); S("dye_id", &Ch::TryGetDyeId); S("dye_database_id", &Ch::TryGetDyeDatabaseId); D("pinhole_size", &Ch::TryGetPinholeSize); D("pinhole_size_airy", &Ch::TryGetPinholeSizeAiry);
        E("pinhole_geometry", &Ch::TryGetPinholeGeometry, kPin); S("fluor", &Ch::TryGetFluor); D("nd_filter", &Ch::TryGetNDFilter); I("pocket_cell_setting", &Ch::TryGetPocketCellSetting);
        L::Rgb8Color col; if (c->TryGetColor(&col)) { char b[20]; snprintf(b, sizeof(b), "s:#%02x%02x%02x", col.r, col.g, col.b); f[p + "/color"] = b; }
        L::RangeOrSingleValue<uint64_t> e; if (c->TryGetExposureTime(&e)) f[p + "/exposure_time"] = "s:" + std::to_string(e.startOrSingleValue) + (e.singleValue ? "" : "-" + std::to_string(e.end));
        D("depth_of_focus", &Ch::TryGetDepthOfFocus); D("section_thickness", &Ch::TryGetSectionThickness); S("reflector", &Ch::TryGetReflector); S("condensor_contrast", &Ch::TryGetCondenserContrast); D("na_condensor", &Ch::TryGetNACondenser);
        if (f.size() == before) f[p] = "{}";
    }
    finish(f); return f;
}
static Flat pyramidJson(const L::PyramidStatistics& s)
{
    Flat f; string b = "/scenePyramidStatistics"; if (s.scenePyramidStatistics.empty()) f[b] = "{}";
    for (auto& e : s.scenePyramidStatistics) { string p = b + "/" + std::to_string(e.first); if (e.second.empty()) f[p] = "[]"; for (size_t i = 0; i < e.second.size(); ++i) { string q = p + "[" + std::to_string(i) + "]"; f[q + "/layerInfo/minificationFactor"] = num(e.second[i].layerInfo.minificationFactor); f[q + "/layerInfo/pyramidLayerNo"] = num(e.second[i].layerInfo.pyramidLayerNo); f[q + "/count"] = num(e.second[i].count); } }
    return f;
}
static string takeText(void* p) { if (!p) return string(); string s((const char*)p); libCZI_Free(p); return s; }

// ---- operations --------------------------------------------------------------------------------------------------------------
/// arms a fault of the caller's stream for the next call
struct Fault
{
    ExtP e; World& w;
    Fault(World& w, const std::vector<ExtP>& keeps) : w(w) { if (!keeps.empty() && w.r.chance(10)) { e = keeps[0]; e->fired = false; e->failKind = (int)w.r.below(2); e->failAt = (int64_t)(e->ops + w.r.below(w.r.chance(60) ? 1 : 6)); } }
    bool done() { if (!e) return false; e->failAt = -1; bool b = e->fired; e->fired = false; e.reset(); if (b) ev("stream-faults"); return b; }
    ~Fault() { done(); }
};
static int releaseOf(Type t, ObjectHandle h)
{
    switch (t)
    {
    case tReader: return libCZI_ReleaseReader(h); case tSubBlock: return libCZI_ReleaseSubBlock(h); case tIn: return libCZI_ReleaseInputStream(h); case tOut: return libCZI_ReleaseOutputStream(h); case tBitmap: return libCZI_ReleaseBitmap(h); case tMeta: return libCZI_ReleaseMetadataSegment(h);
    case tAtt: return libCZI_ReleaseAttachment(h); case tWriter: return libCZI_ReleaseWriter(h); case tAcc: return libCZI_ReleaseCreateSingleChannelTileAccessor(h); case tDoc: return libCZI_ReleaseCziDocumentInfo(h); case tDs: return libCZI_ReleaseDisplaySettings(h); default: return libCZI_ReleaseChannelDisplaySettings(h);
    }
}
/// a call which must not be subject to failing allocations
template <typename F> static int calm(const char* name, F&& f) { bool s = g_mayFail; g_mayFail = false; Outcome o; try { o = call(name, f); } catch (...) { g_mayFail = s; throw; } g_mayFail = s; return o.code; }
static void releaseAt(World& w, size_t i)
{
    Handle h = w.live[i]; w.note(string("release ") + kName[h.t]);
    if (h.t == tBitmap && h.o->locks > 0)
    {
        // must be refused, and leave the object alone
        VH_EQ(calm("libCZI_ReleaseBitmap", [&] { return releaseOf(h.t, h.h); }), (int)LibCZIApi_ErrorCode_LockUnlockSemanticViolated, "lock-semantic", "release of a locked bitmap"); ev("release-refused");
        BitmapInfoInterop bi; VH_EQ(calm("libCZI_BitmapGetInfo", [&] { return libCZI_BitmapGetInfo(h.h, &bi); }), 0, "lock-semantic", "a bitmap whose release was refused");
        while (h.o->locks > 0) { VH_EQ(calm("libCZI_BitmapUnlock", [&] { return libCZI_BitmapUnlock(h.h); }), 0, "lock-semantic", "Unlock"); --h.o->locks; h.o->bm->Unlock(); }
    }
    VH_EQ(calm("release", [&] { return releaseOf(h.t, h.h); }), 0, "release", kName[h.t]); w.live.erase(w.live.begin() + (ptrdiff_t)i); w.stale.push_back({ h.t, h.h }); if (w.stale.size() > 40) w.stale.erase(w.stale.begin()); ev("released");
    checkStreams(w);
    // the stream of the caller is closed as soon as nothing needs it any more
    for (auto& k : h.o->keeps) { bool needed = false; for (auto& l : w.live) for (auto& e : l.o->keeps) needed = needed || e == k; if (!needed) VH_EQ((int)k->closed, 1, "stream-life", "the stream of the caller is not closed although the last object using it (" << kName[h.t] << ") was released"); }
}
static void ensureFile(World& w) { if (w.fileWritten) return; FILE* f = fopen(w.path.c_str(), "wb"); if (!f) throw std::runtime_error("cannot create scratch file"); if (!w.bytes.empty() && fwrite(w.bytes.data(), 1, w.bytes.size(), f) != w.bytes.size()) throw std::runtime_error("scratch file"); fclose(f); w.fileWritten = true; }
static void opInput(World& w)
{
    Rng& r = w.r; ObjectHandle h = 0; int kind = (int)r.below(8); auto o = std::make_shared<Obj>(); o->in = std::make_shared<MemIn>(makeFile(w.bytes)); w.note("input stream " + std::to_string(kind));
    if (kind <= 3)
    {
        auto e = std::make_shared<Ext>(); e->f = makeFile(w.bytes); w.exts.push_back(e); Outcome c; { auto s = inStruct(e.get()); c = CALL(libCZI_CreateInputStreamFromExternal, &s, &h); memset((void*)&s, 0, sizeof(s)); }
        if (c.code != 0) { VH_CHECK(c.newFailed, "result-code", "CreateInputStreamFromExternal returned " << c.code); w.exts.pop_back(); VH_CHECK(e->closed <= 1, "stream-life", "closed twice after a failed creation"); return; }
        VH_EQ((int)e->closed, 0, "stream-life", "closed right after creation"); o->ext = e; o->keeps = { e }; w.add(tIn, h, o); return;
    }
    ensureFile(w); Outcome c; const char* fn = ""; bool ok = true;
    switch (kind)
    {
    case 4: fn = "CreateInputStreamFromFileUTF8"; c = CALL(libCZI_CreateInputStreamFromFileUTF8, w.path.c_str(), &h); break;
    case 5: { fn = "CreateInputStreamFromFileWide"; auto ws = W(w.path); c = CALL(libCZI_CreateInputStreamFromFileWide, ws.c_str(), &h); } break;
    case 6:
    {
        fn = "CreateInputStream"; string cls = r.pick({ string("c_runtime_file_inputstream"), string("pread_file_inputstream") }); const char* bag = r.pick({ (const char*)nullptr, "", "{}", "{\"CurlHttp_FollowLocation\":true}" }); int bad = r.chance(40) ? r.range(1, 4) : 0; ok = bad == 0; string id = w.path;
        if (bad == 1) cls = "no_such_stream"; if (bad == 2) bag = r.pick({ "{", "[1]", "{\"no_such_property\":1}", "{\"CurlHttp_FollowLocation\":7}" }); if (bad == 3) id += ".missing";
        if (bag && strstr(bag, "CurlHttp_") && bad != 2) { // known only if the properties of curl are there
            int n = 0; auto p = L::StreamsFactory::GetStreamPropertyBagPropertyInfo(&n); bool known = false; for (int i = 0; i < n; ++i) known = known || (p[i].property_name && string(p[i].property_name) == "CurlHttp_FollowLocation"); if (!known) ok = false; }
        if (bad == 4) c = CALL(libCZI_CreateInputStream, cls.c_str(), bag, nullptr, &h); else c = CALL(libCZI_CreateInputStream, cls.c_str(), bag, id.c_str(), &h);
    } break;
    default: fn = "CreateInputStreamFromFile (missing file)"; ok = false; { string p = w.path + ".missing"; auto ws = W(p); if (r.chance(50)) c = CALL(libCZI_CreateInputStreamFromFileUTF8, p.c_str(), &h); else c = CALL(libCZI_CreateInputStreamFromFileWide, ws.c_str(), &h); } break;
    }
    if (judge(fn, c, ok) && c.code == 0) w.add(tIn, h, o);
}
static void opReader(World& w)
{
    Rng& r = w.r; ObjectHandle h = 0; w.note("reader"); Outcome c = CALL(libCZI_CreateReader, &h); if (!judge("CreateReader", c, true) || c.code) return; auto o = std::make_shared<Obj>(); o->rd = L::CreateCZIReader(); w.add(tReader, h, o);
    if (r.chance(8)) return; // not opened
    Handle* in = w.any(tIn); if (!in) { opInput(w); in = w.any(tIn); if (!in) return; } Handle s = *in;
    ReaderOpenInfoInterop oi; memset((void*)&oi, 0, sizeof(oi)); oi.streamObject = s.h; w.note("open"); Fault f(w, s.o->keeps); c = CALL(libCZI_ReaderOpen, h, &oi); bool fault = f.done(); bool ok = twin([&] { o->rd->Open(s.o->in); });
    bool good = judge("ReaderOpen", c, ok, fault);
    if (c.code != 0 || !good)
    {
        if ((fault || c.newFailed) && c.code != 0 && ok) { // a second attempt
            w.note("open again"); int again = calm("libCZI_ReaderOpen", [&] { return libCZI_ReaderOpen(h, &oi); }); VH_EQ(again, 0, "retry", "ReaderOpen after a failed attempt"); ev("open-retried"); }
        else { for (size_t i = 0; i < w.live.size(); ++i) if (w.live[i].t == tReader && w.live[i].h == h) { // a reader which could not be opened; whether it holds the stream is not judged
            VH_EQ(calm("libCZI_ReleaseReader", [&] { return libCZI_ReleaseReader(h); }), 0, "release", "reader not opened"); w.live.erase(w.live.begin() + (ptrdiff_t)i); w.stale.push_back({ tReader, h }); break; } return; }
    }
    o->opened = true; o->keeps = s.o->keeps;
}
static void opReaderInfo(World& w)
{
    Handle* p = w.any(tReader); if (!p) return; Handle h = *p; Rng& r = w.r; auto& rd = h.o->rd; int k = (int)r.below(8); w.note("reader info " + std::to_string(k)); if (!h.o->opened && k == 6) k = 0;
    switch (k)
    {
    case 0: { FileHeaderInfoInterop g; memset(&g, 0xCC, sizeof(g)); L::FileHeaderInfo e; bool ok = twin([&] { e = rd->GetFileHeaderInfo(); }); if (judge("ReaderGetFileHeaderInfo", CALL(libCZI_ReaderGetFileHeaderInfo, h.h, &g), ok)) { VH_CHECK(memcmp(g.guid, &e.fileGuid, 16) == 0, "file-header", "GUID"); VH_EQ(g.majorVersion, e.majorVersion, "file-header", "major"); VH_EQ(g.minorVersion, e.minorVersion, "file-header", "minor"); } } break;
    case 1: { SubBlockStatisticsInterop g; memset(&g, 0xCC, sizeof(g)); L::SubBlockStatistics e; bool ok = twin([&] { e = rd->GetStatistics(); }); Outcome c = CALL(libCZI_ReaderGetStatisticsSimple, h.h, &g); if (judge("ReaderGetStatisticsSimple", c, ok) && c.code == 0) sameStats(g, e, "ReaderGetStatisticsSimple"); } break;
    case 2:
    {
        L::SubBlockStatistics e; bool ok = twin([&] { e = rd->GetStatistics(); }); int32_t room = r.range(0, 4); bool nul = r.chance(15); if (nul) room = 0; size_t n = sizeof(SubBlockStatisticsInteropEx) + (size_t)room * sizeof(BoundingBoxesInterop);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[n]); memset(buf.get(), 0xCC, n); auto g = (SubBlockStatisticsInteropEx*)buf.get(); int32_t cnt = room; Outcome c = CALL(libCZI_ReaderGetStatisticsEx, h.h, g, nul ? nullptr : &cnt); if (!judge("ReaderGetStatisticsEx", c, ok) || c.code) break;
        SubBlockStatisticsInterop s; s.sub_block_count = g->sub_block_count; s.min_m_index = g->min_m_index; s.max_m_index = g->max_m_index; s.bounding_box = g->bounding_box; s.bounding_box_layer0 = g->bounding_box_layer0; s.dim_bounds = g->dim_bounds; sameStats(s, e, "ReaderGetStatisticsEx");
        if (!nul) VH_EQ((size_t)cnt, e.sceneBoundingBoxes.size(), "statistics", "number of scenes"); VH_EQ((size_t)g->number_of_per_scenes_bounding_boxes, std::min<size_t>((size_t)room, e.sceneBoundingBoxes.size()), "statistics", "number of boxes returned");
        std::set<int> seen; for (int i = 0; i < g->number_of_per_scenes_bounding_boxes; ++i) { auto& b = g->per_scenes_bounding_boxes[i]; auto it = e.sceneBoundingBoxes.find(b.sceneIndex); VH_CHECK(it != e.sceneBoundingBoxes.end() && seen.insert(b.sceneIndex).second, "statistics", "scene " << b.sceneIndex); VH_CHECK(sameRect(b.bounding_box, it->second.boundingBox) && sameRect(b.bounding_box_layer0_only, it->second.boundingBoxLayer0), "statistics", "bounding boxes of scene " << b.sceneIndex); ev("scene-boxes"); }
    } break;
    case 3: { char* t = nullptr; L::PyramidStatistics e; bool ok = twin([&] { e = rd->GetPyramidStatistics(); }); Outcome c = CALL(libCZI_ReaderGetPyramidStatistics, h.h, &t); string s = takeText(t); if (judge("ReaderGetPyramidStatistics", c, ok) && !c.newFailed) sameJson(s.c_str(), pyramidJson(e), "ReaderGetPyramidStatistics"); } break;
    case 4: { int32_t n = -7; int e = -1; bool ok = twin([&] { e = rd->GetAttachmentCount(); }); if (judge("ReaderGetAttachmentCount", CALL(libCZI_ReaderGetAttachmentCount, h.h, &n), ok)) VH_EQ(n, e, "attachment-info", "count"); } break;
    case 5: { int i = r.chance(75) ? r.range(0, std::max(0, w.nAt - 1)) : r.pick({ -1, w.nAt, INT_MAX, INT_MIN }); AttachmentInfoInterop g; memset(&g, 0xCC, sizeof(g)); L::AttachmentInfo e; bool found = false; bool ok = twin([&] { found = rd->TryGetAttachmentInfo(i, &e); }); Outcome c = CALL(libCZI_ReaderGetAttachmentInfoFromDirectory, h.h, i, &g); if (judge("ReaderGetAttachmentInfoFromDirectory", c, ok && found) && c.code == 0) sameAttInfo(g, e, "ReaderGetAttachmentInfoFromDirectory"); else if (ok && !found && !c.newFailed) VH_EQ(c.code, (int)LibCZIApi_ErrorCode_IndexOutOfRange, "result-code", "attachment index " << i); } break;
    default: { int i = r.chance(75) ? r.range(0, std::max(0, w.nSb - 1)) : r.pick({ -1, w.nSb, INT_MAX, INT_MIN }); SubBlockInfoInterop g; memset(&g, 0xCC, sizeof(g)); L::SubBlockInfo e; bool found = false; bool ok = twin([&] { found = rd->TryGetSubBlockInfo(i, &e); }); Outcome c = CALL(libCZI_TryGetSubBlockInfoForIndex, h.h, i, &g); if (judge("TryGetSubBlockInfoForIndex", c, ok && found) && c.code == 0) sameInfo(g, e, "TryGetSubBlockInfoForIndex"); else if (ok && !found && !c.newFailed) VH_EQ(c.code, (int)LibCZIApi_ErrorCode_IndexOutOfRange, "result-code", "sub-block index " << i); } break;
    }
}
static void opRead(World& w)
{
    Handle* p = w.any(tReader); if (!p) return; Handle h = *p; Rng& r = w.r; auto& rd = h.o->rd; int k = (int)r.below(4); ObjectHandle g = (ObjectHandle)0x55; auto o = std::make_shared<Obj>();
    if (k <= 1)
    {
        int i = r.chance(88) ? r.range(0, std::max(0, w.nSb - 1)) : r.pick({ -1, w.nSb, INT_MAX, INT_MIN }); w.note("read sub-block " + std::to_string(i)); Fault f(w, h.o->keeps); Outcome c = CALL(libCZI_ReaderReadSubBlock, h.h, i, &g); bool fault = f.done(); bool ok = twin([&] { o->sb = rd->ReadSubBlock(i); });
        if (!judge("ReaderReadSubBlock", c, ok, fault) || c.code) { if ((fault || c.newFailed) && ok && c.code) { ObjectHandle g2 = 0; VH_EQ(calm("libCZI_ReaderReadSubBlock", [&] { return libCZI_ReaderReadSubBlock(h.h, i, &g2); }), 0, "retry", "ReadSubBlock after a failed attempt"); if (g2) libCZI_ReleaseSubBlock(g2); } return; }
        if (!o->sb) { VH_CHECK(g == kInvalidObjectHandle, "handle", "ReadSubBlock gave a handle for the invalid index " << i); return; } w.add(tSubBlock, g, o);
    }
    else if (k == 2)
    {
        int i = r.chance(88) ? r.range(0, std::max(0, w.nAt - 1)) : r.pick({ -1, w.nAt, INT_MAX, INT_MIN }); w.note("read attachment " + std::to_string(i)); Fault f(w, h.o->keeps); Outcome c = CALL(libCZI_ReaderReadAttachment, h.h, i, &g); bool fault = f.done(); bool ok = twin([&] { o->at = rd->ReadAttachment(i); });
        if (!judge("ReaderReadAttachment", c, ok, fault) || c.code) return; if (!o->at) { VH_CHECK(g == kInvalidObjectHandle, "handle", "ReadAttachment gave a handle for the invalid index " << i); return; } w.add(tAtt, g, o);
    }
    else
    {
        w.note("read metadata"); Fault f(w, h.o->keeps); Outcome c = CALL(libCZI_ReaderGetMetadataSegment, h.h, &g); bool fault = f.done(); bool ok = twin([&] { o->md = rd->ReadMetadataSegment(); }) && o->md; if (!judge("ReaderGetMetadataSegment", c, ok, fault) || c.code) return; w.add(tMeta, g, o);
    }
}
template <typename F> static void rawData(World& w, const Bytes& e, const char* fn, F&& get)
{
    Rng& r = w.r; uint64_t room = r.chance(30) ? e.size() : r.chance(50) ? r.below(e.size() + 1) : e.size() + r.below(40); uint64_t sz = room; std::unique_ptr<uint8_t[]> p(new uint8_t[(size_t)room]); memset(p.get(), 0xA5, (size_t)room); bool nul = r.chance(20);
    Outcome c = call(fn, [&] { return get(&sz, nul ? nullptr : p.get()); }); if (!judge(fn, c, true) || c.code) return; VH_EQ(sz, (uint64_t)e.size(), "raw-data", fn << ": size");
    if (!nul) { size_t n = (size_t)std::min<uint64_t>(room, e.size()); VH_CHECK(n == 0 || memcmp(p.get(), e.data(), n) == 0, "raw-data", fn << ": content"); for (size_t i = n; i < room; ++i) VH_CHECK(p[i] == 0xA5, "raw-data", fn << ": bytes behind the data were written"); ev("raw-bytes", n); }
}
static void opSubBlock(World& w)
{
    Handle* p = w.any(tSubBlock); if (!p) return; Handle h = *p; Rng& r = w.r; int k = (int)r.below(6); w.note("sub-block " + std::to_string(k));
    if (k == 0) { SubBlockInfoInterop g; memset(&g, 0xCC, sizeof(g)); if (judge("SubBlockGetInfo", CALL(libCZI_SubBlockGetInfo, h.h, &g), true)) sameInfo(g, h.o->sb->GetSubBlockInfo(), "SubBlockGetInfo"); }
    else if (k == 1) { int t = r.pick({ 2, 3, -1, INT_MAX }); uint64_t sz = 0; VH_CHECK(CALL(libCZI_SubBlockGetRawData, h.h, t, &sz, nullptr).code != 0, "result-code", "SubBlockGetRawData accepts type " << t); }
    else if (k <= 3) { int t = k - 2; rawData(w, blk(h.o->sb.get(), t == 0 ? L::ISubBlock::Data : L::ISubBlock::Metadata), t == 0 ? "SubBlockGetRawData(data)" : "SubBlockGetRawData(metadata)", [&](uint64_t* s, void* d) { return libCZI_SubBlockGetRawData(h.h, t, s, d); }); }
    else
    {
        ObjectHandle b = 0; Outcome c = CALL(libCZI_SubBlockCreateBitmap, h.h, &b); auto o = std::make_shared<Obj>(); bool ok = twin([&] { o->bm = h.o->sb->CreateBitmap(); }) && o->bm; if (!judge("SubBlockCreateBitmap", c, ok) || c.code) return; w.add(tBitmap, b, o); Handle n = w.live.back(); samePixels(w, n, "SubBlockCreateBitmap");
    }
}
static void opAttachment(World& w)
{
    Handle* p = w.any(tAtt); if (!p) return; Handle h = *p; w.note("attachment");
    if (w.r.chance(50)) { AttachmentInfoInterop g; memset(&g, 0xCC, sizeof(g)); Outcome c = CALL(libCZI_AttachmentGetInfo, h.h, &g); if (judge("AttachmentGetInfo", c, true) && c.code == 0) sameAttInfo(g, h.o->at->GetAttachmentInfo(), "AttachmentGetInfo"); }
    else rawData(w, fromAttachment(h.o->at.get()).data, "AttachmentGetRawData", [&](uint64_t* s, void* d) { return libCZI_AttachmentGetRawData(h.h, s, d); });
}
static void opMetadata(World& w)
{
    Handle* p = w.any(tMeta); if (!p) return; Handle h = *p; w.note("metadata");
    if (w.r.chance(40))
    {
        MetadataAsXmlInterop g; memset(&g, 0, sizeof(g)); Outcome c = CALL(libCZI_MetadataSegmentGetMetadataAsXml, h.h, &g); const void* q = nullptr; size_t n = 0; h.o->md->DangerousGetRawData(L::IMetadataSegment::XmlMetadata, q, n); bool ok = true; (void)ok;
        size_t n2 = 0; bool has = twin([&] { ok = h.o->md->GetRawData(L::IMetadataSegment::XmlMetadata, &n2) != nullptr; }) && ok; if (!has && c.code == 0) has = true; // (no data at all: an error or an empty text)
        if (!judge("MetadataSegmentGetMetadataAsXml", c, has) || c.code) return; VH_EQ(g.size, (uint64_t)n, "metadata", "size of the XML"); VH_CHECK(n == 0 || memcmp(g.data, q, n) == 0, "metadata", "XML differs"); libCZI_Free(g.data); ev("metadata-bytes", n);
    }
    else
    {
        ObjectHandle d = 0; Outcome c = CALL(libCZI_MetadataSegmentGetCziDocumentInfo, h.h, &d); auto o = std::make_shared<Obj>(); shared_ptr<L::ICziMetadata> m; bool ok = twin([&] { m = h.o->md->CreateMetaFromMetadataSegment(); if (m) o->doc = m->GetDocumentInfo(); }) && o->doc; if (!judge("MetadataSegmentGetCziDocumentInfo", c, ok) || c.code) return; w.add(tDoc, d, o);
    }
}
static void opDocument(World& w)
{
    Handle* p = w.any(tDoc); if (!p) return; Handle h = *p; Rng& r = w.r; auto& d = h.o->doc; int k = (int)r.below(12); if (k >= 9) k = 3; w.note("document info " + std::to_string(k));
    if (k == 0) { void* t = nullptr; Flat e; bool ok = twin([&] { e = generalJson(d->GetGeneralDocumentInfo()); }); Outcome c = CALL(libCZI_CziDocumentInfoGetGeneralDocumentInfo, h.h, &t); string s = takeText(t); if (judge("CziDocumentInfoGetGeneralDocumentInfo", c, ok) && !c.newFailed) sameJson(s.c_str(), e, "CziDocumentInfoGetGeneralDocumentInfo"); }
    else if (k == 1)
    {
        ScalingInfoInterop g; memset(&g, 0xCC, sizeof(g)); L::ScalingInfo e; bool ok = twin([&] { e = d->GetScalingInfo(); }); Outcome c = CALL(libCZI_CziDocumentInfoGetScalingInfo, h.h, &g); if (!judge("CziDocumentInfoGetScalingInfo", c, ok) || c.newFailed) return;
        auto same = [](double a, bool valid, double b) { return valid ? a == b : std::isnan(a); }; VH_CHECK(same(g.scale_x, e.IsScaleXValid(), e.scaleX) && same(g.scale_y, e.IsScaleYValid(), e.scaleY) && same(g.scale_z, e.IsScaleZValid(), e.scaleZ), "scaling", g.scale_x << "," << g.scale_y << "," << g.scale_z << " instead of " << e.scaleX << "," << e.scaleY << "," << e.scaleZ); ev("scaling-compared");
    }
    else if (k == 2)
    {
        std::vector<DimensionIndex> e; bool ok = twin([&] { e = d->GetDimensions(); }); uint32_t n = (uint32_t)r.range(0, 12); std::unique_ptr<uint32_t[]> a(new uint32_t[n ? n : 1]); for (uint32_t i = 0; i < n; ++i) a[i] = 77; Outcome c = CALL(libCZI_CziDocumentInfoGetAvailableDimension, h.h, n, a.get());
        if (!judge("CziDocumentInfoGetAvailableDimension", c, ok && n >= e.size() + 1) || c.newFailed) return; std::multiset<uint32_t> x, y; for (auto q : e) x.insert((uint32_t)q); for (size_t i = 0; i < e.size(); ++i) y.insert(a[i]); VH_CHECK(x == y, "dimensions", "available dimensions differ"); VH_EQ(a[e.size()], (uint32_t)kDimensionInvalid, "dimensions", "terminator"); for (size_t i = e.size() + 1; i < n; ++i) VH_EQ(a[i], 77u, "dimensions", "written behind the terminator"); ev("dimensions-compared");
    }
    else if (k == 3)
    {
        ObjectHandle g = 0; auto o = std::make_shared<Obj>(); bool ok = twin([&] { o->ds = d->GetDisplaySettings(); }) && o->ds; Outcome c = CALL(libCZI_CziDocumentInfoGetDisplaySettings, h.h, &g); if (!judge("CziDocumentInfoGetDisplaySettings", c, ok) || c.code) return; w.add(tDs, g, o);
    }
    else
    {
        uint32_t dim = k == 8 ? r.pick({ 0u, 4u, 5u, 6u, 7u, 8u, 9u, 10u, 4294967295u }) : k == 4 ? 1u : k == 5 ? 3u : 2u; Flat e; bool ok = false; bool t = twin([&] { if (dim == 1) { auto z = d->GetDimensionZInfo(); if (z) { e = zJson(*z); ok = true; } } else if (dim == 3) { auto z = d->GetDimensionTInfo(); if (z) { e = tJson(*z); ok = true; } } else if (dim == 2) { auto z = d->GetDimensionChannelsInfo(); if (z) { e = cJson(*z); ok = true; } } });
        void* x = nullptr; Outcome c = CALL(libCZI_CziDocumentInfoGetDimensionInfo, h.h, dim, &x); string s = takeText(c.code == 0 ? x : nullptr); if (judge("CziDocumentInfoGetDimensionInfo", c, t && ok) && !c.newFailed) sameJson(s.c_str(), e, dim == 1 ? "Z info" : dim == 2 ? "channel info" : "T info");
    }
}
struct LutKeep { std::vector<void*> p; ~LutKeep() { for (auto q : p) libCZI_Free(q); } };
static void opDisplay(World& w)
{
    Handle* p = w.any(tDs); if (!p) return; Handle h = *p; Rng& r = w.r; int ch = r.chance(80) ? r.range(0, 3) : r.pick({ -1, 100, INT_MAX, INT_MIN }); shared_ptr<L::IChannelDisplaySetting> cs; bool ok = twin([&] { cs = h.o->ds->GetChannelDisplaySettings(ch); }) && cs; w.note("display settings, channel " + std::to_string(ch));
    if (r.chance(35)) { ObjectHandle g = 0; Outcome c = CALL(libCZI_DisplaySettingsGetChannelDisplaySettings, h.h, ch, &g); if (!judge("DisplaySettingsGetChannelDisplaySettings", c, ok) || c.code) return; w.add(tCh, g, std::make_shared<Obj>()); return; }
    bool wide = r.chance(30); CompositionChannelInfoInterop g; memset((void*)&g, 0xCC, sizeof(g)); Outcome c = CALL(libCZI_CompositorFillOutCompositionChannelInfoInterop, h.h, ch, wide, &g); if (!judge("CompositorFillOutCompositionChannelInfoInterop", c, ok) || c.code) return; LutKeep lk; if (g.look_up_table_element_count > 0) lk.p.push_back((void*)g.ptr_look_up_table);
    if (!cs->GetIsEnabled()) { VH_CHECK(g.weight == 0, "channel-info", "weight of a disabled channel"); ev("fill-out-disabled"); return; }
    float b, wh; cs->GetBlackWhitePoint(&b, &wh); VH_CHECK(g.weight == cs->GetWeight() && g.black_point == b && g.white_point == wh, "channel-info", "weight/black/white point"); L::Rgb8Color col; bool tint = cs->TryGetTintingColorRgb8(&col); VH_EQ(g.enable_tinting != 0, tint, "channel-info", "tinting"); if (tint) VH_CHECK(g.tinting_color_r == col.r && g.tinting_color_g == col.g && g.tinting_color_b == col.b, "channel-info", "tinting color");
    int n = wide ? 65536 : 256; std::vector<uint8_t> lut; auto m = cs->GetGradationCurveMode(); if (m == L::IDisplaySettings::GradationCurveMode::Gamma) { float ga; cs->TryGetGamma(&ga); lut = L::Utils::Create8BitLookUpTableFromGamma(n, b, wh, ga); } else if (m == L::IDisplaySettings::GradationCurveMode::Spline) { std::vector<L::IDisplaySettings::SplineData> sd; cs->TryGetSplineData(&sd); lut = L::Utils::Create8BitLookUpTableFromSplines(n, b, wh, sd); }
    VH_EQ((size_t)g.look_up_table_element_count, lut.size(), "channel-info", "size of the look-up table"); if (!lut.empty()) VH_CHECK(memcmp(lut.data(), g.ptr_look_up_table, lut.size()) == 0, "channel-info", "look-up table differs"); ev(lut.empty() ? "fill-out-linear" : "fill-out-lut");
}
static void opAccessor(World& w)
{
    Rng& r = w.r; Handle* a = w.any(tAcc);
    if (!a || r.chance(15))
    {
        Handle* p = w.any(tReader); if (!p) return; Handle h = *p; ObjectHandle g = 0; w.note("create accessor"); auto o = std::make_shared<Obj>(); bool ok = twin([&] { o->acc = h.o->rd->CreateSingleChannelScalingTileAccessor(); }) && o->acc; Outcome c = CALL(libCZI_CreateSingleChannelTileAccessor, h.h, &g); if (!judge("CreateSingleChannelTileAccessor", c, ok) || c.code) return; o->opened = h.o->opened; o->keeps = h.o->keeps; o->rd = h.o->rd; w.add(tAcc, g, o); return;
    }
    Handle h = *a; if (!h.o->opened) return; L::IntRect roi = w.tiled ? randomRoi(r, w.tiles) : L::IntRect{ r.range(-1000, 1000), r.range(-1000, 1000), r.range(1, 60), r.range(1, 60) }; float zoom = r.chance(40) ? 1.0f : (float)(0.05 + r.unit() * 0.95); IntRectInterop ri{ roi.x, roi.y, roi.w, roi.h };
    if (r.chance(25)) { IntSizeInterop g{ -1, -1 }; L::IntSize e{}; bool ok = twin([&] { e = h.o->acc->CalcSize(roi, zoom); }); w.note("calc size"); if (judge("SingleChannelTileAccessorCalcSize", CALL(libCZI_SingleChannelTileAccessorCalcSize, h.h, &ri, zoom, &g), ok)) { VH_EQ((uint32_t)g.w, e.w, "accessor", "width"); VH_EQ((uint32_t)g.h, e.h, "accessor", "height"); } return; }
    L::CDimCoordinate co; if (w.tiled) co = toCoord(randomPlane(r, w.tiles)); else { co.Set(DimensionIndex::C, r.range(0, 2)); if (r.chance(50)) co.Set(DimensionIndex::T, r.range(0, 2)); } CoordinateInterop ci = coordOf(&co); for (int i = 0; i < 9; ++i) if (ci.value[i] == 0 && r.chance(0)) ci.value[i] = 0;
    int used = 0; for (int i = 0; i < 9; ++i) used += (ci.dimensions_valid >> i) & 1; for (int i = used; i < 9; ++i) ci.value[i] = 12345; // not to be looked at
    L::ISingleChannelScalingTileAccessor::Options op; op.Clear(); AccessorOptionsInterop ao; memset((void*)&ao, 0, sizeof(ao)); bool nul = r.chance(8); RgbFloatColor bc; Back back = randomBack(r, bc); ao.back_ground_color_r = bc.r; ao.back_ground_color_g = bc.g; ao.back_ground_color_b = bc.b; ao.sort_by_m = r.chance(80); ao.use_visibility_check_optimization = r.chance(50); string extra = r.pick(std::vector<string>{ "", "{}", "{\"mask_aware\":true}", "{\"mask_aware\":false}", "{\"other\":[1,{\"mask_aware\":true}]}" }); ao.additional_parameters = r.chance(20) ? nullptr : extra.c_str();
    if (!nul) { op.backGroundColor = bc; op.sortByM = ao.sort_by_m; op.useVisibilityCheckOptimization = ao.use_visibility_check_optimization; if (ao.additional_parameters && extra == "{\"mask_aware\":true}") op.maskAware = true; } else back.set = false;
    w.note("composition"); auto o = std::make_shared<Obj>(); bool ok = twin([&] { o->bm = h.o->acc->Get(roi, &co, zoom, &op); }) && o->bm; ObjectHandle g = 0; Fault f(w, h.o->keeps); Outcome c = CALL(libCZI_SingleChannelTileAccessorGet, h.h, &ci, &ri, zoom, nul ? nullptr : &ao, &g); bool fault = f.done(); if (!judge("SingleChannelTileAccessorGet", c, ok, fault) || c.code) return;
    o->pixelsKnown = back.set; w.add(tBitmap, g, o); Handle n = w.live.back(); samePixels(w, n, "SingleChannelTileAccessorGet"); ev(back.set ? "composition" : "composition-no-background");
}
static void opCompositor(World& w)
{
    Rng& r = w.r; std::vector<Handle> bs; for (auto& l : w.live) if (l.t == tBitmap && l.o->pixelsKnown && l.o->bm->GetWidth() > 0 && l.o->bm->GetHeight() > 0) bs.push_back(l); if (bs.empty()) return; Handle first = bs[(size_t)r.below(bs.size())]; std::vector<Handle> use{ first }; for (auto& b : bs) if (b.o->bm->GetWidth() == first.o->bm->GetWidth() && b.o->bm->GetHeight() == first.o->bm->GetHeight() && use.size() < 4 && r.chance(60)) use.push_back(b); if (r.chance(50)) use.push_back(first);
    std::vector<CompositionChannelInfoInterop> ci(use.size()); std::vector<L::Compositors::ChannelInfo> ce(use.size()); std::vector<ObjectHandle> hs; std::vector<L::IBitmapData*> bm; std::vector<std::unique_ptr<uint8_t[]>> luts;
    for (size_t i = 0; i < use.size(); ++i)
    {
        auto& g = ci[i]; memset((void*)&g, 0, sizeof(g)); auto& e = ce[i]; e.Clear(); hs.push_back(use[i].h); bm.push_back(use[i].o->bm.get()); g.weight = e.weight = (float)r.unit(); g.enable_tinting = e.enableTinting = r.chance(60); g.tinting_color_r = e.tinting.color.r = (uint8_t)r.next(); g.tinting_color_g = e.tinting.color.g = (uint8_t)r.next(); g.tinting_color_b = e.tinting.color.b = (uint8_t)r.next(); g.black_point = e.blackPoint = (float)(r.unit() * 0.4); g.white_point = e.whitePoint = (float)(0.5 + r.unit() * 0.5);
        int pt = (int)use[i].o->bm->GetPixelType(); int n = pt == 0 || pt == 3 ? 256 : pt == 1 || pt == 4 ? 65536 : 0; if (n && r.chance(40)) { luts.emplace_back(new uint8_t[(size_t)n]); Bytes b = r.bytes((size_t)n); memcpy(luts.back().get(), b.data(), (size_t)n); g.look_up_table_element_count = e.lookUpTableElementCount = n; g.ptr_look_up_table = e.ptrLookUpTable = luts.back().get(); }
    }
    w.note("multi-channel composition of " + std::to_string(use.size())); auto o = std::make_shared<Obj>(); bool ok = twin([&] { o->bm = L::Compositors::ComposeMultiChannel_Bgr24((int)use.size(), bm.data(), ce.data()); }) && o->bm; ObjectHandle g = 0; Outcome c = CALL(libCZI_CompositorDoMultiChannelComposition, (int32_t)use.size(), hs.data(), ci.data(), &g);
    if (judge("CompositorDoMultiChannelComposition", c, ok) && c.code == 0) { w.add(tBitmap, g, o); Handle n = w.live.back(); samePixels(w, n, "CompositorDoMultiChannelComposition"); ev("multi-channel"); }
    if (r.chance(20)) { int32_t n = r.pick({ 0, -1, INT_MIN }); ObjectHandle x = 0; VH_CHECK(CALL(libCZI_CompositorDoMultiChannelComposition, n, hs.data(), ci.data(), &x).code != 0, "result-code", "CompositorDoMultiChannelComposition with " << n << " channels"); }
}
static void opBitmap(World& w)
{
    Handle* p = w.any(tBitmap); if (!p) return; Handle h = *p; Rng& r = w.r; auto& b = h.o->bm; uint32_t W0 = b->GetWidth(), H0 = b->GetHeight(); int pt = (int)b->GetPixelType(); size_t line = (size_t)W0 * bpp(pt); int k = (int)r.below(6); w.note("bitmap " + std::to_string(k)); bool sv = g_mayFail; g_mayFail = false; struct Re { bool v; ~Re() { g_mayFail = v; } } re{ sv };
    switch (k)
    {
    case 0: samePixels(w, h, "BitmapCopyTo"); break;
    case 1: case 2:
    {
        BitmapLockInfoInterop li; memset((void*)&li, 0xCC, sizeof(li)); VH_EQ(CALL(libCZI_BitmapLock, h.h, &li).code, 0, "bitmap", "Lock"); VH_CHECK(H0 == 0 || W0 == 0 || (li.ptrDataRoi && li.stride >= line && li.size >= (uint64_t)li.stride * (H0 - 1) + line), "bitmap", "lock info: stride " << li.stride << ", size " << li.size << " for " << W0 << "x" << H0); auto te = b->Lock(); h.o->locks++;
        if (h.o->pixelsKnown) { for (uint32_t y = 0; y < H0; ++y) if (line) VH_CHECK(memcmp((uint8_t*)li.ptrDataRoi + (size_t)y * li.stride, (uint8_t*)te.ptrDataRoi + (size_t)y * te.stride, line) == 0, "pixels", "line " << y << " of the locked bitmap"); }
        if (r.chance(50)) { for (uint32_t y = 0; y < H0; ++y) { Bytes x = r.bytes(line); if (pt == 2 || pt == 8) for (size_t i = 0; i + 4 <= x.size(); i += 4) { float v = (float)r.range(-1000, 1000); memcpy(&x[i], &v, 4); } if (line) { memcpy((uint8_t*)li.ptrDataRoi + (size_t)y * li.stride, x.data(), line); memcpy((uint8_t*)te.ptrDataRoi + (size_t)y * te.stride, x.data(), line); } } h.o->pixelsKnown = true; ev("bitmap-written"); }
        ev("bitmap-locked");
    } break;
    case 3:
    {
        int c = CALL(libCZI_BitmapUnlock, h.h).code; if (h.o->locks == 0) { VH_EQ(c, (int)LibCZIApi_ErrorCode_LockUnlockSemanticViolated, "lock-semantic", "unbalanced Unlock"); ev("unlock-refused"); } else { VH_EQ(c, 0, "lock-semantic", "Unlock"); h.o->locks--; b->Unlock(); }
    } break;
    case 4: // wrong parameters of CopyTo: refused, nothing written
    {
        size_t n = ((size_t)H0 + 2) * (line + 64) + 64; std::unique_ptr<uint8_t[]> buf(new uint8_t[n]); memset(buf.get(), 0xA5, n); uint32_t ww = W0, hh = H0, st = (uint32_t)line; int tp = pt; switch (r.below(4)) { case 0: ww += r.pick({ 1u, (uint32_t)-1 }); break; case 1: hh += r.pick({ 1u, (uint32_t)-1 }); break; case 2: tp = r.pick({ 0, 1, 2, 3, 4, 9, 255, -1 }); if (tp == pt) tp = 255; break; default: if (line == 0) return; st = (uint32_t)r.below(line); break; }
        VH_CHECK(CALL(libCZI_BitmapCopyTo, h.h, ww, hh, tp, st, buf.get()).code != 0, "result-code", "BitmapCopyTo accepts " << ww << "x" << hh << " type " << tp << " stride " << st << " for " << W0 << "x" << H0 << " type " << pt); for (size_t i = 0; i < n; ++i) VH_CHECK(buf[i] == 0xA5, "bitmap", "BitmapCopyTo wrote although it failed");
    } break;
    default: for (size_t i = 0; i < w.live.size(); ++i) if (w.live[i].h == h.h) { releaseAt(w, i); break; } break;
    }
}
static void opMisc(World& w)
{
    Rng& r = w.r; w.note("misc");
    switch (r.below(5))
    {
    case 0: { LibCZIVersionInfoInterop v; memset(&v, 0xCC, sizeof(v)); int a, b, c, d; L::GetLibCZIVersion(&a, &b, &c, &d); VH_EQ(CALL(libCZI_GetLibCZIVersionInfo, &v).code, 0, "version", "version"); VH_CHECK(v.major == a && v.minor == b && v.patch == c && v.tweak == d, "version", "version differs"); } break;
    case 1: { LibCZIBuildInformationInterop v; memset((void*)&v, 0, sizeof(v)); Outcome c = CALL(libCZI_GetLibCZIBuildInformation, &v); string a = takeText(v.compilerIdentification), b = takeText(v.repositoryUrl), d = takeText(v.repositoryBranch), e = takeText(v.repositoryTag); if (judge("GetLibCZIBuildInformation", c, true) && !c.newFailed) { L::BuildInformation i; L::GetLibCZIBuildInformation(i); VH_CHECK(a == i.compilerIdentification && b == i.repositoryUrl && d == i.repositoryBranch && e == i.repositoryTag, "version", "build information differs"); } } break;
    case 2:
    {
        int32_t n = -1; VH_EQ(CALL(libCZI_GetStreamClassesCount, &n).code, 0, "stream-classes", "count"); VH_EQ(n, L::StreamsFactory::GetStreamClassesCount(), "stream-classes", "count"); int i = r.range(-1, n + 1); L::StreamsFactory::StreamClassInfo e; bool ok = L::StreamsFactory::GetStreamInfoForClass(i, e); InputStreamClassInfoInterop g; memset((void*)&g, 0, sizeof(g)); Outcome c = CALL(libCZI_GetStreamClassInfo, i, &g); string a = takeText(g.name), b = takeText(g.description); if (judge("GetStreamClassInfo", c, ok) && !c.newFailed) VH_CHECK(a == e.class_name && b == e.short_description, "stream-classes", "class " << i);
    } break;
    case 3: { void* p = (void*)8; uint64_t n = r.chance(25) ? 0 : (uint64_t)r.range(1, 5000); int c = CALL(libCZI_AllocateMemory, n, &p).code; VH_EQ(c == 0, n != 0, "memory", "AllocateMemory(" << n << ")"); if (c == 0) { memset(p, 1, (size_t)n); libCZI_Free(p); } } break;
    default: { void* p = (void*)8; int c = CALL(libCZI_AllocateMemory, r.pick({ UINT64_MAX, UINT64_MAX / 2, UINT64_MAX - 100 }), &p).code; VH_CHECK(c != 0, "memory", "an absurd allocation succeeded"); libCZI_Free(nullptr); } break;
    }
}

// ---- writing -------------------------------------------------------------------------------------------------------------------
struct SbArg { Sb s; Bytes buf; uint32_t stride = 0; uint32_t size = 0; bool null = false; };
static AddSubBlockInfoInterop sbInterop(const SbArg& a, const uint8_t* data, const uint8_t* md, const uint8_t* att)
{
    AddSubBlockInfoInterop i; memset((void*)&i, 0xCC, sizeof(i)); const Sb& s = a.s; auto c = s.dimCoord(); i.coordinate = coordOf(&c); int n = 0; for (int k = 0; k < 9; ++k) n += (i.coordinate.dimensions_valid >> k) & 1; for (int k = n; k < 9; ++k) i.coordinate.value[k] = -9999;
    i.m_index_valid = s.mValid; i.m_index = s.mValid ? s.m : 4711; i.x = s.x; i.y = s.y; i.logical_width = s.w; i.logical_height = s.h; i.physical_width = s.pw; i.physical_height = s.ph; i.pixel_type = s.pt; i.compression_mode_raw = s.comp;
    i.size_data = a.size; i.data = a.null ? nullptr : data; i.stride = a.stride; i.size_metadata = (uint32_t)s.md.size(); i.metadata = s.md.empty() ? nullptr : md; i.size_attachment = (uint32_t)s.att.size(); i.attachment = s.att.empty() ? nullptr : att; return i;
}
static string guidText(Rng& r, const L::GUID& g)
{
    char b[80]; snprintf(b, sizeof(b), "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", g.Data1, g.Data2, g.Data3, g.Data4[0], g.Data4[1], g.Data4[2], g.Data4[3], g.Data4[4], g.Data4[5], g.Data4[6], g.Data4[7]); string s = b; if (r.chance(50)) for (auto& c : s) c = (char)toupper(c); if (r.chance(40)) s = "{" + s + "}"; if (r.chance(15)) s = " " + s + "  "; return s;
}
static bool slurp(const string& p, Bytes& b) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; b.clear(); uint8_t buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof(buf), f)) > 0) b.insert(b.end(), buf, buf + n); fclose(f); return true; }
static void opWriter(World& w)
{
    Rng& r = w.r; static int serial = 0; string path = scratch("_out" + std::to_string(serial++ % 4) + ".czi"); w.note("writer session"); struct Rm { string p; ~Rm() { unlink(p.c_str()); } } rm{ path };
    // the stream
    ExtP e; ObjectHandle hs = 0; Outcome c; bool fault = false, tainted = false; bool ext = r.chance(70);
    if (ext)
    {
        e = std::make_shared<Ext>(); e->f = makeFile(); w.exts.push_back(e); { auto s = outStruct(e.get()); c = CALL(libCZI_CreateOutputStreamFromExternal, &s, &hs); memset((void*)&s, 0, sizeof(s)); }
        if (c.code) { VH_CHECK(c.newFailed, "result-code", "CreateOutputStreamFromExternal returned " << c.code); w.exts.pop_back(); return; }
        if (r.chance(15)) { e->failAt = r.range(0, 40); e->failKind = (int)r.below(3); fault = true; }
    }
    else
    {
        bool exists = r.chance(40), overwrite = r.chance(60); Bytes old; if (exists) { old = r.bytes((size_t)r.range(1, 5000)); FILE* f = fopen(path.c_str(), "wb"); if (!f || fwrite(old.data(), 1, old.size(), f) != old.size()) throw std::runtime_error("scratch file"); fclose(f); }
        auto ws = W(path); bool wide = r.chance(50); if (wide) c = CALL(libCZI_CreateOutputStreamForFileWide, ws.c_str(), overwrite, &hs); else c = CALL(libCZI_CreateOutputStreamForFileUTF8, path.c_str(), overwrite, &hs);
        if (exists && !overwrite) { VH_CHECK(c.code != 0, "overwrite", "an output stream for an existing file was created although it is not to be overwritten"); Bytes now; VH_CHECK(slurp(path, now) && now == old, "overwrite", "the existing file was changed"); ev("overwrite-refused"); return; }
        if (!judge("CreateOutputStreamForFile", c, true) || c.code) return;
    }
    // the writer
    struct Guard { ObjectHandle& hs; ObjectHandle hw = 0; ~Guard() { if (hw) libCZI_ReleaseWriter(hw); if (hs) libCZI_ReleaseOutputStream(hs); } } g{ hs }; shared_ptr<L::ICziWriter> tw; auto tf = makeFile(); bool dup = false;
    int on = (int)r.below(5); const char* opt = on == 0 ? nullptr : on == 1 ? "{}" : on == 2 ? "{\"allow_duplicate_subblocks\":true}" : on == 3 ? "{\"allow_duplicate_subblocks\":false, \"unknown\":[1]}" : ""; dup = on == 2;
    c = CALL(libCZI_CreateWriter, &g.hw, opt); if (!judge("CreateWriter", c, true) || c.code) return; { L::CZIWriterOptions wo; wo.allow_duplicate_subblocks = dup; tw = L::CreateCZIWriter(&wo); }
    Doc want; WriteOpts po; bool any = false, guid = r.chance(65); std::ostringstream js; js << "{"; auto add = [&](const string& k, const string& v) { js << (any ? "," : "") << "\"" << k << "\":" << v; any = true; };
    if (guid) { want.guid = randomGuid(r); add("file_guid", "\"" + guidText(r, want.guid) + "\""); } if (r.chance(35)) { po.resAt = r.range(0, 2000); add("reserved_size_attachments_directory", std::to_string(po.resAt)); } if (r.chance(35)) { po.resSb = r.range(0, 6000); add("reserved_size_subblock_directory", std::to_string(po.resSb)); } if (r.chance(35)) { po.resMd = r.range(0, 4000); add("reserved_size_metadata_segment", std::to_string(po.resMd)); }
    if (r.chance(20)) { po.mMin = r.range(-2, 3); po.mMax = po.mMin + r.range(0, 6); add("minimum_m_index", std::to_string(po.mMin)); add("maximum_m_index", std::to_string(po.mMax)); } po.noGuid = !guid;
    string params = js.str() + "}"; const char* pp = any || r.chance(50) ? params.c_str() : r.chance(50) ? nullptr : "";
    bool created = false; auto stop = [&](const Outcome& o, const char* fn) { if (o.code != 0 && (o.newFailed || (ext && e->fired))) { tainted = true; ev("writer-abandoned"); return true; } if (ext && e->fired) fail("fault-swallowed", string(fn) + " reported success although writing failed"); return false; };
    auto doSb = [&]
    {
        SbArg a; if (!want.sb.empty() && r.chance(12)) { a.s = r.pick(want.sb); a.s.data.clear(); ev("duplicate-offered"); } else { Gen gg; gg.arbitraryPayload = false; gg.maxPayload = 800; a.s = randomSb(r, gg, randomDims(r, 4)); } Sb& s = a.s; s.pyr = 0; if (s.pw > 60) s.pw = s.w = 60; if (s.ph > 60) s.ph = s.h = 60; if (r.chance(8)) { s.mValid = true; s.m = r.range(-3, 12); }
        if (s.comp != 0 || r.chance(30)) { if (s.comp == 0 || s.data.empty()) s.data = r.bytes((size_t)r.range(0, 700)); if (s.comp == 0) s.comp = r.pick({ 1, 4, 5, 6, 100, 999, 255, -1 }); }
        if (r.chance(4)) s.pw = r.pick({ 0, -1 }); if (r.chance(4)) s.h = r.pick({ 0, -5 }); // refused by the writer
        size_t line = 0; bool sizeOk = true; if (s.comp == 0 && s.pw > 0 && s.ph > 0) { line = (size_t)s.pw * bpp(s.pt); s.data = r.bytes(line * (size_t)s.ph); a.stride = (uint32_t)line + (r.chance(50) ? (uint32_t)r.range(1, 30) : 0); size_t total = (size_t)a.stride * (s.ph - 1) + line; a.buf = r.bytes(total + (r.chance(30) ? a.stride - line : 0)); for (int y = 0; y < s.ph; ++y) memcpy(a.buf.data() + (size_t)y * a.stride, s.data.data() + (size_t)y * line, line); a.size = (uint32_t)a.buf.size();
            if (r.chance(10)) { sizeOk = false; switch (r.below(3)) { case 0: a.size = (uint32_t)r.below(total); break; case 1: a.stride = (uint32_t)r.below(line); break; default: a.null = true; break; } if (!a.null) a.buf.resize(a.size); } }
        else { a.buf = s.data; a.size = (uint32_t)s.data.size(); a.null = a.buf.empty(); if (s.comp == 0) s.data.clear(); }
        std::unique_ptr<uint8_t[]> pd(new uint8_t[a.buf.size()]), pm(new uint8_t[s.md.size()]), pa(new uint8_t[s.att.size()]); if (!a.buf.empty()) memcpy(pd.get(), a.buf.data(), a.buf.size()); if (!s.md.empty()) memcpy(pm.get(), s.md.data(), s.md.size()); if (!s.att.empty()) memcpy(pa.get(), s.att.data(), s.att.size());
        AddSubBlockInfoInterop ai = sbInterop(a, pd.get(), pm.get(), pa.get()); bool ok = sizeOk;
        if (ok) ok = twin([&] {
            auto rest = [&](auto& i) { i.ptrSbBlkMetadata = s.md.empty() ? nullptr : pm.get(); i.sbBlkMetadataSize = (uint32_t)s.md.size(); i.ptrSbBlkAttachment = s.att.empty() ? nullptr : pa.get(); i.sbBlkAttachmentSize = (uint32_t)s.att.size(); };
            if (s.comp == 0) { L::AddSubBlockInfoStridedBitmap i; fillBase(i, s); i.ptrBitmap = pd.get(); i.strideBitmap = a.stride; rest(i); tw->SyncAddSubBlock(i); } else { L::AddSubBlockInfoMemPtr i; fillBase(i, s); i.ptrData = s.data.empty() ? nullptr : pd.get(); i.dataSize = (uint32_t)s.data.size(); rest(i); tw->SyncAddSubBlock(i); } });
        Outcome o = CALL(libCZI_WriterAddSubBlock, g.hw, &ai); memset(pd.get(), 0, a.buf.size()); if (stop(o, "WriterAddSubBlock")) return; judge("WriterAddSubBlock", o, ok); if (ok) { want.sb.push_back(s); ev(s.comp == 0 ? "written-uncompressed" : "written-compressed"); } else ev("add-refused");
    };
    auto doAt = [&]
    {
        At a = randomAt(r, 500); AddAttachmentInfoInterop i; memset((void*)&i, 0, sizeof(i)); memcpy(i.guid, &a.guid, 16); memcpy(i.contentFileType, a.type.data(), std::min<size_t>(8, a.type.size())); memcpy(i.name, a.name.data(), std::min<size_t>(80, a.name.size())); std::unique_ptr<uint8_t[]> pd(new uint8_t[a.data.size()]); if (!a.data.empty()) memcpy(pd.get(), a.data.data(), a.data.size()); i.size_attachment_data = (uint32_t)a.data.size(); i.attachment_data = a.data.empty() ? nullptr : pd.get();
        bool ok = twin([&] { tw->SyncAddAttachment(attInfo(a)); }); Outcome o = CALL(libCZI_WriterAddAttachment, g.hw, &i); if (stop(o, "WriterAddAttachment")) return; judge("WriterAddAttachment", o, ok); if (ok) { want.at.push_back(a); ev("written-attachment"); }
    };
    auto doMd = [&]
    {
        string x = r.chance(10) ? string() : documentXml(r); std::unique_ptr<char[]> pd(new char[x.size()]); memcpy(pd.get(), x.data(), x.size()); WriteMetadataInfoInterop i; memset((void*)&i, 0, sizeof(i)); i.size_metadata = (uint32_t)x.size(); i.metadata = x.empty() ? nullptr : pd.get();
        bool ok = twin([&] { L::WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = x.empty() ? nullptr : pd.get(); mi.szMetadataSize = x.size(); tw->SyncWriteMetadata(mi); }); Outcome o = CALL(libCZI_WriterWriteMetadata, g.hw, &i); if (stop(o, "WriterWriteMetadata")) return; judge("WriterWriteMetadata", o, ok); if (ok) { want.hasMd = true; want.xml = x; ev("written-metadata"); }
    };
    auto doOne = [&] { int k = (int)r.below(10); if (k < 6) doSb(); else if (k < 9) doAt(); else doMd(); };
    if (r.chance(10)) { doOne(); if (tainted) goto end; want = Doc{ {}, {}, false, "", {}, want.guid }; }
    {
        bool ok = twin([&] { tw->Create(std::make_shared<MemOut>(tf), any ? writerInfo(want, po) : nullptr); }); Outcome o = CALL(libCZI_WriterCreate, g.hw, hs, pp); if (stop(o, "WriterCreate")) goto end; if (!judge("WriterCreate", o, ok)) goto end; created = true;
        if (r.chance(30)) { VH_EQ(calm("libCZI_ReleaseOutputStream", [&] { return libCZI_ReleaseOutputStream(hs); }), 0, "release", "output stream in use by a writer"); hs = 0; if (ext) VH_EQ((int)e->closed, 0, "stream-life", "the output stream was closed although the writer needs it"); ev("stream-released-early"); }
        else if (r.chance(10)) { bool ok2 = twin([&] { tw->Create(std::make_shared<MemOut>(makeFile()), nullptr); }); Outcome o2 = CALL(libCZI_WriterCreate, g.hw, hs, nullptr); if (stop(o2, "WriterCreate")) goto end; judge("WriterCreate (second)", o2, ok2); if (ok2) goto end; }
        for (int n = r.range(0, 8); n > 0; --n) { doOne(); if (tainted) goto end; }
        if (r.chance(90))
        {
            ok = twin([&] { tw->Close(); }); o = CALL(libCZI_WriterClose, g.hw); if (stop(o, "WriterClose")) goto end; judge("WriterClose", o, ok); Doc keep = want;
            if (r.chance(15)) { doOne(); if (tainted) goto end; } if (r.chance(10)) { ok = twin([&] { tw->Close(); }); o = CALL(libCZI_WriterClose, g.hw); if (stop(o, "WriterClose")) goto end; judge("WriterClose (second)", o, ok); }
            // what is in the file
            if (r.chance(50) && hs) { VH_EQ(calm("libCZI_ReleaseOutputStream", [&] { return libCZI_ReleaseOutputStream(hs); }), 0, "release", "output stream"); hs = 0; }
            VH_EQ(calm("libCZI_ReleaseWriter", [&] { return libCZI_ReleaseWriter(g.hw); }), 0, "release", "writer"); g.hw = 0; if (hs) { VH_EQ(calm("libCZI_ReleaseOutputStream", [&] { return libCZI_ReleaseOutputStream(hs); }), 0, "release", "output stream"); hs = 0; }
            Bytes now; if (ext) now = e->f->data; else VH_CHECK(slurp(path, now), "written-file", "the file is not there"); if (guid) VH_CHECK(now == tf->data, "written-file", "the file written through the C API (" << now.size() << " bytes) differs from the one written with the C++ API (" << tf->data.size() << " bytes)");
            auto rd = openReader(makeFile(now)); if (!guid) want.guid = rd->GetFileHeaderInfo().fileGuid; keep.guid = want.guid; compareContent(keep, rd.get(), "file written through the C API"); rd->Close(); ev("files-written"); ctx().evals += now.size(); ctx().seenHash(hash64(now.data(), now.size()));
        }
    }
end:
    (void)created; (void)fault;
    std::vector<int> order{ 0, 1 }; r.shuffle(order); for (int k : order) { if (k == 0 && g.hw) { VH_EQ(calm("libCZI_ReleaseWriter", [&] { return libCZI_ReleaseWriter(g.hw); }), 0, "release", "writer"); w.stale.push_back({ tWriter, g.hw }); g.hw = 0; } if (k == 1 && hs) { VH_EQ(calm("libCZI_ReleaseOutputStream", [&] { return libCZI_ReleaseOutputStream(hs); }), 0, "release", "output stream"); w.stale.push_back({ tOut, hs }); hs = 0; } }
    if (ext) VH_EQ((int)e->closed, 1, "stream-life", "the output stream of the caller after everything using it was released");
}

// ---- wrong handles and null pointers ------------------------------------------------------------------------------------------
struct HFn { const char* n; Type t; std::function<int(ObjectHandle)> f; };
struct Buf { alignas(16) uint8_t b[4096]; };
static const std::vector<HFn>& handleFns(World& w)
{
    static Buf o, o2; static ObjectHandle oh, good; static int32_t i32; static uint64_t u64; static void* pv; static char* pc; static IntRectInterop ri{ 0, 0, 4, 4 }; static CoordinateInterop co; static AddSubBlockInfoInterop as; static AddAttachmentInfoInterop aa; static WriteMetadataInfoInterop wm; static uint32_t dims[16]; static uint8_t px[4] = { 1, 2, 3, 4 };
    (void)w; memset((void*)&co, 0, sizeof(co)); memset((void*)&as, 0, sizeof(as)); as.data = px; as.size_data = 4; as.stride = 2; as.logical_width = as.logical_height = as.physical_width = as.physical_height = 2; memset((void*)&aa, 0, sizeof(aa)); memset((void*)&wm, 0, sizeof(wm)); wm.metadata = "<a/>"; wm.size_metadata = 4; (void)good;
    static const std::vector<HFn> v{
        { "ReaderOpen(reader)", tReader, [](ObjectHandle h) { ReaderOpenInfoInterop i; memset((void*)&i, 0, sizeof(i)); i.streamObject = (ObjectHandle)&o; return (int)libCZI_ReaderOpen(h, &i); } },
        { "ReaderGetFileHeaderInfo", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderGetFileHeaderInfo(h, (FileHeaderInfoInterop*)&o); } },
        { "ReaderReadSubBlock", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderReadSubBlock(h, 0, &oh); } },
        { "ReaderGetStatisticsSimple", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderGetStatisticsSimple(h, (SubBlockStatisticsInterop*)&o); } },
        { "ReaderGetStatisticsEx", tReader, [](ObjectHandle h) { i32 = 3; return (int)libCZI_ReaderGetStatisticsEx(h, (SubBlockStatisticsInteropEx*)&o, &i32); } },
        { "ReaderGetPyramidStatistics", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderGetPyramidStatistics(h, &pc); } },
        { "ReaderGetMetadataSegment", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderGetMetadataSegment(h, &oh); } },
        { "ReaderGetAttachmentCount", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderGetAttachmentCount(h, &i32); } },
        { "ReaderGetAttachmentInfoFromDirectory", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderGetAttachmentInfoFromDirectory(h, 0, (AttachmentInfoInterop*)&o); } },
        { "ReaderReadAttachment", tReader, [](ObjectHandle h) { return (int)libCZI_ReaderReadAttachment(h, 0, &oh); } },
        { "TryGetSubBlockInfoForIndex", tReader, [](ObjectHandle h) { return (int)libCZI_TryGetSubBlockInfoForIndex(h, 0, (SubBlockInfoInterop*)&o); } },
        { "CreateSingleChannelTileAccessor", tReader, [](ObjectHandle h) { return (int)libCZI_CreateSingleChannelTileAccessor(h, &oh); } },
        { "SubBlockCreateBitmap", tSubBlock, [](ObjectHandle h) { return (int)libCZI_SubBlockCreateBitmap(h, &oh); } },
        { "SubBlockGetInfo", tSubBlock, [](ObjectHandle h) { return (int)libCZI_SubBlockGetInfo(h, (SubBlockInfoInterop*)&o); } },
        { "SubBlockGetRawData", tSubBlock, [](ObjectHandle h) { u64 = sizeof(o); return (int)libCZI_SubBlockGetRawData(h, 0, &u64, &o); } },
        { "AttachmentGetInfo", tAtt, [](ObjectHandle h) { return (int)libCZI_AttachmentGetInfo(h, (AttachmentInfoInterop*)&o); } },
        { "AttachmentGetRawData", tAtt, [](ObjectHandle h) { u64 = sizeof(o); return (int)libCZI_AttachmentGetRawData(h, &u64, &o); } },
        { "BitmapGetInfo", tBitmap, [](ObjectHandle h) { return (int)libCZI_BitmapGetInfo(h, (BitmapInfoInterop*)&o); } },
        { "BitmapLock", tBitmap, [](ObjectHandle h) { return (int)libCZI_BitmapLock(h, (BitmapLockInfoInterop*)&o); } },
        { "BitmapUnlock", tBitmap, [](ObjectHandle h) { return (int)libCZI_BitmapUnlock(h); } },
        { "BitmapCopyTo", tBitmap, [](ObjectHandle h) { return (int)libCZI_BitmapCopyTo(h, 1, 1, 0, 1, &o); } },
        { "MetadataSegmentGetMetadataAsXml", tMeta, [](ObjectHandle h) { return (int)libCZI_MetadataSegmentGetMetadataAsXml(h, (MetadataAsXmlInterop*)&o); } },
        { "MetadataSegmentGetCziDocumentInfo", tMeta, [](ObjectHandle h) { return (int)libCZI_MetadataSegmentGetCziDocumentInfo(h, &oh); } },
        { "CziDocumentInfoGetGeneralDocumentInfo", tDoc, [](ObjectHandle h) { return (int)libCZI_CziDocumentInfoGetGeneralDocumentInfo(h, &pv); } },
        { "CziDocumentInfoGetScalingInfo", tDoc, [](ObjectHandle h) { return (int)libCZI_CziDocumentInfoGetScalingInfo(h, (ScalingInfoInterop*)&o); } },
        { "CziDocumentInfoGetAvailableDimension", tDoc, [](ObjectHandle h) { return (int)libCZI_CziDocumentInfoGetAvailableDimension(h, 16, dims); } },
        { "CziDocumentInfoGetDisplaySettings", tDoc, [](ObjectHandle h) { return (int)libCZI_CziDocumentInfoGetDisplaySettings(h, &oh); } },
        { "CziDocumentInfoGetDimensionInfo", tDoc, [](ObjectHandle h) { return (int)libCZI_CziDocumentInfoGetDimensionInfo(h, 1, &pv); } },
        { "WriterCreate(writer)", tWriter, [](ObjectHandle h) { return (int)libCZI_WriterCreate(h, (ObjectHandle)&o, nullptr); } },
        { "WriterAddSubBlock", tWriter, [](ObjectHandle h) { return (int)libCZI_WriterAddSubBlock(h, &as); } },
        { "WriterAddAttachment", tWriter, [](ObjectHandle h) { return (int)libCZI_WriterAddAttachment(h, &aa); } },
        { "WriterWriteMetadata", tWriter, [](ObjectHandle h) { return (int)libCZI_WriterWriteMetadata(h, &wm); } },
        { "WriterClose", tWriter, [](ObjectHandle h) { return (int)libCZI_WriterClose(h); } },
        { "SingleChannelTileAccessorCalcSize", tAcc, [](ObjectHandle h) { return (int)libCZI_SingleChannelTileAccessorCalcSize(h, &ri, 1, (IntSizeInterop*)&o); } },
        { "SingleChannelTileAccessorGet", tAcc, [](ObjectHandle h) { return (int)libCZI_SingleChannelTileAccessorGet(h, &co, &ri, 1, nullptr, &oh); } },
        { "CompositorFillOutCompositionChannelInfoInterop", tDs, [](ObjectHandle h) { return (int)libCZI_CompositorFillOutCompositionChannelInfoInterop(h, 0, false, (CompositionChannelInfoInterop*)&o); } },
        { "DisplaySettingsGetChannelDisplaySettings", tDs, [](ObjectHandle h) { return (int)libCZI_DisplaySettingsGetChannelDisplaySettings(h, 0, &oh); } },
        { "CompositorDoMultiChannelComposition", tBitmap, [](ObjectHandle h) { CompositionChannelInfoInterop ci; memset((void*)&ci, 0, sizeof(ci)); ci.weight = 1; ci.white_point = 1; return (int)libCZI_CompositorDoMultiChannelComposition(1, &h, &ci, &oh); } } };
    return v;
}
static void opHandles(World& w)
{
    Rng& r = w.r; auto& fns = handleFns(w); static Buf zero; memset(&zero, 0, sizeof(zero)); int kind = (int)r.below(4); ObjectHandle h = 0; Type ht = kTypes; bool sv = g_mayFail; g_mayFail = false; struct Re { bool v; ~Re() { g_mayFail = v; } } re{ sv };
    if (kind == 1 && !w.stale.empty()) { auto& s = w.stale[(size_t)r.below(w.stale.size())]; h = s.second; ht = kTypes; ev("stale-handles"); } else if (kind == 2 && !w.live.empty()) { auto& l = w.live[(size_t)r.below(w.live.size())]; h = l.h; ht = l.t; ev("foreign-handles"); } else if (kind == 3) h = (ObjectHandle)(zero.b + 16 * r.below(8));
    w.note(kind == 0 ? "null handle" : kind == 1 ? "stale handle" : kind == 2 ? string("handle of a ") + (ht == kTypes ? "?" : kName[ht]) : "invented handle");
    for (int n = 3; n > 0; --n)
    {
        if (r.chance(35))
        {
            Type t = (Type)r.below(kTypes); if (t == ht || w.isLive(t, h)) continue; string d = string("release as ") + kName[t]; VH_CHECK(call(d.c_str(), [&] { return releaseOf(t, h); }).code != 0, "handle-accepted", "an invalid handle was accepted by the function releasing a " << kName[t]);
        }
        else
        {
            auto& f = fns[(size_t)r.below(fns.size())]; if (f.t == ht || w.isLive(f.t, h)) continue; VH_CHECK(call(f.n, [&] { return f.f(h); }).code != 0, "handle-accepted", f.n << " accepted a handle which is " << (kind == 0 ? "null" : kind == 1 ? "released" : kind == 2 ? "of another type" : "invented"));
        }
        ev("bad-handle-calls");
    }
    // two handles in one call
    if (!w.isLive(tIn, h)) if (Handle* rd = w.any(tReader)) { ReaderOpenInfoInterop i; memset((void*)&i, 0, sizeof(i)); i.streamObject = h; bool was = rd->o->opened; if (!was || r.chance(30)) VH_CHECK(call("libCZI_ReaderOpen", [&] { return libCZI_ReaderOpen(rd->h, &i); }).code != 0, "handle-accepted", "ReaderOpen accepted an invalid stream handle"); }
}
static void opNulls(World& w)
{
    Rng& r = w.r; w.note("null pointers"); bool sv = g_mayFail; g_mayFail = false; struct Re { bool v; ~Re() { g_mayFail = v; } } re{ sv }; Buf o; ObjectHandle oh = 0; IntRectInterop ri{ 0, 0, 4, 4 }; CoordinateInterop co; memset((void*)&co, 0, sizeof(co)); std::vector<std::pair<const char*, std::function<int()>>> f;
    auto H = [&](Type t) { Handle* p = w.any(t); return p ? p->h : (ObjectHandle)0; }; ObjectHandle rd = H(tReader), sb = H(tSubBlock), at = H(tAtt), bm = H(tBitmap), md = H(tMeta), dc = H(tDoc), ds = H(tDs), ac = H(tAcc);
    auto N = [&](const char* n, std::function<int()> g) { f.push_back({ n, std::move(g) }); };
    N("AllocateMemory", [] { return (int)libCZI_AllocateMemory(10, nullptr); }); N("GetLibCZIVersionInfo", [] { return (int)libCZI_GetLibCZIVersionInfo(nullptr); }); N("GetLibCZIBuildInformation", [] { return (int)libCZI_GetLibCZIBuildInformation(nullptr); }); N("CreateReader", [] { return (int)libCZI_CreateReader(nullptr); }); N("GetStreamClassesCount", [] { return (int)libCZI_GetStreamClassesCount(nullptr); }); N("GetStreamClassInfo", [] { return (int)libCZI_GetStreamClassInfo(0, nullptr); });
    N("CreateInputStream(class)", [&] { return (int)libCZI_CreateInputStream(nullptr, nullptr, "x", &oh); }); N("CreateInputStream(out)", [&] { return (int)libCZI_CreateInputStream("c_runtime_file_inputstream", nullptr, w.path.c_str(), nullptr); }); N("CreateInputStreamFromFileWide(name)", [&] { return (int)libCZI_CreateInputStreamFromFileWide(nullptr, &oh); }); N("CreateInputStreamFromFileWide(out)", [&] { return (int)libCZI_CreateInputStreamFromFileWide(W(w.path).c_str(), nullptr); }); N("CreateInputStreamFromFileUTF8(name)", [&] { return (int)libCZI_CreateInputStreamFromFileUTF8(nullptr, &oh); }); N("CreateInputStreamFromFileUTF8(out)", [&] { return (int)libCZI_CreateInputStreamFromFileUTF8(w.path.c_str(), nullptr); });
    N("CreateInputStreamFromExternal(struct)", [&] { return (int)libCZI_CreateInputStreamFromExternal(nullptr, &oh); }); N("CreateOutputStreamFromExternal(struct)", [&] { return (int)libCZI_CreateOutputStreamFromExternal(nullptr, &oh); });
    N("CreateInputStreamFromExternal(out)", [&] { static Ext e; auto s = inStruct(&e); return (int)libCZI_CreateInputStreamFromExternal(&s, nullptr); }); N("CreateOutputStreamFromExternal(out)", [&] { static Ext e; auto s = outStruct(&e); return (int)libCZI_CreateOutputStreamFromExternal(&s, nullptr); });
    N("CreateOutputStreamForFileWide(name)", [&] { return (int)libCZI_CreateOutputStreamForFileWide(nullptr, true, &oh); }); N("CreateOutputStreamForFileUTF8(name)", [&] { return (int)libCZI_CreateOutputStreamForFileUTF8(nullptr, true, &oh); }); N("CreateOutputStreamForFileUTF8(out)", [&] { return (int)libCZI_CreateOutputStreamForFileUTF8(scratch("_never").c_str(), true, nullptr); }); N("CreateOutputStreamForFileWide(out)", [&] { return (int)libCZI_CreateOutputStreamForFileWide(W(scratch("_never")).c_str(), true, nullptr); }); N("CreateWriter", [] { return (int)libCZI_CreateWriter(nullptr, nullptr); });
    if (rd) { N("ReaderOpen", [&] { return (int)libCZI_ReaderOpen(rd, nullptr); }); N("ReaderGetFileHeaderInfo", [&] { return (int)libCZI_ReaderGetFileHeaderInfo(rd, nullptr); }); N("ReaderReadSubBlock", [&] { return (int)libCZI_ReaderReadSubBlock(rd, 0, nullptr); }); N("ReaderGetStatisticsSimple", [&] { return (int)libCZI_ReaderGetStatisticsSimple(rd, nullptr); }); N("ReaderGetStatisticsEx", [&] { int32_t n = 2; return (int)libCZI_ReaderGetStatisticsEx(rd, nullptr, &n); }); N("ReaderGetPyramidStatistics", [&] { return (int)libCZI_ReaderGetPyramidStatistics(rd, nullptr); }); N("ReaderGetMetadataSegment", [&] { return (int)libCZI_ReaderGetMetadataSegment(rd, nullptr); }); N("ReaderGetAttachmentCount", [&] { return (int)libCZI_ReaderGetAttachmentCount(rd, nullptr); }); N("ReaderGetAttachmentInfoFromDirectory", [&] { return (int)libCZI_ReaderGetAttachmentInfoFromDirectory(rd, 0, nullptr); }); N("ReaderReadAttachment", [&] { return (int)libCZI_ReaderReadAttachment(rd, 0, nullptr); }); N("TryGetSubBlockInfoForIndex", [&] { return (int)libCZI_TryGetSubBlockInfoForIndex(rd, 0, nullptr); }); N("CreateSingleChannelTileAccessor", [&] { return (int)libCZI_CreateSingleChannelTileAccessor(rd, nullptr); }); }
    if (sb) { N("SubBlockCreateBitmap", [&] { return (int)libCZI_SubBlockCreateBitmap(sb, nullptr); }); N("SubBlockGetInfo", [&] { return (int)libCZI_SubBlockGetInfo(sb, nullptr); }); N("SubBlockGetRawData(size)", [&] { return (int)libCZI_SubBlockGetRawData(sb, 0, nullptr, &o); }); }
    if (at) { N("AttachmentGetInfo", [&] { return (int)libCZI_AttachmentGetInfo(at, nullptr); }); N("AttachmentGetRawData(size)", [&] { return (int)libCZI_AttachmentGetRawData(at, nullptr, &o); }); }
    if (bm) { N("BitmapGetInfo", [&] { return (int)libCZI_BitmapGetInfo(bm, nullptr); }); N("BitmapLock", [&] { return (int)libCZI_BitmapLock(bm, nullptr); }); N("BitmapCopyTo", [&] { BitmapInfoInterop i; libCZI_BitmapGetInfo(bm, &i); return (int)libCZI_BitmapCopyTo(bm, i.width, i.height, i.pixelType, 100000, nullptr); });
        N("CompositorDoMultiChannelComposition(handles)", [&] { CompositionChannelInfoInterop ci; memset((void*)&ci, 0, sizeof(ci)); return (int)libCZI_CompositorDoMultiChannelComposition(1, nullptr, &ci, &oh); }); N("CompositorDoMultiChannelComposition(infos)", [&] { return (int)libCZI_CompositorDoMultiChannelComposition(1, &bm, nullptr, &oh); }); N("CompositorDoMultiChannelComposition(out)", [&] { CompositionChannelInfoInterop ci; memset((void*)&ci, 0, sizeof(ci)); return (int)libCZI_CompositorDoMultiChannelComposition(1, &bm, &ci, nullptr); }); }
    if (md) { N("MetadataSegmentGetMetadataAsXml", [&] { return (int)libCZI_MetadataSegmentGetMetadataAsXml(md, nullptr); }); N("MetadataSegmentGetCziDocumentInfo", [&] { return (int)libCZI_MetadataSegmentGetCziDocumentInfo(md, nullptr); }); }
    if (dc) { N("CziDocumentInfoGetGeneralDocumentInfo", [&] { return (int)libCZI_CziDocumentInfoGetGeneralDocumentInfo(dc, nullptr); }); N("CziDocumentInfoGetScalingInfo", [&] { return (int)libCZI_CziDocumentInfoGetScalingInfo(dc, nullptr); }); N("CziDocumentInfoGetAvailableDimension", [&] { return (int)libCZI_CziDocumentInfoGetAvailableDimension(dc, 10, nullptr); }); N("CziDocumentInfoGetDisplaySettings", [&] { return (int)libCZI_CziDocumentInfoGetDisplaySettings(dc, nullptr); }); N("CziDocumentInfoGetDimensionInfo", [&] { return (int)libCZI_CziDocumentInfoGetDimensionInfo(dc, 1, nullptr); }); }
    if (ds) { N("CompositorFillOutCompositionChannelInfoInterop", [&] { return (int)libCZI_CompositorFillOutCompositionChannelInfoInterop(ds, 0, false, nullptr); }); N("DisplaySettingsGetChannelDisplaySettings", [&] { return (int)libCZI_DisplaySettingsGetChannelDisplaySettings(ds, 0, nullptr); }); }
    if (ac) { N("SingleChannelTileAccessorCalcSize(roi)", [&] { return (int)libCZI_SingleChannelTileAccessorCalcSize(ac, nullptr, 1, (IntSizeInterop*)&o); }); N("SingleChannelTileAccessorCalcSize(out)", [&] { return (int)libCZI_SingleChannelTileAccessorCalcSize(ac, &ri, 1, nullptr); }); N("SingleChannelTileAccessorGet(coordinate)", [&] { return (int)libCZI_SingleChannelTileAccessorGet(ac, nullptr, &ri, 1, nullptr, &oh); }); N("SingleChannelTileAccessorGet(roi)", [&] { return (int)libCZI_SingleChannelTileAccessorGet(ac, &co, nullptr, 1, nullptr, &oh); }); N("SingleChannelTileAccessorGet(out)", [&] { return (int)libCZI_SingleChannelTileAccessorGet(ac, &co, &ri, 1, nullptr, nullptr); }); }
    for (int n = 4; n > 0; --n) { auto& x = f[(size_t)r.below(f.size())]; VH_CHECK(call(x.first, x.second).code != 0, "null-accepted", x.first << " accepted a null pointer"); ev("null-calls"); }
}

// ---- one shared reader handle, many threads -------------------------------------------------------------------------------------
static void threadsCase(Rng& r, uint64_t)
{
    Doc m; TileGen tg; tg.maxTiles = 10; tg.maxSize = 12; tg.extent = 30; TileDoc td = makeTiles(r, tg); for (auto& t : td.t) m.sb.push_back(t.sb); m.guid = randomGuid(r); for (int n = r.range(1, 3); n > 0; --n) m.at.push_back(randomAt(r, 500)); m.hasMd = true; m.xml = documentXml(r); Bytes bytes = writeToBytes(r, m, WriteOpts()); int nSb = (int)m.sb.size(), nAt = (int)m.at.size();
    auto rd = openReader(makeFile(bytes)); std::vector<Bytes> eData; std::vector<Img> ePix; std::vector<Bytes> eAt; for (int i = 0; i < nSb; ++i) { auto s = rd->ReadSubBlock(i); eData.push_back(blk(s.get(), L::ISubBlock::Data)); ePix.push_back(fromBitmap(s->CreateBitmap().get())); } for (int i = 0; i < nAt; ++i) eAt.push_back(fromAttachment(rd->ReadAttachment(i).get()).data);
    L::IntRect roi = randomRoi(r, td); auto plane = randomPlane(r, td); L::CDimCoordinate co = toCoord(plane); float zoom = r.chance(50) ? 1.0f : 0.6f; L::ISingleChannelScalingTileAccessor::Options op; op.Clear(); op.backGroundColor = { 0.2f,0.4f,0.6f }; shared_ptr<L::IBitmapData> eb; auto acc = rd->CreateSingleChannelScalingTileAccessor(); bool eOk = twin([&] { eb = acc->Get(roi, &co, zoom, &op); }) && eb; Img eImg; if (eOk) eImg = fromBitmap(eb.get());
    CoordinateInterop ci = coordOf(&co); IntRectInterop ri{ roi.x, roi.y, roi.w, roi.h }; AccessorOptionsInterop ao; memset((void*)&ao, 0, sizeof(ao)); ao.back_ground_color_r = 0.2f; ao.back_ground_color_g = 0.4f; ao.back_ground_color_b = 0.6f; ao.sort_by_m = op.sortByM; ao.use_visibility_check_optimization = op.useVisibilityCheckOptimization;
    Ext e; e.f = makeFile(bytes); ObjectHandle hs = 0, hr = 0; string path = scratch("_t.czi"); bool file = r.chance(30);
    if (file) { FILE* f = fopen(path.c_str(), "wb"); if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size()) throw std::runtime_error("scratch"); fclose(f); VH_EQ((int)libCZI_CreateInputStreamFromFileUTF8(path.c_str(), &hs), 0, "threads", "stream"); } else { auto s = inStruct(&e); VH_EQ((int)libCZI_CreateInputStreamFromExternal(&s, &hs), 0, "threads", "stream"); }
    VH_EQ((int)libCZI_CreateReader(&hr), 0, "threads", "reader"); ReaderOpenInfoInterop oi; memset((void*)&oi, 0, sizeof(oi)); oi.streamObject = hs; VH_EQ((int)libCZI_ReaderOpen(hr, &oi), 0, "threads", "open"); VH_EQ((int)libCZI_ReleaseInputStream(hs), 0, "threads", "release");
    ObjectHandle sharedSb = 0; VH_EQ((int)libCZI_ReaderReadSubBlock(hr, 0, &sharedSb), 0, "threads", "shared sub-block"); ObjectHandle sharedAcc = 0; VH_EQ((int)libCZI_CreateSingleChannelTileAccessor(hr, &sharedAcc), 0, "threads", "shared accessor");
    const int T = 4; std::vector<uint64_t> seeds; for (int t = 0; t < T; ++t) seeds.push_back(r.next()); std::vector<string> err(T); std::vector<uint64_t> done(T, 0); std::atomic<int> go{ 0 };
    auto img = [](ObjectHandle b, Img& out) { BitmapInfoInterop bi; if (libCZI_BitmapGetInfo(b, &bi)) return false; out = Img(bi.pixelType, bi.width, bi.height); bool ok = libCZI_BitmapCopyTo(b, bi.width, bi.height, bi.pixelType, (uint32_t)out.line(), out.d.empty() ? (void*)&bi : out.d.data()) == 0; return libCZI_ReleaseBitmap(b) == 0 && ok; };
    auto body = [&](int t)
    {
        Rng q(seeds[(size_t)t]); go++; while (go.load() < T) std::this_thread::yield(); auto bad = [&](const string& s) { if (err[(size_t)t].empty()) err[(size_t)t] = s; };
        for (int n = 0; n < 25 && err[(size_t)t].empty(); ++n)
        {
            done[(size_t)t]++;
            switch (q.below(7))
            {
            case 0: case 1: { int i = q.range(0, nSb - 1); ObjectHandle s = 0, b = 0; if (libCZI_ReaderReadSubBlock(hr, i, &s) || !s) { bad("ReadSubBlock"); break; } Bytes d(eData[(size_t)i].size() + 1); uint64_t sz = d.size(); if (libCZI_SubBlockGetRawData(s, 0, &sz, d.data()) || sz != eData[(size_t)i].size() || (sz && memcmp(d.data(), eData[(size_t)i].data(), (size_t)sz))) bad("raw data of sub-block " + std::to_string(i)); Img g; if (libCZI_SubBlockCreateBitmap(s, &b) || !img(b, g) || !(g == ePix[(size_t)i])) bad("bitmap of sub-block " + std::to_string(i)); if (libCZI_ReleaseSubBlock(s)) bad("ReleaseSubBlock"); } break;
            case 2: { ObjectHandle b = 0; Img g; if (libCZI_SubBlockCreateBitmap(sharedSb, &b) || !img(b, g) || !(g == ePix[0])) bad("bitmap of the shared sub-block"); SubBlockInfoInterop si; if (libCZI_SubBlockGetInfo(sharedSb, &si)) bad("SubBlockGetInfo"); } break;
            case 3: { int i = q.range(0, nAt - 1); ObjectHandle a = 0; if (libCZI_ReaderReadAttachment(hr, i, &a) || !a) { bad("ReadAttachment"); break; } Bytes d(eAt[(size_t)i].size() + 1); uint64_t sz = d.size(); if (libCZI_AttachmentGetRawData(a, &sz, d.data()) || sz != eAt[(size_t)i].size() || (sz && memcmp(d.data(), eAt[(size_t)i].data(), (size_t)sz))) bad("attachment " + std::to_string(i)); AttachmentInfoInterop ai; memset((void*)&ai, 0, sizeof(ai)); if (libCZI_AttachmentGetInfo(a, &ai)) bad("AttachmentGetInfo"); else if (ai.name_overflow) libCZI_Free(ai.name_in_case_of_overflow); if (libCZI_ReleaseAttachment(a)) bad("ReleaseAttachment"); } break;
            case 4: { ObjectHandle a = sharedAcc; bool own = q.chance(60); if (own && libCZI_CreateSingleChannelTileAccessor(hr, &a)) { bad("CreateSingleChannelTileAccessor"); break; } ObjectHandle b = 0; bool ok = libCZI_SingleChannelTileAccessorGet(a, &ci, &ri, zoom, &ao, &b) == 0; if (ok != eOk) bad("composition: result code"); if (ok) { Img g; if (!img(b, g) || (eOk && !(g == eImg))) bad("composition: pixels: " + diff(eImg, g) + " type " + std::to_string(eImg.pt)); } if (own) libCZI_ReleaseCreateSingleChannelTileAccessor(a); } break;
            case 5: { ObjectHandle md = 0; if (libCZI_ReaderGetMetadataSegment(hr, &md)) { bad("GetMetadataSegment"); break; } MetadataAsXmlInterop x; memset((void*)&x, 0, sizeof(x)); if (libCZI_MetadataSegmentGetMetadataAsXml(md, &x) || x.size != m.xml.size() || memcmp(x.data, m.xml.data(), m.xml.size())) bad("XML"); libCZI_Free(x.data); ObjectHandle di = 0; if (q.chance(40)) { if (libCZI_MetadataSegmentGetCziDocumentInfo(md, &di)) bad("GetCziDocumentInfo"); else { void* j = nullptr; if (libCZI_CziDocumentInfoGetGeneralDocumentInfo(di, &j)) bad("GetGeneralDocumentInfo"); libCZI_Free(j); libCZI_ReleaseCziDocumentInfo(di); } } if (libCZI_ReleaseMetadataSegment(md)) bad("ReleaseMetadataSegment"); } break;
            default: { SubBlockStatisticsInterop s; if (libCZI_ReaderGetStatisticsSimple(hr, &s) || s.sub_block_count != nSb) bad("statistics"); int32_t n2 = -1; if (libCZI_ReaderGetAttachmentCount(hr, &n2) || n2 != nAt) bad("attachment count"); SubBlockInfoInterop si; if (libCZI_TryGetSubBlockInfoForIndex(hr, q.range(0, nSb - 1), &si)) bad("TryGetSubBlockInfoForIndex"); } break;
            }
        }
    };
    std::vector<std::thread> th; for (int t = 0; t < T; ++t) th.emplace_back(body, t); for (auto& t : th) t.join(); for (int t = 0; t < T; ++t) { VH_CHECK(err[(size_t)t].empty(), "threads", "thread " << t << ": " << err[(size_t)t]); ev("thread-operations", done[(size_t)t]); }
    VH_EQ((int)libCZI_ReleaseSubBlock(sharedSb), 0, "threads", "release"); VH_EQ((int)libCZI_ReleaseReader(hr), 0, "threads", "release"); if (!file) VH_EQ((int)e.closed, 0, "stream-life", "the stream was closed although the accessor needs it"); VH_EQ((int)libCZI_ReleaseCreateSingleChannelTileAccessor(sharedAcc), 0, "threads", "release"); if (!file) VH_EQ((int)e.closed, 1, "stream-life", "stream after everything was released"); else unlink(path.c_str()); VH_CHECK(!e.usedAfterClose, "stream-life", "used after close"); ev("thread-cases"); ctx().evals += 100; ctx().seenHash(hash64(bytes.data(), bytes.size()));
}

static void oneCase(Rng& r, uint64_t no)
{
    if (getenv("C21_THREADS")) { threadsCase(r, no); return; }
    World w(r); makeWorld(w); g_r = &r; g_mayFail = r.chance(25); struct Clean { World& w; ~Clean() { g_mayFail = false; unlink(w.path.c_str()); for (auto& l : w.live) { if (l.t == tBitmap) { while (l.o->locks > 0) { l.o->locks--; if (l.o->bm) l.o->bm->Unlock(); } } } } } clean{ w };
    int n = r.range(20, 150); if (r.chance(85)) { opInput(w); opReader(w); if (r.chance(60)) opRead(w); }
    for (int i = 0; i < n; ++i)
    {
        int k = (int)r.below(100);
        if (k < 2) opInput(w); else if (k < 5) opReader(w); else if (k < 16) opReaderInfo(w); else if (k < 31) opRead(w); else if (k < 43) opSubBlock(w); else if (k < 47) opAttachment(w); else if (k < 55) opMetadata(w); else if (k < 65) opDocument(w); else if (k < 71) opDisplay(w); else if (k < 78) opAccessor(w); else if (k < 81) opCompositor(w); else if (k < 86) opBitmap(w); else if (k < 87) opMisc(w); else if (k < 89) opWriter(w); else if (k < 92) opHandles(w); else if (k < 94) opNulls(w); else if (!w.live.empty()) releaseAt(w, (size_t)r.below(w.live.size()));
        checkStreams(w);
    }
    while (!w.live.empty()) releaseAt(w, (size_t)r.below(w.live.size())); checkStreams(w); for (auto& e : w.exts) VH_EQ((int)e->closed, 1, "stream-life", "a stream of the caller after everything was released"); ev("sessions");
}
int main(int argc, char** argv) { int rc = vh::runMain(argc, argv, "C21", vh::Options{ 400, 8000 }, oneCase); unlink(scratch("_never").c_str()); return rc; }
