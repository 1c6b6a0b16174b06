// C06: lossless codecs return the identical pixels and respect the sizes given.
#include "pix.hpp"
#include "libCZI_compress.h"
#include <zstd.h>
using namespace vh; using namespace pix; using libCZI::ZstdCompress; using libCZI::ImageDecoderType;

static uint32_t dimValue(Rng& r, uint32_t maxv)
{
    switch (r.below(5))
    {
    case 0: return (uint32_t)r.range(1, 4);
    case 1: { uint32_t b = r.pick({ 8u, 16u, 32u, 48u, 64u, 128u }); return std::max(1u, std::min(maxv, b + (uint32_t)r.range(-1, 1))); }
    default: return (uint32_t)r.range(1, (int)maxv);
    }
}
static std::shared_ptr<libCZI::IDecoder> decoder(ImageDecoderType t) { return libCZI::GetDefaultSiteObject(libCZI::SiteObjectType::Default)->GetDecoder(t, nullptr); }
static Bytes unzstd(const uint8_t* p, size_t n, size_t expected)
{
    Bytes o(expected); size_t k = ZSTD_decompress(o.data(), o.size(), p, n);
    VH_CHECK(!ZSTD_isError(k) && k == expected, "compressed-stream", "the zstd stream (" << n << " bytes) does not decode to " << expected << " bytes: " << (ZSTD_isError(k) ? ZSTD_getErrorName(k) : std::to_string(k)));
    return o;
}
static void judgeDecoded(const Img& e, const std::shared_ptr<libCZI::IBitmapData>& b, const char* what)
{
    VH_CHECK(b != nullptr, "decode-result", what << ": no bitmap");
    Img g = fromBitmap(b.get());
    VH_CHECK(e == g, "lossless", what << " " << describe(e) << ": " << diff(e, g));
    VH_EQ(b->GetLockCount(), 0, "lock-balance", what);
    ev(std::string("decoded-") + what);
}

static void zstdCase(Rng& r)
{
    int pt = r.chance(45) ? r.pick({ 1, 4 }) : r.pick(doc::allPt());
    bool wide = r.chance(4);
    uint32_t w = dimValue(r, wide ? 3000 : 150), h = dimValue(r, wide ? 3000 : 60); if (wide && (uint64_t)w * h > 200000) h = std::max(1u, 200000 / w);
    Img m = randomImg(r, pt, w, h);
    uint32_t pad = r.chance(45) ? 0 : (uint32_t)r.range(1, 40);
    Strided src(r, m, pad);
    bool one = r.chance(65);
    bool padUnsupported = pad != 0 && h > 0 && (pt == (int)PixelType::Bgra32 || pt == (int)PixelType::Bgr96Float); // refused (exception), see DESIGN.md
    // parameters
    libCZI::CompressParametersOnMap pm; bool useParams = r.chance(80), hilo = false; int level = 0;
    if (useParams)
    {
        if (r.chance(70)) { level = r.chance(70) ? r.range(-5, 6) : r.pick({ -200000, 22, 100, 12, 19, 0 }); if (level > 12 && (uint64_t)w * h > 20000) level = 3; pm.map[(int)libCZI::CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = libCZI::CompressParameter(level); }
        if (r.chance(70)) { hilo = r.chance(75); pm.map[(int)libCZI::CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = libCZI::CompressParameter(hilo); }
        if (r.chance(5)) pm.map[(int)libCZI::CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = libCZI::CompressParameter((uint32_t)3); // a value of the wrong type is not used
    }
    const libCZI::ICompressParameters* pp = useParams ? &pm : nullptr;
    bool packed = one && hilo && (pt == (int)PixelType::Gray16 || pt == (int)PixelType::Bgr48);
    if (packed) padUnsupported = false;
    std::ostringstream ds; ds << (one ? "zstd1 " : "zstd0 ") << describe(m) << " pad " << pad << " level " << level << (packed ? " hi-lo" : ""); ctx().currentDesc = ds.str(); ctx().sample(ds.str());
    const size_t maxSize = one ? ZstdCompress::CalculateMaxCompressedSizeZStd1(w, h, (PixelType)pt) : ZstdCompress::CalculateMaxCompressedSizeZStd0(w, h, (PixelType)pt);

    // temporary memory given out by the caller: exactly sized, accounted, possibly refused
    int64_t tempOut = 0, tempCalls = 0; std::map<void*, size_t> live; bool refuse = r.chance(5);
    auto alloc = [&](size_t n)->void* { ++tempCalls; if (refuse) return nullptr; void* p = malloc(n); live[p] = n; ++tempOut; return p; };
    auto dealloc = [&](void* p) { VH_CHECK(live.erase(p) == 1, "temp-buffer", "freeTempBuffer called with a foreign pointer"); --tempOut; free(p); };
    bool ownTemp = r.chance(50);
    auto compress = [&](void* dst, size_t& n)->bool
    {
        if (ownTemp) return one ? ZstdCompress::CompressZStd1(w, h, src.stride, (PixelType)pt, src.p.get(), alloc, dealloc, dst, n, pp) : ZstdCompress::CompressZStd0(w, h, src.stride, (PixelType)pt, src.p.get(), alloc, dealloc, dst, n, pp);
        return one ? ZstdCompress::CompressZStd1(w, h, src.stride, (PixelType)pt, src.p.get(), dst, n, pp) : ZstdCompress::CompressZStd0(w, h, src.stride, (PixelType)pt, src.p.get(), dst, n, pp);
    };
    auto compressAlloc = [&]()->std::shared_ptr<libCZI::IMemoryBlock>
    {
        if (ownTemp) return one ? ZstdCompress::CompressZStd1Alloc(w, h, src.stride, (PixelType)pt, src.p.get(), alloc, dealloc, pp) : ZstdCompress::CompressZStd0Alloc(w, h, src.stride, (PixelType)pt, src.p.get(), alloc, dealloc, pp);
        return one ? ZstdCompress::CompressZStd1Alloc(w, h, src.stride, (PixelType)pt, src.p.get(), pp) : ZstdCompress::CompressZStd0Alloc(w, h, src.stride, (PixelType)pt, src.p.get(), pp);
    };
    if (padUnsupported)
    {
        try { auto b = compressAlloc(); if (b) { size_t hs = one ? 3 : 0; VH_CHECK(unzstd((const uint8_t*)b->GetPtr() + hs, b->GetSizeOfData() - hs, m.d.size()) == m.d, "lossless", "padded source"); } }
        catch (const std::exception&) { ev("refused-padded-pixeltype"); }
        VH_EQ(tempOut, (int64_t)0, "temp-buffer", "temporary buffers not returned");
        return;
    }
    if (ownTemp && refuse)
    {
        std::unique_ptr<uint8_t[]> dst(new uint8_t[maxSize]); size_t n = maxSize; bool threw = false, ok = false;
        try { ok = compress(dst.get(), n); } catch (const std::exception&) { threw = true; }
        VH_CHECK(tempCalls == 0 ? (ok && !threw) : threw, "temp-buffer", "allocation of the temporary buffer refused, but no exception");
        VH_EQ(tempOut, (int64_t)0, "temp-buffer", "temporary buffers not returned");
        ev("temp-alloc-refused");
        if (tempCalls) { ctx().seen("refuse" + ds.str()); return; }
    }
    // 1. with the maximal size it must succeed
    Bytes comp;
    {
        std::unique_ptr<uint8_t[]> dst(new uint8_t[maxSize]); size_t n = maxSize; // exactly as large as announced: ASan guards the end
        bool ok = compress(dst.get(), n);
        VH_CHECK(ok, "max-size-sufficient", "compression into a buffer of the announced maximal size " << maxSize << " failed");
        VH_CHECK(n <= maxSize && n > 0, "size-reported", "size " << n << " of " << maxSize);
        comp.assign(dst.get(), dst.get() + n);
    }
    src.p.get(); // source must be untouched
    for (uint32_t y = 0; y < h; ++y) VH_CHECK(memcmp(src.p.get() + (size_t)y * src.stride, m.d.data() + y * m.line(), m.line()) == 0, "input-modified", "source modified");
    // 2. the allocating variant produces the same pixels
    auto blk = compressAlloc(); VH_CHECK(blk != nullptr, "alloc-variant", "no memory block");
    VH_CHECK(blk->GetSizeOfData() == comp.size() && memcmp(blk->GetPtr(), comp.data(), comp.size()) == 0, "alloc-variant", "allocating and non-allocating variant differ");
    VH_EQ(tempOut, (int64_t)0, "temp-buffer", "temporary buffers not returned");
    // 3. independent decode
    size_t hs = 0;
    if (one)
    {
        VH_CHECK(comp.size() > 3 && comp[0] == 3 && comp[1] == 1 && (comp[2] & 0xfe) == 0, "zstd1-header", hex(comp.data(), 3));
        VH_CHECK((comp[2] == 1) == packed, "zstd1-header", "hi-lo flag is " << (int)comp[2] << ", requested " << packed);
        hs = 3;
    }
    Bytes plain = unzstd(comp.data() + hs, comp.size() - hs, m.d.size());
    if (packed) { Bytes q(plain.size()); size_t half = plain.size() / 2; for (size_t i = 0; i < half; ++i) { q[2 * i] = plain[i]; q[2 * i + 1] = plain[half + i]; } plain.swap(q); ev("hilo-unpacked"); }
    VH_CHECK(plain == m.d, "stream-content", "the stream does not contain the pixels: " << diffBytes(m.d, plain));
    // 4. the library's decoder (exactly sized input), with both mismatch options
    std::unique_ptr<uint8_t[]> in(new uint8_t[comp.size()]); memcpy(in.get(), comp.data(), comp.size());
    auto dec = decoder(one ? ImageDecoderType::ZStd1 : ImageDecoderType::ZStd0);
    judgeDecoded(m, dec->Decode(in.get(), comp.size(), (PixelType)pt, w, h), one ? (packed ? "zstd1-hilo" : "zstd1") : "zstd0");
    judgeDecoded(m, dec->Decode(in.get(), comp.size(), (PixelType)pt, w, h, "handle_data_size_mismatch"), one ? (packed ? "zstd1-hilo-lax" : "zstd1-lax") : "zstd0-lax");
    if (one && !packed) // the one-byte header means the same
    {
        Bytes s1(comp.begin() + 2, comp.end()); s1[0] = 1; judgeDecoded(m, dec->Decode(s1.data(), s1.size(), (PixelType)pt, w, h), "zstd1-shortheader");
    }
    // 5. destination sizes: anything below the needed size is refused, and nothing is written beyond
    for (int k = 0; k < 3; ++k)
    {
        size_t give = k == 0 ? comp.size() - 1 : k == 1 ? (size_t)r.below(comp.size()) : comp.size() + (size_t)r.below(20);
        std::unique_ptr<uint8_t[]> dst(new uint8_t[give + 8]); memset(dst.get(), 0xA7, give + 8); size_t n = give; int res = -1;
        try { res = compress(dst.get(), n) ? 1 : 0; } catch (const std::invalid_argument&) { VH_CHECK(give <= 4, "small-destination", "exception for a destination of " << give << " bytes"); }
        for (int i = 0; i < 8; ++i) VH_CHECK(dst[give + i] == 0xA7, "destination-overrun", "byte " << i << " behind the destination of " << give << " bytes was written");
        if (res == 1) { VH_CHECK(n <= give, "size-reported", "reported " << n << " of " << give); VH_CHECK(unzstd(dst.get() + hs, n - hs, m.d.size()).size() == m.d.size(), "stream-content", ""); if (give < comp.size()) ev("fitted-below"); }
        else { VH_CHECK(give < maxSize, "max-size-sufficient", "failed with the maximal size"); ev("too-small-refused"); }
    }
    VH_EQ(tempOut, (int64_t)0, "temp-buffer", "temporary buffers not returned");
    ctx().seen(ds.str() + std::to_string(hash64(m.d.data(), m.d.size())));
}

static void jxrCase(Rng& r)
{
    int pt = r.pick({ 0, 1, 3, 4 });
    uint32_t w = dimValue(r, 70), h = dimValue(r, 70);
    Img m = randomImg(r, pt, w, h);
    uint32_t pad = r.chance(45) ? 0 : (uint32_t)r.range(1, 12) * (pt == 1 || pt == 4 ? 2 : 1);
    Strided src(r, m, pad);
    libCZI::CompressParametersOnMap pm; bool useParams = r.chance(50);
    if (useParams && r.chance(80)) pm.map[(int)libCZI::CompressionParameterKey::JXRLIB_QUALITY] = libCZI::CompressParameter((uint32_t)r.pick({ 1000u, 1000u, 5000u }));
    std::ostringstream ds; ds << "jxr " << describe(m) << " pad " << pad; ctx().currentDesc = ds.str();
    auto blk = libCZI::JxrLibCompress::Compress((PixelType)pt, w, h, src.stride, src.p.get(), useParams ? &pm : nullptr);
    VH_CHECK(blk && blk->GetSizeOfData() > 0, "alloc-variant", "no memory block");
    for (uint32_t y = 0; y < h; ++y) VH_CHECK(memcmp(src.p.get() + (size_t)y * src.stride, m.d.data() + y * m.line(), m.line()) == 0, "input-modified", "source modified");
    std::unique_ptr<uint8_t[]> in(new uint8_t[blk->GetSizeOfData()]); memcpy(in.get(), blk->GetPtr(), blk->GetSizeOfData());
    auto dec = decoder(ImageDecoderType::JPXR_JxrLib);
    judgeDecoded(m, dec->Decode(in.get(), blk->GetSizeOfData(), (PixelType)pt, w, h), "jxr");
    judgeDecoded(m, dec->Decode(in.get(), blk->GetSizeOfData(), nullptr, nullptr, nullptr, nullptr), "jxr-any");
    // a description which does not match is refused
    int bad = (int)r.below(3); bool threw = false;
    try { dec->Decode(in.get(), blk->GetSizeOfData(), (PixelType)(bad == 0 ? (pt == 0 ? 1 : 0) : pt), bad == 1 ? w + 1 : w, bad == 2 ? h + 1 : h); } catch (const std::exception&) { threw = true; }
    VH_CHECK(threw, "jxr-mismatch", "wrong description accepted"); ev("jxr-mismatch-refused");
    ctx().seen(ds.str() + std::to_string(hash64(m.d.data(), m.d.size())));
}
static void oneCase(Rng& r, uint64_t) { if (r.chance(80)) zstdCase(r); else jxrCase(r); }
int main(int argc, char** argv) { return runMain(argc, argv, "C06", Options{ 8000, 200000 }, oneCase); }
