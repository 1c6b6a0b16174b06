// C07: creating a bitmap from a sub-block gives exactly the stored pixels; size mismatches follow the resolution protocol.
#include "pix.hpp"
#include "libCZI_compress.h"
#include <zstd.h>
using namespace vh; using namespace pix; using namespace doc;

static Bytes zstd(const Bytes& b, int level, bool noSize)
{
    Bytes o(ZSTD_compressBound(b.size()) + 16);
    ZSTD_CCtx* c = ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, level); ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, noSize ? 0 : 1);
    size_t n = ZSTD_compress2(c, o.data(), o.size(), b.data(), b.size()); ZSTD_freeCCtx(c);
    if (ZSTD_isError(n)) fail("harness", "zstd"); o.resize(n); return o;
}
struct Item { Sb s; bool lax; Img expect; bool mustThrow = false; bool mayThrow = false; std::string what; };

/// what `content` (the uncompressed bytes as they are in the stream) gives as pixels
static Img resolve(const Img& shape, Bytes content, bool hilo)
{
    if (hilo) { size_t half = content.size() / 2; Bytes q(half * 2); for (size_t i = 0; i < half; ++i) { q[2 * i] = content[i]; q[2 * i + 1] = content[half + i]; } content.swap(q); }
    Img m = shape; std::fill(m.d.begin(), m.d.end(), 0); std::copy_n(content.begin(), std::min(content.size(), m.d.size()), m.d.begin()); return m;
}
static Bytes pack(const Bytes& px) { size_t half = px.size() / 2; Bytes q(half * 2); for (size_t i = 0; i < half; ++i) { q[i] = px[2 * i]; q[half + i] = px[2 * i + 1]; } return q; }

static Item make(Rng& r)
{
    Item it; Sb& s = it.s; s.coord[2] = 0;
    s.pw = r.chance(30) ? r.range(1, 4) : r.range(1, 40); s.ph = r.chance(30) ? r.range(1, 3) : r.range(1, 25); if (r.below(60) == 0) { int k = r.range(0, 2); s.pw = k == 0 ? r.range(200, 400) : k == 1 ? r.range(1, 5) : r.range(3000, 9000); s.ph = k == 0 ? r.range(100, 300) : k == 1 ? r.range(3000, 9000) : r.range(1, 5); ev("large-bitmap"); } s.w = s.pw; s.h = s.ph;
    if (r.chance(25)) { int f = r.pick({ 2, 3, 7 }); s.w *= f; s.h *= f; }
    int kind = (int)r.below(12); it.lax = r.chance(70);
    s.pt = kind >= 10 ? r.pick({ 0, 1, 3, 4 }) : (r.chance(40) ? r.pick({ 1, 4 }) : r.pick(allPt()));
    Img m = randomImg(r, s.pt, (uint32_t)s.pw, (uint32_t)s.ph);
    const size_t full = m.d.size();
    // mismatch in the number of bytes
    int mm = r.chance(45) ? 0 : r.chance(50) ? -1 : 1; // -1: too small, +1: too large
    Bytes content = m.d;
    if (mm < 0) { size_t n = r.chance(30) ? full - std::min<size_t>(full, 1 + r.below(3)) : (size_t)r.below(full); content.resize(n); }
    if (mm > 0) { Bytes x = r.bytes(r.chance(50) ? 1 + r.below(4) : 1 + r.below(300)); content.insert(content.end(), x.begin(), x.end()); }
    const char* mmn = mm == 0 ? "exact" : mm < 0 ? "short" : "long";
    if (kind < 3)
    {
        s.comp = 0; s.data = content; it.expect = resolve(m, content, false); it.mustThrow = mm < 0 && !it.lax; it.what = std::string("raw-") + mmn; // (surplus data are always accepted)
    }
    else if (kind < 10)
    {
        bool one = kind >= 5, hilo = one && kind >= 7 && (s.pt == 1 || s.pt == 4);
        Bytes stored = content;
        if (hilo) { if (mm == 0) stored = pack(content); /* else: interpreted as it is */ }
        int corrupt = r.chance(10) ? 1 + (int)r.below(4) : 0; // 1: truncated, 2: no content size, 3: garbage, 4: bad header
        Bytes z = zstd(stored, r.range(-3, 5), corrupt == 2);
        if (corrupt == 1) { z.resize((size_t)r.below(z.size())); }
        if (corrupt == 3) { z[0] ^= 0x55; }
        if (one)
        {
            Bytes h = hilo ? Bytes{ 3, 1, 1 } : r.chance(50) ? Bytes{ 1 } : Bytes{ 3, 1, 0 };
            if (corrupt == 4) h = r.pick(std::vector<Bytes>{ { 0 }, { 3 }, { 3, 1 }, { 3, 2, 0 }, { 0, 0, 0 } });
            z.insert(z.begin(), h.begin(), h.end());
        }
        else if (corrupt == 4) corrupt = 0;
        s.comp = one ? 6 : 5; s.data = z;
        it.expect = resolve(m, stored, hilo);
        it.what = std::string(one ? (hilo ? "zstd1hilo-" : "zstd1-") : "zstd0-") + mmn + (corrupt ? "-corrupt" + std::to_string(corrupt) : "");
        it.mustThrow = mm != 0 && !it.lax;
        if (corrupt) it.mustThrow = true;
        if (corrupt == 2 && stored.empty()) it.mayThrow = true; // a single-segment empty frame may carry its size anyway
        if (one && !hilo && kind >= 7 && corrupt == 0 && r.chance(10) && s.pt != 1 && s.pt != 4) { s.data = zstd(stored, 1, false); Bytes h{ 3, 1, 1 }; s.data.insert(s.data.begin(), h.begin(), h.end()); it.mustThrow = true; it.what = "zstd1-hilo-for-8bit"; }
    }
    else
    {
        // JPEG-XR, possibly of another size than described
        int dw = 0, dh = 0; if (r.chance(45)) { dw = r.range(-8, 8); dh = r.range(-8, 8); }
        Img big(s.pt, (uint32_t)std::max(1, s.pw + dw), (uint32_t)std::max(1, s.ph + dh)); fillRandom(r, big);
        auto blkp = libCZI::JxrLibCompress::Compress((PixelType)big.pt, big.w, big.h, (uint32_t)big.line(), big.d.data(), nullptr);
        s.comp = 4; s.data.assign((const uint8_t*)blkp->GetPtr(), (const uint8_t*)blkp->GetPtr() + blkp->GetSizeOfData());
        it.expect = Img(s.pt, (uint32_t)s.pw, (uint32_t)s.ph);
        for (uint32_t y = 0; y < std::min(big.h, it.expect.h); ++y) for (uint32_t x = 0; x < std::min(big.w, it.expect.w); ++x) memcpy(it.expect.px(x, y), big.px(x, y), bpp(s.pt));
        bool differs = big.w != it.expect.w || big.h != it.expect.h;
        it.mustThrow = differs && !it.lax; it.what = std::string("jxr-") + (differs ? "other-size" : "exact");
    }
    return it;
}
static void oneCase(Rng& r, uint64_t)
{
    Doc d; d.guid = randomGuid(r); std::vector<Item> items; int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) { Item it = make(r); it.s.mValid = true; it.s.m = i; it.s.x = r.range(-50, 50); it.s.y = r.range(-50, 50); d.sb.push_back(it.s); items.push_back(std::move(it)); }
    auto f = makeFile(); write(r, d, std::make_shared<MemOut>(f), WriteOpts());
    auto rd = openReader(f);
    std::map<int, int> mToIdx; rd->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { mToIdx[inf.mIndex] = i; return true; });
    for (int i = 0; i < n; ++i)
    {
        Item& it = items[i]; std::ostringstream ds; ds << it.what << " " << describe(it.expect) << (it.lax ? " lax" : " strict") << " payload " << it.s.data.size(); ctx().currentDesc = ds.str(); ctx().sample(ds.str());
        libCZI::CreateBitmapOptions o; bool flag = it.lax; o.handle_jpgxr_bitmap_mismatch = flag; o.handle_uncompressed_data_size_mismatch = flag; o.handle_zstd_data_size_mismatch = flag;
        // the flags of the other codecs must not matter
        if (it.s.comp != 0) o.handle_uncompressed_data_size_mismatch = r.chance(50);
        if (it.s.comp != 4) o.handle_jpgxr_bitmap_mismatch = r.chance(50);
        if (it.s.comp != 5 && it.s.comp != 6) o.handle_zstd_data_size_mismatch = r.chance(50);
        auto sb = rd->ReadSubBlock(mToIdx[i]);
        std::shared_ptr<libCZI::IBitmapData> b; bool threw = false;
        const libCZI::CreateBitmapOptions* po = it.lax && r.chance(40) ? nullptr : &o; // the default is lax
        try { b = sb->CreateBitmap(po); } catch (const std::exception&) { threw = true; }
        if (it.mustThrow) { if (!it.mayThrow) VH_CHECK(threw, "mismatch-must-throw", "no exception"); ev("refused:" + it.what); ctx().seen(ds.str()); if (threw) continue; }
        VH_CHECK(!threw, "decode-failed", "unexpected exception");
        VH_CHECK(b != nullptr, "decode-failed", "no bitmap");
        sb.reset(); // the bitmap must not depend on the sub-block object
        Img g = fromBitmap(b.get());
        if (!it.mayThrow) VH_CHECK(it.expect == g, "decoded-pixels", it.what << ": " << diff(it.expect, g));
        ev("decoded:" + it.what); ctx().seen(ds.str() + std::to_string(hash64(g.d.data(), g.d.size())));
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C07", Options{ 8000, 200000 }, oneCase); }
