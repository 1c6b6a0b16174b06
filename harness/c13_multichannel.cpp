// C13: multi-channel composition against a per-pixel reference of the documented formula.
#include "pix.hpp"
using namespace vh; using namespace pix;
using libCZI::Compositors; using CI = libCZI::Compositors::ChannelInfo; using libCZI::IBitmapData;

static int P(PixelType t) { return (int)t; }
static bool is16(int pt) { return pt == P(PixelType::Gray16) || pt == P(PixelType::Bgr48); }
static bool isGray(int pt) { return pt == P(PixelType::Gray8) || pt == P(PixelType::Gray16); }
struct Range { int lo, hi; };
/// the values a correctly rounded x may have (float arithmetic may fall on either side of a boundary)
static Range rnd(double x) { double e = 1e-4 * (1 + std::fabs(x)); return { (int)std::floor(x + .5 - e), (int)std::floor(x + .5 + e) }; }
static double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }

struct Channel { Img img; std::unique_ptr<CallerBitmap> bmp; std::unique_ptr<uint8_t[]> lut; int lutSize = 0; CI info; };

/// 8-bit contribution (b,g,r) of one channel at one pixel, before weighting
static void contribution(const Channel& c, uint32_t x, uint32_t y, Range out[3], bool& exact)
{
    const uint8_t* p = c.img.px(x, y); int v[3]; bool wide = is16(c.img.pt); int mx = wide ? 65535 : 255;
    for (int i = 0; i < 3; ++i) { int k = isGray(c.img.pt) ? 0 : i; if (wide) { uint16_t u; memcpy(&u, p + 2 * k, 2); v[i] = u; } else v[i] = p[k]; }
    const uint8_t tint[3] = { c.info.tinting.color.b, c.info.tinting.color.g, c.info.tinting.color.r };
    bool bw = !(c.info.blackPoint <= 0 && c.info.whitePoint >= 1);
    if (c.lutSize)
    {
        for (int i = 0; i < 3; ++i) v[i] = c.lut[(size_t)v[i]];
        if (c.info.enableTinting) { double f = (v[0] + v[1] + v[2]) / (3 * 255.0); for (int i = 0; i < 3; ++i) out[i] = rnd(f * tint[i]); exact = false; }
        else for (int i = 0; i < 3; ++i) out[i] = { v[i], v[i] };
    }
    else if (bw)
    {
        exact = false; int b = (int)std::ceil((float)clamp01(c.info.blackPoint) * mx), w = (int)std::floor((float)clamp01(c.info.whitePoint) * mx);
        auto f = [&](int q) { return q <= b ? 0.0 : q >= w ? 1.0 : (q - b) / (double)(w - b); };
        if (c.info.enableTinting) { int q = isGray(c.img.pt) ? v[0] : (v[0] + v[1] + v[2] + 1) / 3; for (int i = 0; i < 3; ++i) out[i] = rnd(f(q) * tint[i]); }
        else for (int i = 0; i < 3; ++i) out[i] = rnd(f(v[i]) * 255);
    }
    else if (c.info.enableTinting) { exact = false; double f = (v[0] + v[1] + v[2]) / (3.0 * mx); for (int i = 0; i < 3; ++i) out[i] = rnd(f * tint[i]); }
    else for (int i = 0; i < 3; ++i) { int q = wide ? v[i] >> 8 : v[i]; out[i] = { q, q }; }
}

static float randomPoint(Rng& r) { switch (r.below(8)) { case 0: return 0.f; case 1: return 1.f; case 2: return 0.5f; case 3: return (float)r.range(0, 255) / 255.f; case 4: return -(float)r.range(1, 3000) / 1000.f; case 5: return 1 + (float)r.range(1, 3000) / 1000.f; default: return (float)r.below(100001) / 100000.f; } }

static void oneCase(Rng& r, uint64_t)
{
    uint32_t w = (uint32_t)(r.chance(15) ? 1 : r.range(1, 40)), h = (uint32_t)(r.chance(15) ? 1 : r.range(1, 24)); if (r.below(150) == 0) { w = (uint32_t)r.range(1, 5000); h = (uint32_t)(60000 / w); ev("large-bitmap"); }
    int n = r.chance(30) ? 1 : r.below(60) == 0 ? r.range(10, 40) : r.range(2, 9); std::vector<Channel> ch((size_t)n); std::vector<IBitmapData*> src; std::vector<CI> infos; std::ostringstream d; d << n << " channels " << w << "x" << h;
    int weightMode = (int)r.below(6); bool unsupported = false; static const int types[] = { 0, 1, 3, 4, 9 };
    for (auto& c : ch)
    {
        int pt = types[r.below(5)]; if (r.below(150) == 0) pt = r.pick({ 2, 8 });
        c.img = randomImg(r, pt, w, h); if (is16(pt) && r.chance(40)) { uint16_t base = (uint16_t)r.next(); for (size_t i = 0; i + 1 < c.img.d.size(); i += 2) { uint16_t u = (uint16_t)(base + r.below(600)); memcpy(&c.img.d[i], &u, 2); } }
        c.bmp.reset(new CallerBitmap(r, pt, w, h, r.chance(50) ? 0 : (uint32_t)r.range(1, 19))); c.bmp->set(c.img);
        c.info.Clear(); c.info.blackPoint = 0; c.info.whitePoint = 1;
        switch (weightMode) { case 0: c.info.weight = 1; break; case 1: c.info.weight = 0; break; case 2: c.info.weight = 0.25f; break; default: c.info.weight = r.chance(15) ? 0 : (float)r.range(1, 4000) / (float)r.pick({ 100, 1000, 3 }); }
        if (weightMode == 3 && r.chance(15)) c.info.weight = r.pick({ -1.f, std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity() });
        c.info.enableTinting = r.chance(50); c.info.tinting.color = { (uint8_t)(r.chance(20) ? 255 : r.next()), (uint8_t)(r.chance(20) ? 0 : r.next()), (uint8_t)r.next() };
        bool canEnhance = pt != P(PixelType::Bgra32);
        if (r.chance(35) && canEnhance)
        {
            c.lutSize = is16(pt) ? 65536 : 256; c.lut.reset(new uint8_t[(size_t)c.lutSize]); uint64_t k = r.next() | 1; int mode = (int)r.below(3);
            for (int i = 0; i < c.lutSize; ++i) c.lut[(size_t)i] = mode == 0 ? (uint8_t)((uint64_t)i * k >> 7) : mode == 1 ? (uint8_t)(255 - (i >> (is16(pt) ? 8 : 0))) : (uint8_t)(i & 1 ? 0 : 255);
            c.info.lookUpTableElementCount = c.lutSize; c.info.ptrLookUpTable = c.lut.get();
            if (r.chance(50)) { c.info.blackPoint = randomPoint(r); c.info.whitePoint = randomPoint(r); } // must be ignored
        }
        else if (r.chance(50) && canEnhance) { c.info.blackPoint = randomPoint(r); c.info.whitePoint = randomPoint(r); if (c.info.blackPoint > c.info.whitePoint && r.chance(80)) std::swap(c.info.blackPoint, c.info.whitePoint); }
        if (pt == 2 || pt == 8) unsupported = true; if (!canEnhance && r.below(40) == 0) { c.info.blackPoint = .25f; unsupported = true; }
        src.push_back(c.bmp.get()); infos.push_back(c.info);
        d << "; " << ptName(pt) << " weight " << c.info.weight << " lut " << c.lutSize << " bw " << c.info.blackPoint << "/" << c.info.whitePoint; if (c.info.enableTinting) d << " tint " << (int)c.info.tinting.color.r << "," << (int)c.info.tinting.color.g << "," << (int)c.info.tinting.color.b;
        ev("channel:" + ptName(pt) + (c.lutSize ? "-lut" : !(c.info.blackPoint <= 0 && c.info.whitePoint >= 1) ? "-bw" : "") + (c.info.enableTinting ? "-tinted" : ""));
    }
    bool bgra = r.chance(50), own = r.chance(60); uint8_t alpha = (uint8_t)r.next(); int dpt = bgra ? P(PixelType::Bgra32) : P(PixelType::Bgr24); d << (bgra ? " -> Bgra32" : " -> Bgr24") << (own ? " (caller)" : "");
    ctx().currentDesc = d.str(); CallerBitmap dst(r, dpt, w, h, r.chance(50) ? 0 : (uint32_t)r.range(1, 13));
    auto checkInputs = [&](const char* who) { for (auto& c : ch) { c.bmp->checkUnmodified(who); c.bmp->checkLocks(who); } dst.checkLocks(who); dst.checkPadding(who); };
    // requests which must be refused
    if (r.chance(8) && !unsupported)
    {
        std::string what; auto i2 = infos; auto s2 = src; int n2 = n; size_t k = r.below((uint64_t)n); std::unique_ptr<CallerBitmap> other, d2;
        switch (r.below(6))
        {
        case 0: what = "no channel"; n2 = r.pick({ 0, -1 }); break;
        case 1: what = "null source"; s2[k] = nullptr; break;
        case 2: what = "source of another size"; other.reset(new CallerBitmap(r, 0, w + (uint32_t)r.below(2), h + 1, 0)); s2[k] = other.get(); break;
        case 3: what = "look-up table of a wrong size"; i2[k].lookUpTableElementCount = r.pick({ 1, 255, 257, 65535, -1, -256 }); i2[k].ptrLookUpTable = dst.p.get(); break;
        case 4: what = "look-up table missing"; i2[k].lookUpTableElementCount = is16(ch[k].img.pt) ? 65536 : 256; i2[k].ptrLookUpTable = nullptr; break;
        default: what = "destination of another pixel type"; d2.reset(new CallerBitmap(r, bgra ? P(PixelType::Bgr24) : r.pick({ 0, 9 }), w, h, 0)); break;
        }
        CallerBitmap& dd = d2 ? *d2 : dst; bool threw = false;
        try { if (bgra) Compositors::ComposeMultiChannel_Bgra32(&dd, alpha, n2, s2.data(), i2.data()); else Compositors::ComposeMultiChannel_Bgr24(&dd, n2, s2.data(), i2.data()); } catch (std::exception&) { threw = true; }
        VH_CHECK(threw, "not-refused", what << " was accepted; " << d.str()); dd.checkUnmodified(what.c_str()); dd.checkLocks(what.c_str()); checkInputs(what.c_str()); ev("refused:" + what); return;
    }
    Img got; bool threw = false;
    try
    {
        if (own) { if (bgra) Compositors::ComposeMultiChannel_Bgra32(&dst, alpha, n, src.data(), infos.data()); else Compositors::ComposeMultiChannel_Bgr24(&dst, n, src.data(), infos.data()); got = dst.img(); }
        else { std::shared_ptr<IBitmapData> b = bgra ? Compositors::ComposeMultiChannel_Bgra32(alpha, n, src.data(), infos.data()) : Compositors::ComposeMultiChannel_Bgr24(n, src.data(), infos.data()); got = fromBitmap(b.get()); }
    }
    catch (std::exception&) { threw = true; }
    checkInputs("composition");
    if (unsupported) { VH_CHECK(threw, "not-refused", "an unsupported pixel type was accepted; " << d.str()); ev("unsupported-refused"); return; }
    VH_CHECK(!threw, "refused", "a valid request was refused: " << d.str());
    VH_CHECK(got.pt == dpt && got.w == w && got.h == h, "result-shape", "got " << describe(got) << "; " << d.str());
    // weights
    double sum = 0; bool weighted = true; for (auto& i : infos) { if (!std::isfinite(i.weight) || i.weight < 0) weighted = false; sum += i.weight; }
    double mean = sum / n; if (weighted && sum <= 1e-6) weighted = false; if (weighted) { bool differs = false; for (auto& i : infos) if (std::fabs(i.weight - mean) > 1e-5) differs = true; weighted = differs; }
    for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x)
    {
        int lo[3] = { 0,0,0 }, hi[3] = { 0,0,0 }; bool exact = !weighted;
        for (auto& c : ch)
        {
            Range q[3]; contribution(c, x, y, q, exact);
            for (int i = 0; i < 3; ++i) { if (weighted) { double f = c.info.weight / mean; q[i] = { rnd(q[i].lo * f).lo, rnd(q[i].hi * f).hi }; } lo[i] += q[i].lo; hi[i] += q[i].hi; }
        }
        int tol = exact ? 0 : 1; const uint8_t* g = got.px(x, y);
        for (int i = 0; i < 3; ++i) VH_CHECK(g[i] >= std::min(lo[i], 255) - tol && g[i] <= std::min(hi[i], 255) + tol, "composite-value", "pixel (" << x << "," << y << ") component " << "bgr"[i] << " is " << (int)g[i] << ", the formula gives " << std::min(lo[i], 255) << (hi[i] > lo[i] ? ".." + std::to_string(std::min(hi[i], 255)) : "") << "; " << d.str());
        if (bgra) VH_CHECK(g[3] == alpha, "alpha", "pixel (" << x << "," << y << ") has alpha " << (int)g[3] << " instead of " << (int)alpha << "; " << d.str());
        ctx().evals++;
    }
    ev(weighted ? "weighted" : "unweighted"); ctx().seenHash(hash64(got.d.data(), got.d.size()));
}
int main(int argc, char** argv) { return runMain(argc, argv, "C13", Options{ 20000, 300000 }, oneCase); }
