// C18: bitonal-bitmap operations and pixel utilities, bit by bit / pixel by pixel against their definition, on exactly sized
// memory with guard content in the padding.
#include "comp.hpp"
#include <climits>
#include <array>
using namespace comp;
using libCZI::BitonalBitmapOperations; using libCZI::BitonalBitmapLockInfo; using libCZI::IntSize; using libCZI::IntPoint; using libCZI::DblRect; using libCZI::Utils;

/// a caller's bitonal bitmap: any stride, exactly sized, padding and lock accounting
struct Bits : libCZI::IBitonalBitmapData
{
    uint32_t w, h, stride; size_t size; std::unique_ptr<uint8_t[]> p; Bytes before; std::vector<char> v; int locks = 0; bool underflow = false;
    Bits(Rng& r, uint32_t w, uint32_t h, uint32_t pad) : w(w), h(h)
    {
        uint32_t line = (w + 7) / 8; stride = line + pad; size = (size_t)stride * (h - 1) + line; p.reset(new uint8_t[size]); Bytes n = r.bytes(size); memcpy(p.get(), n.data(), size);
        int kind = (int)r.below(6); v.resize((size_t)w * h);
        for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x) { bool b = kind == 0 ? r.chance(50) : kind == 1 ? r.chance(97) : kind == 2 ? r.chance(3) : kind == 3 ? true : kind == 4 ? r.below(1000) < 995 : ((x >> 3) ^ (y >> 3)) & 1; put(x, y, b); v[(size_t)y * w + x] = b; }
        keep();
    }
    void keep() { before.assign(p.get(), p.get() + size); }
    void put(uint32_t x, uint32_t y, bool b) { uint8_t& q = p[(size_t)y * stride + x / 8]; uint8_t m = (uint8_t)(0x80 >> (x % 8)); q = b ? (uint8_t)(q | m) : (uint8_t)(q & ~m); }
    bool raw(uint32_t x, uint32_t y) const { return (p[(size_t)y * stride + x / 8] >> (7 - x % 8)) & 1; }
    bool get(uint32_t x, uint32_t y) const { return v[(size_t)y * w + x] != 0; }
    IntSize GetSize() const override { return { w, h }; }
    BitonalBitmapLockInfo Lock() override { ++locks; BitonalBitmapLockInfo l; l.ptrData = p.get(); l.stride = stride; l.size = size; return l; }
    void Unlock() override { if (--locks < 0) underflow = true; }
    int GetLockCount() const override { return locks; }
    BitonalBitmapLockInfo info() const { BitonalBitmapLockInfo l; l.ptrData = p.get(); l.stride = stride; l.size = size; return l; }
    void check(const std::string& who)
    {
        for (uint32_t y = 0; y < h; ++y)
        {
            for (uint32_t x = 0; x < w; ++x) { ctx().evals++; if (raw(x, y) != get(x, y)) fail("bit-value", who + ": bit (" + std::to_string(x) + "," + std::to_string(y) + ") of " + std::to_string(w) + "x" + std::to_string(h) + " is " + (raw(x, y) ? "1" : "0")); }
            if (y + 1 < h) { uint32_t line = (w + 7) / 8; VH_CHECK(memcmp(p.get() + (size_t)y * stride + line, before.data() + (size_t)y * stride + line, stride - line) == 0, "padding-touched", who << ": bytes behind line " << y << " were modified"); }
        }
        VH_CHECK(locks == 0 && !underflow, "lock-balance", who << ": lock count " << locks);
    }
};
static std::string rs(const IntRect& q) { return std::to_string(q.x) + "," + std::to_string(q.y) + " " + std::to_string(q.w) + "x" + std::to_string(q.h); }
static uint32_t bitWidth(Rng& r) { switch (r.below(5)) { case 0: return (uint32_t)r.range(1, 9); case 1: return (uint32_t)(32 * r.range(1, 4) + r.range(-2, 2)); case 2: return (uint32_t)(8 * r.range(1, 12) + r.range(-1, 1)); case 3: return (uint32_t)r.range(100, 300); default: return (uint32_t)r.range(1, 80); } }
static uint32_t bitPad(Rng& r) { return r.chance(40) ? 0 : r.chance(50) ? (uint32_t)r.range(1, 4) : (uint32_t)r.range(1, 19); }
static std::shared_ptr<Bits> randomBits(Rng& r, bool tall = false) { uint32_t w = bitWidth(r); return std::make_shared<Bits>(r, w, (uint32_t)(tall ? r.range(1, 40) : r.range(1, 12)), bitPad(r)); }
static int coordinate(Rng& r, int n) { switch (r.below(14)) { case 0: return r.range(-20, -1); case 1: return n + r.range(-2, 10); case 2: return r.pick({ INT_MIN, INT_MIN + 1, -1000000, 1000000, INT_MAX, INT_MAX - 7, INT_MIN + 30 }); case 3: return 8 * r.range(0, n / 8 + 1); default: return r.range(0, std::max(0, n - 1)); } }
static int extent(Rng& r, int n) { switch (r.below(14)) { case 0: return r.pick({ 0, -1, -5, INT_MAX, INT_MAX - 3, INT_MIN }); case 1: return n + r.range(0, 20); case 2: return 8 * r.range(0, n / 8 + 1); case 3: return r.range(1, 9); default: return r.range(1, std::max(1, n)); } }

static void bitOps(Rng& r)
{
    auto b = randomBits(r); std::string d0 = "bits " + std::to_string(b->w) + "x" + std::to_string(b->h) + " stride " + std::to_string(b->stride); int n = r.range(2, 14);
    std::shared_ptr<libCZI::IBitonalBitmapData> sp = b;
    for (int i = 0; i < n; ++i)
    {
        b->keep(); std::string who; bool val = r.chance(50);
        switch (r.below(7))
        {
        case 0: // get
        {
            uint32_t x = (uint32_t)r.below(b->w), y = (uint32_t)r.below(b->h); bool g = false; who = "get"; ctx().currentDesc = d0 + " get " + std::to_string(x) + "," + std::to_string(y);
            switch (r.below(3)) { case 0: g = BitonalBitmapOperations::GetPixelValue(sp, x, y); break; case 1: g = BitonalBitmapOperations::GetPixelValue(b->info(), b->GetSize(), x, y); break; default: g = BitonalBitmapOperations::GetPixelValue(b.get(), b->info(), x, y); break; }
            VH_CHECK(g == b->get(x, y), "bit-get", ctx().currentDesc << " gives " << g); ev("get"); break;
        }
        case 1: // set
        {
            uint32_t x = (uint32_t)r.below(b->w), y = (uint32_t)r.below(b->h); who = "set"; ctx().currentDesc = d0 + " set " + std::to_string(x) + "," + std::to_string(y);
            switch (r.below(3)) { case 0: BitonalBitmapOperations::SetPixelValue(sp, x, y, val); break; case 1: BitonalBitmapOperations::SetPixelValue(b.get(), x, y, val); break; default: BitonalBitmapOperations::SetPixelValue(b->info(), b->GetSize(), x, y, val); break; }
            b->v[(size_t)y * b->w + x] = val; ev("set"); break;
        }
        case 2: // outside
        {
            uint32_t x = (uint32_t)r.below(b->w), y = (uint32_t)r.below(b->h); auto out = [&](uint32_t n) { return r.pick({ n, n + 1, (n + 7) / 8 * 8, 0xffffffffu, 0x80000000u, n + 64 }); };
            if (r.chance(50)) x = out(b->w); else y = out(b->h); bool threw = false; who = "outside"; ctx().currentDesc = d0 + " outside " + std::to_string(x) + "," + std::to_string(y);
            if (x < b->w && y < b->h) break;
            try { if (r.chance(50)) BitonalBitmapOperations::SetPixelValue(sp, x, y, val); else BitonalBitmapOperations::GetPixelValue(sp, x, y); } catch (const std::exception&) { threw = true; }
            VH_CHECK(threw, "bit-outside", ctx().currentDesc << " was accepted"); ev("outside-refused"); break;
        }
        case 3: case 4: // fill
        {
            IntRect q{ coordinate(r, (int)b->w), coordinate(r, (int)b->h), extent(r, (int)b->w), extent(r, (int)b->h) }; who = "fill " + rs(q); ctx().currentDesc = d0 + " " + who + (val ? " 1" : " 0");
            switch (r.below(3)) { case 0: BitonalBitmapOperations::Fill(sp, q, val); break; case 1: BitonalBitmapOperations::Fill(b.get(), q, val); break; default: BitonalBitmapOperations::Fill(b->info(), b->GetSize(), q, val); break; }
            bool any = false; for (uint32_t y = 0; y < b->h; ++y) for (uint32_t x = 0; x < b->w; ++x) if (x >= (int64_t)q.x && x < (int64_t)q.x + q.w && y >= (int64_t)q.y && y < (int64_t)q.y + q.h) { b->v[(size_t)y * b->w + x] = val; any = true; }
            ev(any ? "fill" : "fill-empty"); break;
        }
        case 5: // set all
            who = "set-all"; ctx().currentDesc = d0 + " set-all";
            switch (r.below(3)) { case 0: BitonalBitmapOperations::SetAllPixels(sp, val); break; case 1: BitonalBitmapOperations::SetAllPixels(b.get(), val); break; default: BitonalBitmapOperations::SetAllPixels(b->info(), b->GetSize(), val); break; }
            for (auto& c : b->v) c = val; ev("set-all"); break;
        default: // inconsistent lock information
        {
            BitonalBitmapLockInfo l = b->info(); IntSize e = b->GetSize(); who = "inconsistent lock info"; uint32_t line = (b->w + 7) / 8;
            switch (r.below(8)) { case 0: l.ptrData = nullptr; break; case 1: e.w = 0; break; case 2: e.h = 0; break; case 3: if (line < 2) break; l.stride = (uint32_t)r.below(line); break; case 4: l.size = (std::uint64_t)r.below(b->size); break; case 5: e.h += 1 + (uint32_t)r.below(1000); break; case 6: e.h = 0xffffffffu - (uint32_t)r.below(8); break; default: e.w = 0xffffffffu - (uint32_t)r.below(8); break; }
            if (l.ptrData && e.w && e.h && (e.w + 7ull) / 8 <= l.stride && (uint64_t)l.stride * (e.h - 1) + (e.w + 7ull) / 8 <= l.size) break; // is consistent after all
            bool threw = false; ctx().currentDesc = d0 + " lock info: stride " + std::to_string(l.stride) + " size " + std::to_string(l.size) + " extent " + std::to_string(e.w) + "x" + std::to_string(e.h);
            try { switch (r.below(5)) { case 0: BitonalBitmapOperations::GetPixelValue(l, e, 0, 0); break; case 1: BitonalBitmapOperations::SetPixelValue(l, e, 0, 0, val); break; case 2: BitonalBitmapOperations::Fill(l, e, IntRect{ 0,0,3,3 }, val); break; case 3: BitonalBitmapOperations::SetAllPixels(l, e, val); break; default: BitonalBitmapOperations::Decimate((int)r.below(8), l, e); break; } }
            catch (const std::invalid_argument&) { threw = true; }
            VH_CHECK(threw, "lock-info-accepted", ctx().currentDesc); ev("lock-info-refused"); break;
        }
        }
        b->check(ctx().currentDesc);
    }
    ctx().seenHash(hash64(b->p.get(), b->size, b->w * 1000 + b->h));
}
static void decimate(Rng& r)
{
    auto b = randomBits(r, true); int n = r.range(0, 7); ctx().currentDesc = "decimate " + std::to_string(b->w) + "x" + std::to_string(b->h) + " stride " + std::to_string(b->stride) + " region " + std::to_string(n);
    if (r.chance(3)) { n = r.pick({ -1, 8, 9, INT_MAX, INT_MIN }); bool threw = false; try { BitonalBitmapOperations::Decimate(n, b.get()); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "region-accepted", "region size " << n); b->check("decimate"); ev("region-refused"); return; }
    auto d = r.chance(50) ? BitonalBitmapOperations::Decimate(n, b.get()) : BitonalBitmapOperations::Decimate(n, b->info(), b->GetSize());
    VH_CHECK(d->GetWidth() == b->w / 2 && d->GetHeight() == b->h / 2, "decimate-size", ctx().currentDesc << " gives " << d->GetWidth() << "x" << d->GetHeight());
    VH_CHECK(memcmp(b->p.get(), b->before.data(), b->size) == 0, "input-modified", "decimate"); b->check("decimate");
    auto l = d->Lock(); uint64_t hsh = 0; std::string err;
    for (uint32_t y = 0; y < d->GetHeight() && err.empty(); ++y) for (uint32_t x = 0; x < d->GetWidth(); ++x)
    {
        bool e = true; for (int j = (int)(2 * y) - n; j <= (int)(2 * y) + n && e; ++j) for (int i = (int)(2 * x) - n; i <= (int)(2 * x) + n; ++i) if (i >= 0 && j >= 0 && i < (int)b->w && j < (int)b->h && !b->get((uint32_t)i, (uint32_t)j)) { e = false; break; }
        bool g = (((const uint8_t*)l.ptrData)[(size_t)y * l.stride + x / 8] >> (7 - x % 8)) & 1; ctx().evals++; hsh = hsh * 31 + g;
        if (e != g) { err = "pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + (g ? "1" : "0"); break; }
    }
    d->Unlock(); VH_CHECK(err.empty(), "decimate-value", ctx().currentDesc << ": " << err); VH_EQ(d->GetLockCount(), 0, "lock-balance", "decimated bitmap");
    ev("decimate-region-" + std::to_string(n)); ctx().seenHash(hsh + b->w * 131 + b->h);
}
static void copyAt(Rng& r)
{
    int st = r.pick({ 0,1,2,3,4 }), dt = r.chance(60) ? st : r.pick({ 0,1,2,3,4 }); uint32_t w = (uint32_t)r.range(1, 40), h = (uint32_t)r.range(1, 14), W = (uint32_t)r.range(1, 60), H = (uint32_t)r.range(1, 20);
    CallerBitmap s(r, st, w, h, r.chance(50) ? 0 : (uint32_t)r.range(1, 9)), d(r, dt, W, H, r.chance(50) ? 0 : (uint32_t)r.range(1, 9));
    s.set(randomImg(r, st, w, h)); Img before = randomImg(r, dt, W, H); d.set(before); std::shared_ptr<Bits> m;
    if (r.chance(70)) { uint32_t mw = r.chance(50) ? w : (uint32_t)r.range(1, 50), mh = r.chance(50) ? h : (uint32_t)r.range(1, 20); m = std::make_shared<Bits>(r, mw, mh, bitPad(r)); }
    IntPoint o{ r.chance(4) ? r.pick({ INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 10 }) : r.range(-(int)w - 2, (int)W + 2), r.chance(4) ? r.pick({ INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 10 }) : r.range(-(int)h - 2, (int)H + 2) };
    if (r.chance(30)) o.x = r.range(-3, 3); if (r.chance(30)) o.y = r.range(-3, 3);
    std::ostringstream ds; ds << "copy " << ptName(st) << " " << w << "x" << h << " to " << ptName(dt) << " " << W << "x" << H << " at " << o.x << "," << o.y; if (m) ds << " mask " << m->w << "x" << m->h; ctx().currentDesc = ds.str();
    if (!convertible(st, dt)) { bool threw = false; try { BitonalBitmapOperations::CopyAt(&s, m.get(), o, &d); } catch (const std::exception&) { threw = true; } (void)threw; s.checkLocks("source"); d.checkLocks("destination"); d.checkPadding("destination"); ev("copy-not-convertible"); return; }
    if (r.chance(2)) { bool threw = false; try { if (r.chance(50)) BitonalBitmapOperations::CopyAt(nullptr, m.get(), o, &d); else BitonalBitmapOperations::CopyAt(&s, m.get(), o, nullptr); } catch (const std::invalid_argument&) { threw = true; } VH_CHECK(threw, "null-accepted", ds.str()); d.checkUnmodified("destination"); d.checkLocks("destination"); s.checkLocks("source"); ev("copy-null-refused"); return; }
    BitonalBitmapOperations::CopyAt(&s, m.get(), o, &d);
    s.checkUnmodified("source"); s.checkLocks("source"); d.checkLocks("destination"); d.checkPadding("destination"); if (m) { m->check("mask"); VH_CHECK(memcmp(m->p.get(), m->before.data(), m->size) == 0, "input-modified", "mask"); }
    Img si = s.img(), di = d.img(); bool any = false;
    for (uint32_t y = 0; y < H; ++y) for (uint32_t x = 0; x < W; ++x)
    {
        int64_t sx = (int64_t)x - o.x, sy = (int64_t)y - o.y; bool c = sx >= 0 && sy >= 0 && sx < w && sy < h; if (c && m) c = sx < m->w && sy < m->h && m->get((uint32_t)sx, (uint32_t)sy); any = any || c; ctx().evals++;
        bool ok = c ? pixelIs(st, si.px((uint32_t)sx, (uint32_t)sy), dt, di.px(x, y)) : memcmp(before.px(x, y), di.px(x, y), bpp(dt)) == 0;
        if (!ok) fail("copy-pixel", ds.str() + ": pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + hex(di.px(x, y), bpp(dt)) + (c ? ", source pixel " + hex(si.px((uint32_t)sx, (uint32_t)sy), bpp(st)) : ", must be unchanged"));
    }
    ev(any ? (m ? "copy-masked" : "copy") : "copy-nothing"); ctx().seenHash(hash64(di.d.data(), di.d.size(), W));
}
static void resize(Rng& r)
{
    int pt = r.pick({ 0,1,2,3,4,9 }); uint32_t w = (uint32_t)r.range(1, 30), h = (uint32_t)r.range(1, 16), W = (uint32_t)r.range(1, 60), H = (uint32_t)r.range(1, 30); if (r.chance(15)) { W = w; H = h; }
    CallerBitmap s(r, pt, w, h, r.chance(50) ? 0 : (uint32_t)r.range(1, 9)); Img si = randomImg(r, pt, w, h); s.set(si); bool full = r.chance(50); DblRect a{ 0,0,(double)w,(double)h }, b{ 0,0,(double)W,(double)H };
    if (!full)
    {
        auto part = [&](double n) { double x = r.chance(70) ? r.unit() * n : r.unit() * 3 * n - n; return r.chance(50) ? std::floor(x) : x; }; auto ext = [&](double n) { double x = r.unit() * n * 1.3 + 0.25; return r.chance(50) ? std::ceil(x) : x; };
        if (r.chance(70)) a = DblRect{ part(w), part(h), ext(w), ext(h) }; if (r.chance(70)) b = DblRect{ part(W), part(H), ext(W), ext(H) };
        if (r.chance(4)) { (r.chance(50) ? a : b).w = r.pick({ 0.0, -1.0, -0.0 }); }
    }
    std::ostringstream ds; ds << "resize " << ptName(pt) << " " << w << "x" << h << " to " << W << "x" << H; if (!full) ds << " from (" << a.x << "," << a.y << "," << a.w << "," << a.h << ") to (" << b.x << "," << b.y << "," << b.w << "," << b.h << ")"; ctx().currentDesc = ds.str();
    auto g = full ? Utils::NearestNeighborResize(&s, (int)W, (int)H) : Utils::NearestNeighborResize(&s, (int)W, (int)H, a, b);
    s.checkUnmodified("source"); s.checkLocks("source"); VH_EQ(g->GetLockCount(), 0, "lock-balance", "resized bitmap");
    Img gi = fromBitmap(g.get()); VH_CHECK(gi.w == W && gi.h == H && gi.pt == pt, "resize-size", ds.str() << " gives " << describe(gi));
    if (a.w <= 0 || b.w <= 0) { for (size_t i = 0; i < gi.d.size(); ++i) VH_CHECK(gi.d[i] == 0 || (pt == 9 && i % 4 == 3), "resize-empty", ds.str()); ev("resize-empty"); return; }
    double sx = a.w / b.w, sy = a.h / b.h; bool any = false;
    for (uint32_t y = 0; y < H; ++y) for (uint32_t x = 0; x < W; ++x)
    {
        double px = (x - b.x) * sx + a.x, py = (y - b.y) * sy + a.y; const double e = 1e-6; ctx().evals++;
        bool sure = full || (px >= e && px <= w - e && py >= e && py <= h - e && x >= b.x && y >= b.y && x + 1 <= b.x + b.w && y + 1 <= b.y + b.h);
        bool maybe = sure || (px > -1 - sx && px < w + 1 + sx && py > -1 - sy && py < h + 1 + sy && x > b.x - 1 && y > b.y - 1 && x < b.x + b.w + 1 && y < b.y + b.h + 1);
        bool ok = false; auto cl = [](double v, uint32_t n) { return (int)std::min((double)n - 1, std::max(0.0, v)); }; const double m = 1.0001;
        if (maybe) for (int j = cl(std::ceil(py - m), h); j <= cl(std::floor(py + m), h) && !ok; ++j) for (int i = cl(std::ceil(px - m), w); i <= cl(std::floor(px + m), w) && !ok; ++i) ok = memcmp(si.px((uint32_t)i, (uint32_t)j), gi.px(x, y), bpp(pt)) == 0;
        if (!ok && !sure) { ok = true; for (int k = 0; k < bpp(pt); ++k) if (gi.px(x, y)[k] != 0 && !(pt == 9 && k == 3)) ok = false; }
        any = any || sure;
        if (!ok) fail("resize-pixel", ds.str() + ": pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + hex(gi.px(x, y), bpp(pt)) + (sure ? ", must be a source pixel near (" : maybe ? ", must be background or a source pixel near (" : ", must be background (") + std::to_string(px) + "," + std::to_string(py) + ")");
    }
    ev(full ? "resize-full" : any ? "resize-roi" : "resize-roi-nothing"); ctx().seenHash(hash64(gi.d.data(), gi.d.size(), W));
}
static void fillBitmap(Rng& r)
{
    int pt = r.pick({ 0,1,2,3,4,9 }); uint32_t w = (uint32_t)r.range(1, 30), h = (uint32_t)r.range(1, 12); CallerBitmap b(r, pt, w, h, r.chance(50) ? 0 : (uint32_t)r.range(1, 9));
    auto v = [&]() { switch (r.below(6)) { case 0: return 0.f; case 1: return 1.f; case 2: return (float)r.unit() * 3 - 1; case 3: return r.pick({ -1e9f, 1e9f, 0.5f }); default: return (float)r.unit(); } }; Back c; c.set = true; c.c = RgbFloatColor{ v(), v(), v() };
    std::ostringstream ds; ds << "fill " << ptName(pt) << " with " << c.c.r << "," << c.c.g << "," << c.c.b; ctx().currentDesc = ds.str();
    Utils::FillBitmap(&b, c.c); b.checkLocks("filled"); b.checkPadding("filled"); Img g = b.img();
    for (uint32_t y = 0; y < h; ++y) for (uint32_t x = 0; x < w; ++x)
    {
        const uint8_t* p = g.px(x, y); ctx().evals++; bool ok = pt <= 2 && (std::fabs(c.c.r) > 10 || std::fabs(c.c.g) > 10 || std::fabs(c.c.b) > 10) ? true : pt == 9 ? isBack(c, 3, p) && p[3] == 255 : isBack(c, pt, p);
        if (!ok) fail("fill-pixel", ds.str() + ": pixel is " + hex(p, bpp(pt)));
    }
    ev("fill-bitmap"); ctx().seenHash(hash64(g.d.data(), (size_t)bpp(pt), (uint64_t)pt));
}
// ---- MD5 by RFC 1321 --------------------------------------------------------------------------------------------------
static std::array<uint8_t, 16> md5(const Bytes& in)
{
    static const int S[64] = { 7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21 };
    static uint32_t K[64]; if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = (uint32_t)(std::fabs(std::sin((double)i + 1)) * 4294967296.0);
    Bytes m = in; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); uint64_t bits = in.size() * 8ull; for (int i = 0; i < 8; ++i) m.push_back((uint8_t)(bits >> (8 * i)));
    uint32_t a0 = 0x67452301, b0 = 0xefcdab89, c0 = 0x98badcfe, d0 = 0x10325476;
    for (size_t o = 0; o < m.size(); o += 64)
    {
        uint32_t W[16]; memcpy(W, &m[o], 64); uint32_t A = a0, B = b0, C = c0, D = d0;
        for (int i = 0; i < 64; ++i) { uint32_t F; int g; if (i < 16) { F = (B & C) | (~B & D); g = i; } else if (i < 32) { F = (D & B) | (~D & C); g = (5 * i + 1) % 16; } else if (i < 48) { F = B ^ C ^ D; g = (3 * i + 5) % 16; } else { F = C ^ (B | ~D); g = (7 * i) % 16; } F += A + K[i] + W[g]; A = D; D = C; C = B; B += (F << S[i]) | (F >> (32 - S[i])); }
        a0 += A; b0 += B; c0 += C; d0 += D;
    }
    std::array<uint8_t, 16> h; memcpy(&h[0], &a0, 4); memcpy(&h[4], &b0, 4); memcpy(&h[8], &c0, 4); memcpy(&h[12], &d0, 4); return h;
}
static void hashes(Rng& r)
{
    Bytes h(16 + r.below(9)); Bytes before = r.bytes(h.size()); std::array<uint8_t, 16> e; ctx().currentDesc = "md5";
    auto h1 = std::unique_ptr<uint8_t[]>(new uint8_t[h.size()]); memcpy(h1.get(), before.data(), before.size()); int n;
    if (r.chance(50)) { Bytes d = r.bytes(r.chance(50) ? r.below(200) : r.below(20) + 64 * r.below(4) + 50); auto p = std::unique_ptr<uint8_t[]>(new uint8_t[d.size()]); if (!d.empty()) memcpy(p.get(), d.data(), d.size()); e = md5(d); n = Utils::CalcMd5SumHash(p.get(), d.size(), h1.get(), (int)h.size()); ctx().seenHash(hash64(d.data(), d.size())); }
    else { int pt = r.pick({ 0,1,2,3,4,8,9 }); CallerBitmap b(r, pt, (uint32_t)r.range(1, 30), (uint32_t)r.range(1, 12), (uint32_t)r.range(0, 8)); e = md5(b.img().d); n = Utils::CalcMd5SumHash(&b, h1.get(), (int)h.size()); b.checkLocks("hashed"); b.checkUnmodified("hashed"); ctx().seenHash(hash64(e.data(), 16)); }
    VH_EQ(n, 16, "md5-size", "returned size"); VH_CHECK(memcmp(h1.get(), e.data(), 16) == 0, "md5", "got " << hex(h1.get(), 16) << " expected " << hex(e.data(), 16)); VH_CHECK(memcmp(h1.get() + 16, before.data() + 16, before.size() - 16) == 0, "md5-overrun", "bytes behind the hash were modified");
    bool threw = false; uint8_t small[15]; try { uint8_t c = 0; Utils::CalcMd5SumHash(&c, 1, small, r.range(0, 15)); } catch (const std::exception&) { threw = true; } VH_CHECK(threw, "md5-small", "a too small buffer was accepted"); ev("md5");
}
static void rects(Rng& r)
{
    auto q = [&]() { auto c = [&]() { return r.chance(6) ? r.pick({ INT_MIN, INT_MAX, INT_MIN + 5, INT_MAX - 5 }) : r.range(-20, 20); }; auto e = [&]() { return r.chance(6) ? r.pick({ INT_MAX, INT_MAX - 9, 0, 0, 1 }) : r.range(0, 25); }; return IntRect{ c(), c(), e(), e() }; };
    for (int k = 0; k < 20; ++k)
    {
        IntRect a = q(), b = q(); ctx().currentDesc = "rectangles (" + rs(a) + ") (" + rs(b) + ")";
        int64_t x1 = std::max(a.x, b.x), y1 = std::max(a.y, b.y), x2 = std::min((int64_t)a.x + a.w, (int64_t)b.x + b.w), y2 = std::min((int64_t)a.y + a.h, (int64_t)b.y + b.h); bool e = x2 > x1 && y2 > y1;
        VH_CHECK(a.IsValid() && a.IsNonEmpty() == (a.w > 0 && a.h > 0), "rect", ctx().currentDesc);
        if (a.IsNonEmpty() && b.IsNonEmpty()) { VH_EQ(a.IntersectsWith(b), e, "rect-intersects", ctx().currentDesc); VH_EQ(b.IntersectsWith(a), e, "rect-intersects", ctx().currentDesc); }
        IntRect i = r.chance(50) ? a.Intersect(b) : IntRect::Intersect(b, a);
        if (e) { VH_CHECK(i.x == x1 && i.y == y1 && i.w == x2 - x1 && i.h == y2 - y1, "rect-intersection", ctx().currentDesc << " gives " << rs(i)); ev("rect-intersect"); } else { VH_CHECK(!i.IsNonEmpty(), "rect-intersection", ctx().currentDesc << " gives " << rs(i)); ev("rect-disjoint"); }
        ctx().seen(rs(i));
    }
}
static void oneCase(Rng& r, uint64_t)
{
    switch (r.below(12)) { case 0: case 1: case 2: bitOps(r); break; case 3: case 4: case 5: decimate(r); break; case 6: case 7: copyAt(r); break; case 8: case 9: resize(r); break; case 10: if (r.chance(50)) fillBitmap(r); else hashes(r); break; default: rects(r); break; }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C18", Options{ 40000, 600000 }, oneCase); }
