// Bitmaps as plain pixel arrays, caller bitmaps with guards and lock accounting, random pixel content.
#pragma once
#include "doc.hpp"

namespace pix
{
    using vh::Rng; using doc::Bytes; using doc::bpp; using libCZI::PixelType;

    /// w*h pixels, tightly packed
    struct Img
    {
        int pt = 0; uint32_t w = 0, h = 0; Bytes d;
        Img() {}
        Img(int pt, uint32_t w, uint32_t h) : pt(pt), w(w), h(h), d((size_t)w * h * bpp(pt)) {}
        size_t line() const { return (size_t)w * bpp(pt); }
        uint8_t* px(uint32_t x, uint32_t y) { return d.data() + y * line() + (size_t)x * bpp(pt); }
        const uint8_t* px(uint32_t x, uint32_t y) const { return d.data() + y * line() + (size_t)x * bpp(pt); }
        bool operator==(const Img& o) const { return pt == o.pt && w == o.w && h == o.h && d == o.d; }
    };
    inline std::string ptName(int pt) { static const char* n[] = { "Gray8","Gray16","Gray32Float","Bgr24","Bgr48","?","?","?","Bgr96Float","Bgra32" }; return pt >= 0 && pt < 10 ? n[pt] : std::to_string(pt); }

    inline void fillRandom(Rng& r, Img& m)
    {
        switch (r.below(5))
        {
        case 0: m.d = r.bytes(m.d.size()); break;
        case 1: { Bytes one = r.bytes(12); for (size_t i = 0; i < m.d.size(); ++i) m.d[i] = one[i % bpp(m.pt)]; } break;
        case 2: for (uint32_t y = 0; y < m.h; ++y) for (size_t x = 0; x < m.line(); ++x) m.d[y * m.line() + x] = (uint8_t)(x * 3 + y * 7); break;
        case 3: { uint8_t v = 0; for (auto& b : m.d) { if (r.below(8) == 0) v = (uint8_t)r.next(); b = v; } } break;
        default: for (auto& b : m.d) b = r.chance(50) ? 0 : 255; break;
        }
        if (m.pt == (int)PixelType::Gray32Float || m.pt == (int)PixelType::Bgr96Float) // no NaNs etc. -> values stay comparable
            for (size_t i = 0; i + 4 <= m.d.size(); i += 4) { float f = (float)(r.range(-100000, 100000)) / 16.0f; memcpy(&m.d[i], &f, 4); }
    }
    inline Img randomImg(Rng& r, int pt, uint32_t w, uint32_t h) { Img m(pt, w, h); fillRandom(r, m); return m; }

    /// The same pixels laid out with a stride in an exactly sized heap block (the last line is not padded), the padding is noise.
    struct Strided
    {
        std::unique_ptr<uint8_t[]> p; size_t size = 0; uint32_t stride = 0; Bytes noise;
        Strided(Rng& r, const Img& m, uint32_t pad)
        {
            stride = (uint32_t)m.line() + pad; size = m.h == 0 ? 0 : (size_t)stride * (m.h - 1) + m.line();
            p.reset(new uint8_t[size]); noise = r.bytes(size); memcpy(p.get(), noise.data(), size);
            for (uint32_t y = 0; y < m.h; ++y) memcpy(p.get() + (size_t)y * stride, m.d.data() + y * m.line(), m.line());
        }
    };

    inline Img fromBitmap(libCZI::IBitmapData* b)
    {
        Img m((int)b->GetPixelType(), b->GetWidth(), b->GetHeight());
        libCZI::ScopedBitmapLocker<libCZI::IBitmapData*> l{ b };
        for (uint32_t y = 0; y < m.h; ++y) if (m.line()) memcpy(m.d.data() + y * m.line(), (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, m.line());
        return m;
    }
    inline std::string describe(const Img& m) { return ptName(m.pt) + " " + std::to_string(m.w) + "x" + std::to_string(m.h); }
    /// Explains the first difference; `tol` is a tolerance per component (integer types) .
    inline std::string diff(const Img& e, const Img& g)
    {
        std::ostringstream o;
        if (e.pt != g.pt || e.w != g.w || e.h != g.h) { o << "expected " << describe(e) << ", got " << describe(g); return o.str(); }
        size_t n = 0; for (size_t i = 0; i < e.d.size(); ++i) if (e.d[i] != g.d[i]) { if (!n) { size_t px = i / bpp(e.pt); o << "first difference at pixel (" << px % e.w << "," << px / e.w << "): expected " << vh::hex(e.px(px % e.w, px / e.w), bpp(e.pt)) << ", got " << vh::hex(g.px(px % e.w, px / e.w), bpp(e.pt)); } ++n; }
        o << "; " << n << " of " << e.d.size() << " bytes differ"; return o.str();
    }

    /// A caller-provided bitmap: arbitrary stride, exactly sized block (last line unpadded), guard content in the padding, counts locks.
    struct CallerBitmap : libCZI::IBitmapData
    {
        PixelType pt; uint32_t w, h, stride; size_t size; std::unique_ptr<uint8_t[]> p; Bytes before; std::atomic<int> locks{ 0 }; std::atomic<int> lockCalls{ 0 }; bool underflow = false;
        CallerBitmap(Rng& r, int pixelType, uint32_t w, uint32_t h, uint32_t pad) : pt((PixelType)pixelType), w(w), h(h)
        {
            size_t line = (size_t)w * bpp(pixelType); stride = (uint32_t)line + pad; size = h ? (size_t)stride * (h - 1) + line : 0;
            p.reset(new uint8_t[size]); before = r.bytes(size); memcpy(p.get(), before.data(), size);
        }
        PixelType GetPixelType() const override { return pt; }
        libCZI::IntSize GetSize() const override { return { w, h }; }
        libCZI::BitmapLockInfo Lock() override { ++locks; ++lockCalls; libCZI::BitmapLockInfo b; b.ptrData = p.get(); b.ptrDataRoi = p.get(); b.stride = stride; b.size = size; return b; }
        void Unlock() override { if (--locks < 0) underflow = true; }
        int GetLockCount() const override { return locks; }
        Img img() const { Img m((int)pt, w, h); for (uint32_t y = 0; y < h; ++y) memcpy(m.d.data() + y * m.line(), p.get() + (size_t)y * stride, m.line()); return m; }
        void set(const Img& m) { for (uint32_t y = 0; y < h; ++y) memcpy(p.get() + (size_t)y * stride, m.d.data() + y * m.line(), m.line()); before.assign(p.get(), p.get() + size); }
        void checkPadding(const char* who) const
        {
            size_t line = (size_t)w * bpp((int)pt);
            for (uint32_t y = 0; y + 1 < h; ++y) VH_CHECK(memcmp(p.get() + (size_t)y * stride + line, before.data() + (size_t)y * stride + line, stride - line) == 0, "padding-touched", who << ": bytes behind line " << y << " were modified");
        }
        void checkLocks(const char* who) const { VH_CHECK(locks == 0 && !underflow, "lock-balance", who << ": lock count " << locks << (underflow ? " (unlocked more often than locked)" : "")); }
        void checkUnmodified(const char* who) const { VH_CHECK(memcmp(p.get(), before.data(), size) == 0, "input-modified", who << ": the bitmap was modified"); }
    };
}
