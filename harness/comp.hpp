// Tiled documents with known pixels and the by-definition reference for single-channel compositions.
#pragma once
#include "pix.hpp"
#include <zstd.h>

namespace comp
{
    using namespace vh; using namespace pix; using namespace doc;
    using libCZI::IntRect; using libCZI::CDimCoordinate; using libCZI::RgbFloatColor;

    struct Mask
    {
        uint32_t w = 0, h = 0, stride = 0; Bytes bits;
        bool get(int x, int y) const { if (x < 0 || y < 0 || (uint32_t)x >= w || (uint32_t)y >= h) return false; return (bits[(size_t)y * stride + x / 8] >> (7 - x % 8)) & 1; }
    };
    struct Tile { Sb sb; Img img; bool hasMask = false; Mask mask; int layer = 0; };

    struct TileGen
    {
        int maxTiles = 10; bool layers = false; int factor = 2; int maxLayer = 0; bool scenes = true; bool masks = false; bool compress = true;
        int extent = 60; int maxSize = 24; bool mixedTypes = true; int align = 1; bool bigOffsets = true; bool wholePyramid = false; bool oddSizes = false; std::vector<int> types{ 0,1,2,3,4 };
    };
    struct TileDoc
    {
        std::vector<Tile> t; std::vector<int> dims; bool scenes = false; bool mixed = false; int ox = 0, oy = 0; vh::MemFileP file;
        std::map<int, std::pair<int, int>> bounds; // dimension -> min,max (without S)
    };

    inline Bytes zstdBytes(const Bytes& b) { Bytes o(ZSTD_compressBound(b.size())); size_t n = ZSTD_compress(o.data(), o.size(), b.data(), b.size(), 1); o.resize(n); return o; }
    inline void put32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
    inline Bytes maskGuid() { return { 0x67,0xEA,0xE3,0xCB, 0xFC,0x5B, 0x2B,0x49, 0xA1,0x6A,0xEC,0xE3,0x78,0x03,0x14,0x48 }; }
    inline std::string chunkXml() { return "<METADATA><Tags><StageXPosition>1.5</StageXPosition></Tags><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>"; }
    inline void setMask(Rng& r, Tile& t)
    {
        Mask m; int pw = t.sb.pw, ph = t.sb.ph;
        m.w = (uint32_t)pw; m.h = (uint32_t)ph;
        if (r.chance(30)) m.w = (uint32_t)std::max(1, pw + r.range(-9, 9));
        if (r.chance(30)) m.h = (uint32_t)std::max(1, ph + r.range(-5, 5));
        uint32_t minStride = (m.w + 7) / 8; m.stride = minStride + (r.chance(40) ? (uint32_t)r.range(1, 9) : 0);
        m.bits = Bytes((size_t)m.stride * (m.h - 1) + (r.chance(50) ? minStride : m.stride));
        switch (r.below(5))
        {
        case 0: std::fill(m.bits.begin(), m.bits.end(), (uint8_t)0xff); break;
        case 1: std::fill(m.bits.begin(), m.bits.end(), (uint8_t)0); break;
        case 2: for (auto& b : m.bits) b = (uint8_t)r.next(); break;
        case 3: for (uint32_t y = 0; y < m.h; ++y) for (uint32_t x = 0; x < m.w; ++x) if (((x / 3) ^ (y / 2)) & 1) m.bits[(size_t)y * m.stride + x / 8] |= (uint8_t)(0x80 >> (x % 8)); break;
        default: { int cut = r.range(0, (int)m.w); for (uint32_t y = 0; y < m.h; ++y) for (uint32_t x = 0; x < m.w; ++x) if ((int)x < cut) m.bits[(size_t)y * m.stride + x / 8] |= (uint8_t)(0x80 >> (x % 8)); } break;
        }
        t.hasMask = true; t.mask = m;
        Bytes a;
        auto junk = [&]() { Bytes g = r.bytes(16); a.insert(a.end(), g.begin(), g.end()); uint32_t n = (uint32_t)r.range(1, 40); put32(a, n); Bytes d = r.bytes(n); a.insert(a.end(), d.begin(), d.end()); };
        if (r.chance(35)) for (int k = r.range(1, 3); k > 0; --k) junk();
        Bytes g = maskGuid(); a.insert(a.end(), g.begin(), g.end()); put32(a, (uint32_t)(16 + m.bits.size())); put32(a, m.w); put32(a, m.h); put32(a, 0); put32(a, m.stride); a.insert(a.end(), m.bits.begin(), m.bits.end());
        if (r.chance(25)) junk();
        t.sb.att = a; std::string x = chunkXml(); t.sb.md.assign(x.begin(), x.end());
    }
    inline void encode(Rng& r, Tile& t, bool compress)
    {
        t.sb.data = t.img.d; t.sb.comp = 0;
        if (compress && r.chance(40))
        {
            if (r.chance(40)) { t.sb.comp = 5; t.sb.data = zstdBytes(t.img.d); }
            else if ((t.sb.pt == 1 || t.sb.pt == 4) && r.chance(60)) { Bytes q(t.img.d.size()); size_t half = q.size() / 2; for (size_t i = 0; i < half; ++i) { q[i] = t.img.d[2 * i]; q[half + i] = t.img.d[2 * i + 1]; } t.sb.comp = 6; t.sb.data = zstdBytes(q); Bytes h{ 3,1,1 }; t.sb.data.insert(t.sb.data.begin(), h.begin(), h.end()); }
            else { t.sb.comp = 6; t.sb.data = zstdBytes(t.img.d); t.sb.data.insert(t.sb.data.begin(), (uint8_t)1); }
        }
    }
    inline TileDoc makeTiles(Rng& r, const TileGen& g)
    {
        TileDoc d;
        std::vector<int> cand{ 1,2,3,4,6,7,8,9 }; r.shuffle(cand);
        int nd = r.chance(50) ? 0 : r.range(1, 2); d.dims.assign(cand.begin(), cand.begin() + nd);
        if (r.chance(70) && !std::count(d.dims.begin(), d.dims.end(), 2)) d.dims.push_back(2);
        std::sort(d.dims.begin(), d.dims.end());
        d.scenes = g.scenes && r.chance(50);
        d.mixed = g.mixedTypes && r.chance(20);
        std::map<int, int> typeOfChannel; int baseType = r.pick(g.types);
        std::map<int, int> start, len; for (int k : d.dims) { start[k] = r.chance(80) ? 0 : r.range(-3, 5); len[k] = r.chance(60) ? 1 : r.range(2, 3); }
        if (g.bigOffsets && r.chance(25)) { d.ox = r.range(-500000, 500000); d.oy = r.range(-500000, 500000); }
        d.ox = d.ox / g.align * g.align; d.oy = d.oy / g.align * g.align;
        int n = r.range(1, g.maxTiles); int mBase = r.range(0, 20); bool withM = r.chance(85);
        std::map<std::string, int> nextM; std::vector<int> ms; for (int i = 0; i < n * 6 + 8; ++i) ms.push_back(mBase + i); r.shuffle(ms);
        int mi = 0;
        auto addTile = [&](int layer, int forceScene, const std::map<int, int>* plane, int fx, int fy, int fw, int fh)
        {
            Tile t; t.layer = layer; int f = 1; for (int k = 0; k < layer; ++k) f *= g.factor;
            for (int k : d.dims) t.sb.coord[k] = plane ? plane->at(k) : start[k] + r.range(0, len[k] - 1);
            if (d.scenes) t.sb.coord[(int)DimensionIndex::S] = forceScene >= 0 ? forceScene : r.range(0, 2);
            int c = t.sb.at(DimensionIndex::C, 0);
            if (!typeOfChannel.count(c)) typeOfChannel[c] = r.chance(60) ? baseType : r.pick(g.types);
            t.sb.pt = d.mixed ? r.pick(g.types) : typeOfChannel[c];
            if (fw > 0) { t.sb.pw = fw; t.sb.ph = fh; t.sb.x = fx; t.sb.y = fy; }
            else
            {
                t.sb.pw = r.range(1, g.maxSize); t.sb.ph = r.range(1, g.maxSize);
                t.sb.x = d.ox + r.range(-g.extent, g.extent) / g.align * g.align; t.sb.y = d.oy + r.range(-g.extent, g.extent) / g.align * g.align;
            }
            t.sb.w = t.sb.pw * f; t.sb.h = t.sb.ph * f;
            if (g.oddSizes && layer > 0 && r.chance(40)) { t.sb.w -= r.range(0, std::min(f - 1, t.sb.pw * 2 / 5)); t.sb.h -= r.range(0, std::min(f - 1, t.sb.ph * 2 / 5)); } // the stored size is the logical one divided by the scale, rounded up
            t.sb.pyr = layer ? 2 : 0;
            t.sb.mValid = withM && !r.chance(8); if (t.sb.mValid) t.sb.m = ms[mi++];
            t.img = Img(t.sb.pt, (uint32_t)t.sb.pw, (uint32_t)t.sb.ph); t.img.d = r.bytes(t.img.d.size());
            if (t.sb.pt == 2) for (size_t i = 0; i + 4 <= t.img.d.size(); i += 4) { float v = (float)r.range(-100000, 100000) / 16.0f; memcpy(&t.img.d[i], &v, 4); }
            if (g.masks && r.chance(60)) setMask(r, t);
            encode(r, t, g.compress);
            for (auto& o : d.t) if (clash(o.sb, t.sb)) return;
            d.t.push_back(std::move(t));
        };
        for (int i = 0; i < n; ++i) addTile(g.layers && g.maxLayer > 0 && r.chance(50) ? r.range(1, g.maxLayer) : 0, -1, nullptr, 0, 0, 0, 0);
        r.shuffle(d.t);
        for (auto& t : d.t) for (auto& e : t.sb.coord) if (e.first != (int)DimensionIndex::S) { auto it = d.bounds.find(e.first); if (it == d.bounds.end()) d.bounds[e.first] = { e.second, e.second }; else { it->second.first = std::min(it->second.first, e.second); it->second.second = std::max(it->second.second, e.second); } }
        Doc m; m.guid = randomGuid(r); for (auto& t : d.t) m.sb.push_back(t.sb);
        d.file = vh::makeFile(); WriteOpts wo; doc::write(r, m, std::make_shared<vh::MemOut>(d.file), wo);
        return d;
    }
    /// a valid plane coordinate of the document (dimensions of size 1 may be omitted)
    inline std::map<int, int> randomPlane(Rng& r, const TileDoc& d)
    {
        std::map<int, int> p; const Tile& t = d.t[(size_t)r.below(d.t.size())]; bool fromTile = r.chance(85);
        for (auto& b : d.bounds)
        {
            if (b.second.first == b.second.second && r.chance(30)) continue;
            p[b.first] = fromTile ? t.sb.coord.at(b.first) : r.range(b.second.first, b.second.second);
        }
        return p;
    }
    inline CDimCoordinate toCoord(const std::map<int, int>& p) { CDimCoordinate c; for (auto& e : p) c.Set((DimensionIndex)e.first, e.second); return c; }
    inline bool onPlane(const Tile& t, const std::map<int, int>& p) { for (auto& e : p) if (t.sb.coord.at(e.first) != e.second) return false; return true; }
    inline IntRect randomRoi(Rng& r, const TileDoc& d)
    {
        const Tile& t = d.t[(size_t)r.below(d.t.size())];
        if (t.sb.w > 120 || t.sb.h > 120) { if (r.chance(60)) return { t.sb.x - r.range(0, 50), t.sb.y - r.range(0, 50), r.range(150, 400), r.range(100, 300) }; }
        switch (r.chance(40) ? 0 : r.below(6))
        {
        case 0: return { d.ox - r.range(0, 90), d.oy - r.range(0, 90), r.range(100, 220), r.range(100, 220) };
        case 1: return { t.sb.x + r.range(-5, 5), t.sb.y + r.range(-5, 5), r.range(1, 40), r.range(1, 40) };
        case 2: return { t.sb.x + r.range(0, t.sb.w - 1), t.sb.y + r.range(0, t.sb.h - 1), r.range(1, 3), r.range(1, 3) };
        case 3: return { t.sb.x, t.sb.y, t.sb.w, t.sb.h };
        case 4: return { d.ox + r.range(-100, 100), d.oy + r.range(-100, 100), r.range(1, 60), r.range(1, 60) };
        default: return { d.ox + r.range(-3000, 3000), d.oy + r.range(-3000, 3000), r.range(1, 30), r.range(1, 30) };
        }
    }

    // ---- pixel conversion, by definition ---------------------------------------------------------------------------------
    inline bool convertible(int s, int d) { if (s == 2) return d == 2; return (s == 0 || s == 1 || s == 3 || s == 4) && (d == 0 || d == 1 || d == 2 || d == 3 || d == 4); }
    inline uint16_t u16(const uint8_t* p) { uint16_t v; memcpy(&v, p, 2); return v; }
    /// is `g` (pixel type d) what `s` (pixel type st) converts to ?
    inline bool pixelIs(int st, const uint8_t* s, int dt, const uint8_t* g)
    {
        if (st == dt) return memcmp(s, g, bpp(st)) == 0;
        int c[3]; bool colour = st == 3 || st == 4, wide = st == 1 || st == 4;
        for (int i = 0; i < 3; ++i) { int k = colour ? i : 0; c[i] = wide ? u16(s + 2 * k) : s[k]; }
        if (dt == 2) { float f; memcpy(&f, g, 4); double e = colour ? (c[0] + c[1] + c[2]) / 3.0 : c[0]; return std::fabs(f - e) <= 0.02; }
        bool dwide = dt == 1 || dt == 4;
        auto shift = [&](int v) { return wide && !dwide ? v >> 8 : v; };
        if (dt == 3 || dt == 4) { for (int i = 0; i < 3; ++i) { int got = dwide ? u16(g + 2 * i) : g[i]; if (got != shift(c[i])) return false; } return true; }
        int got = dwide ? u16(g) : g[0];
        if (!colour) return got == shift(c[0]);
        int e = shift((c[0] + c[1] + c[2]) / 3); return std::abs(got - e) <= 1;
    }
    struct Back { bool set = false; RgbFloatColor c{ 0,0,0 }; };
    inline Back randomBack(Rng& r, RgbFloatColor& out)
    {
        const float nan = std::numeric_limits<float>::quiet_NaN(); Back b;
        if (r.chance(25)) { out = RgbFloatColor{ nan, nan, nan }; if (r.chance(30)) { out.r = 0.5f; if (r.chance(50)) out.b = 1; } return b; }
        auto v = [&]() { switch (r.below(5)) { case 0: return 0.f; case 1: return 1.f; case 2: return (float)r.unit() * 3 - 1; default: return (float)r.unit(); } };
        b.set = true; b.c = out = RgbFloatColor{ v(), v(), v() }; return b;
    }
    inline bool isBack(const Back& b, int dt, const uint8_t* g)
    {
        auto near8 = [&](int got, double v, int maxv) { double e = std::min((double)maxv, std::max(0.0, v * maxv)); return std::fabs(got - e) <= 0.51 + maxv * 1e-6; };
        double avg = ((double)b.c.r + b.c.g + b.c.b) / 3;
        switch (dt)
        {
        case 0: return near8(g[0], avg, 255);
        case 1: return near8(u16(g), avg, 65535);
        case 2: { float f; memcpy(&f, g, 4); return std::fabs(f - avg) < 1e-5; }
        case 3: return near8(g[0], b.c.b, 255) && near8(g[1], b.c.g, 255) && near8(g[2], b.c.r, 255);
        case 4: return near8(u16(g), b.c.b, 65535) && near8(u16(g + 2), b.c.g, 65535) && near8(u16(g + 4), b.c.r, 65535);
        default: return false;
        }
    }

    inline long long mKey(const Tile* t) { return t->sb.mValid ? (long long)t->sb.m : LLONG_MIN; }
    inline std::string tileName(const Tile& t) { return t.sb.infoKey() + (t.hasMask ? "|mask" + std::to_string(t.mask.w) + "x" + std::to_string(t.mask.h) : ""); }

    /// Judge a composite whose pixels correspond one to one to stored pixels of the tiles (scale = size of a pixel on layer 0).
    /// `before` is the content of the destination before (only needed if there is no background).
    inline void judgeExact(const std::vector<const Tile*>& tiles, const Img& got, const Img* before, int x0, int y0, int scale, bool sortByM, bool maskAware, bool border, const Back& back, const std::string& who, bool scenesAreTies = false)
    {
        int W = (int)got.w, H = (int)got.h; Bytes zero(16, 0);
        std::vector<const Tile*> cov, acc; bool anyTile = false;
        struct Box { const Tile* t; int x, y, w, h; }; std::vector<Box> box;
        for (auto* t : tiles) { long long bx = ((long long)t->sb.x - x0) / scale, by = ((long long)t->sb.y - y0) / scale; if (bx >= W || by >= H || bx < -2000000 || by < -2000000) continue; Box b{ t, (int)bx, (int)by, t->sb.pw, t->sb.ph }; if (b.x < W && b.y < H && b.x + b.w > 0 && b.y + b.h > 0) box.push_back(b); }
        for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x)
        {
            ctx().evals++;
            long long top = LLONG_MIN; bool any = false; bool ok = false; const uint8_t* g = got.px((uint32_t)x, (uint32_t)y);
            std::map<int, long long> topOfScene;
            for (auto& b : box) { int sx = x - b.x, sy = y - b.y; if (sx < 0 || sy < 0 || sx >= b.w || sy >= b.h) continue; if (maskAware && b.t->hasMask && !b.t->mask.get(sx, sy)) continue; any = true; top = std::max(top, mKey(b.t)); int sc = b.t->sb.at(DimensionIndex::S, -1); auto it = topOfScene.emplace(sc, mKey(b.t)).first; it->second = std::max(it->second, mKey(b.t)); }
            if (any)
            {
                anyTile = true; const Tile* ex = nullptr;
                for (auto& b : box)
                {
                    int sx = x - b.x, sy = y - b.y; if (sx < 0 || sy < 0 || sx >= b.w || sy >= b.h) continue; if (maskAware && b.t->hasMask && !b.t->mask.get(sx, sy)) continue;
                    if (sortByM && mKey(b.t) != (scenesAreTies ? topOfScene[b.t->sb.at(DimensionIndex::S, -1)] : top)) continue;
                    ex = b.t;
                    bool edge = sx == 0 || sy == 0 || sx == b.w - 1 || sy == b.h - 1, clipEdge = edge || x == 0 || y == 0 || x == W - 1 || y == H - 1;
                    bool black = memcmp(g, zero.data(), bpp(got.pt)) == 0;
                    if (border && clipEdge && black) { ok = true; break; }
                    if (border && edge && b.t->sb.pt == got.pt) continue;
                    if (pixelIs(b.t->sb.pt, b.t->img.px((uint32_t)sx, (uint32_t)sy), got.pt, g)) { ok = true; break; }
                }
                if (!ok) fail("composite-pixel", who + ": pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + hex(g, bpp(got.pt)) + ", expected (" + ptName(got.pt) + ") the content of tile " + (ex ? tileName(*ex) + " = " + hex(ex->img.px((uint32_t)(x - (ex->sb.x - x0) / scale), (uint32_t)(y - (ex->sb.y - y0) / scale)), bpp(ex->sb.pt)) : "?"));
            }
            else if (back.set) { if (!isBack(back, got.pt, g)) fail("composite-background", who + ": pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + hex(g, bpp(got.pt)) + ", expected the background"); }
            else if (before) { if (memcmp(before->px((uint32_t)x, (uint32_t)y), g, bpp(got.pt))) fail("composite-untouched", who + ": pixel (" + std::to_string(x) + "," + std::to_string(y) + ") was changed although no tile covers it and no background is requested"); }
        }
        ev(anyTile ? "composite-with-tiles" : "composite-empty");
    }
    /// the document as a repository: through the reader, or through the reader-writer
    inline std::shared_ptr<libCZI::ISubBlockRepository> openRepo(Rng& r, const TileDoc& d)
    {
        if (r.chance(70)) { ev("repo-reader"); return doc::openReader(d.file); }
        auto rw = libCZI::CreateCZIReaderWriter(); rw->Create(std::make_shared<vh::MemInOut>(d.file)); ev("repo-rw"); return rw;
    }
    template <typename T> std::shared_ptr<T> accessor(const std::shared_ptr<libCZI::ISubBlockRepository>& repo, libCZI::AccessorType t)
    {
        return std::dynamic_pointer_cast<T>(libCZI::CreateAccesor(repo, t));
    }
    inline std::wstring randomSceneFilter(Rng& r)
    {
        switch (r.below(6)) { case 0: return L"0"; case 1: return L"1"; case 2: return L"0,2"; case 3: return L"1-2"; case 4: return L"0-inf"; default: return L"7"; }
    }
    struct SceneSel { std::shared_ptr<libCZI::IIndexSet> filter; std::wstring text; bool has(int s) const { if (text.empty()) return true; if (text == L"0") return s == 0; if (text == L"1") return s == 1; if (text == L"0,2") return s == 0 || s == 2; if (text == L"1-2") return s == 1 || s == 2; if (text == L"0-inf") return s >= 0; return s == 7; }
        bool has(const Tile& t) const { return !t.sb.has(DimensionIndex::S) || has(t.sb.at(DimensionIndex::S)); } };
    inline SceneSel randomScenes(Rng& r, int percent) { SceneSel s; if (r.chance(percent)) { s.text = randomSceneFilter(r); s.filter = libCZI::Utils::IndexSetFromString(s.text); } return s; }
    template <typename O> void cacheOptions(Rng& r, O& o, std::shared_ptr<libCZI::ISubBlockCache>& cache)
    {
        if (r.chance(40)) { if (!cache) cache = libCZI::CreateSubBlockCache(); o.subBlockCache = cache; o.onlyUseSubBlockCacheForCompressedData = r.chance(50); if (r.chance(15)) { libCZI::ISubBlockCache::PruneOptions p; p.maxSubBlockCount = (uint32_t)r.range(0, 4); cache->Prune(p); } ev("with-cache"); }
    }
    /// a plane coordinate which is not valid for the document (empty: could not make one)
    inline bool invalidPlane(Rng& r, const TileDoc& d, std::map<int, int> p, CDimCoordinate& out, std::string& what)
    {
        for (int k = 0; k < 20; ++k)
        {
            switch (r.below(4))
            {
            case 0: p[(int)DimensionIndex::S] = r.range(0, 2); what = "S given"; break;
            case 1: { int q = r.pick({ 1,2,3,4,6,7,8,9 }); if (d.bounds.count(q)) continue; p[q] = 0; what = "surplus dimension"; } break;
            case 2: { bool f = false; for (auto& b : d.bounds) if (b.second.second > b.second.first) { p.erase(b.first); f = true; break; } if (!f) continue; what = "missing dimension"; } break;
            default: { if (d.bounds.empty()) continue; auto it = d.bounds.begin(); std::advance(it, (long)r.below(d.bounds.size())); p[it->first] = r.chance(50) ? it->second.first - r.range(1, 3) : it->second.second + r.range(1, 3); what = "out of range"; } break;
            }
            out = toCoord(p); return true;
        }
        return false;
    }
    inline int destType(Rng& r, const std::vector<const Tile*>& tiles)
    {
        for (int k = 0; k < 20; ++k) { int t = tiles.empty() || r.chance(50) ? r.pick({ 0,1,2,3,4 }) : tiles[(size_t)r.below(tiles.size())]->sb.pt; bool ok = true; for (auto* q : tiles) ok = ok && convertible(q->sb.pt, t); if (ok) return t; }
        return -1;
    }
    /// Judge a scaled composite: every pixel must show a source pixel (|distance| <= 1 per axis) of an acceptable tile.
    inline void judgeScaled(const std::vector<const Tile*>& tiles, const Img& got, const Img* before, const IntRect& roi, bool sortByM, bool maskAware, const Back& back, const std::string& who)
    {
        int W = (int)got.w, H = (int)got.h; double sx = (double)roi.w / W, sy = (double)roi.h / H; bool any = false;
        struct Cand { const Tile* t; double x0, y0, x1, y1; }; std::vector<Cand> c;
        for (auto* t : tiles) c.push_back({ t, (t->sb.x - (double)roi.x) / sx, (t->sb.y - (double)roi.y) / sy, (t->sb.x + (double)t->sb.w - roi.x) / sx, (t->sb.y + (double)t->sb.h - roi.y) / sy });
        const double m = 1.1;
        for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x)
        {
            ctx().evals++; const uint8_t* g = got.px((uint32_t)x, (uint32_t)y); double lx = roi.x + x * sx, ly = roi.y + y * sy;
            std::map<int, long long> defTop; bool definite = false, possible = false, ok = false; std::string names;
            auto range = [&](const Cand& q, int& ix0, int& ix1, int& iy0, int& iy1)
            {
                const Sb& b = q.t->sb; double px = (lx - b.x) * b.pw / b.w, py = (ly - b.y) * b.ph / b.h; const double e = 1.0001;
                auto cl = [](double v, int n) { return (int)std::min((double)(n - 1), std::max(0.0, v)); };
                ix0 = cl(std::ceil(px - e), b.pw); ix1 = cl(std::floor(px + e), b.pw); iy0 = cl(std::ceil(py - e), b.ph); iy1 = cl(std::floor(py + e), b.ph);
            };
            auto sceneOf = [](const Cand& q) { return q.t->sb.at(DimensionIndex::S, -1); };
            for (auto& q : c)
            {
                if (x < q.x0 - m || x > q.x1 + m || y < q.y0 - m || y > q.y1 + m) continue;
                int ix0, ix1, iy0, iy1; range(q, ix0, ix1, iy0, iy1); bool all = true;
                if (maskAware && q.t->hasMask) for (int j = iy0; j <= iy1; ++j) for (int i = ix0; i <= ix1; ++i) all = all && q.t->mask.get(i, j);
                if (all && x >= q.x0 + 0.01 && x <= q.x1 - m && y >= q.y0 + 0.01 && y <= q.y1 - m) { definite = true; auto it = defTop.emplace(sceneOf(q), LLONG_MIN).first; it->second = std::max(it->second, sortByM && q.t->sb.layer0() ? mKey(q.t) : LLONG_MIN); }
            }
            for (auto& q : c)
            {
                if (x < q.x0 - m || x > q.x1 + m || y < q.y0 - m || y > q.y1 + m) continue;
                int ix0, ix1, iy0, iy1; range(q, ix0, ix1, iy0, iy1); bool anyBit = false;
                auto it = defTop.find(sceneOf(q)); bool hidden = it != defTop.end() && sortByM && q.t->sb.layer0() && mKey(q.t) < it->second;
                for (int j = iy0; j <= iy1 && !ok; ++j) for (int i = ix0; i <= ix1 && !ok; ++i)
                {
                    if (maskAware && q.t->hasMask && !q.t->mask.get(i, j)) continue; anyBit = true; if (hidden) continue;
                    ok = pixelIs(q.t->sb.pt, q.t->img.px((uint32_t)i, (uint32_t)j), got.pt, g);
                }
                if (anyBit) possible = true; if (!hidden) names += tileName(*q.t) + "; ";
            }
            if (definite) any = true;
            if (ok) continue;
            bool isUncovered = back.set ? isBack(back, got.pt, g) : before ? memcmp(before->px((uint32_t)x, (uint32_t)y), g, bpp(got.pt)) == 0 : true;
            if (definite || !isUncovered) fail(possible ? "scaled-pixel" : "scaled-background", who + ": pixel (" + std::to_string(x) + "," + std::to_string(y) + ") of " + describe(got) + " is " + hex(g, bpp(got.pt)) + (definite ? ", must show a tile out of: " : ", expected the background or one of: ") + names);
        }
        ev(any ? "scaled-with-tiles" : "scaled-empty");
    }
    /// The tiles a scaled composition has to be made of (per scene: the layer with the smallest zoom which is still sufficient); false if the
    /// zoom is too close to a decision boundary.
    inline bool tilesForZoom(const TileDoc& d, const std::map<int, int>& plane, const IntRect& roi, double zoom, const SceneSel& sel, std::vector<const Tile*>& out)
    {
        std::map<int, double> best; out.clear();
        auto in = [&](const Tile& t) { return onPlane(t, plane) && sel.has(t) && (int64_t)t.sb.x < (int64_t)roi.x + roi.w && (int64_t)t.sb.y < (int64_t)roi.y + roi.h && (int64_t)t.sb.x + t.sb.w > roi.x && (int64_t)t.sb.y + t.sb.h > roi.y; };
        for (auto& t : d.t)
        {
            if (!in(t)) continue; double z = t.sb.zoom(); double q = zoom / z; if (q > 1.005 && q < 1.1) return false;
            if (q > 1.05) continue; int s = t.sb.at(DimensionIndex::S, -1); auto it = best.find(s); if (it == best.end()) best[s] = z; else it->second = std::min(it->second, z);
        }
        for (auto& t : d.t) if (in(t)) { auto it = best.find(t.sb.at(DimensionIndex::S, -1)); if (it == best.end()) continue; double q = t.sb.zoom() / it->second; if (q > 1.0001 && q < 1.99) return false; if (q > 0.9999 && q < 1.0001) out.push_back(&t); }
        return true;
    }
}
