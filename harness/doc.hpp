// Model of a CZI-document, random documents, drivers which hand a model to the library, and the comparison of what the
// library reports with a model.
#pragma once
#include "vh.hpp"
#include "memio.hpp"
#include "czi.hpp"

namespace doc
{
    using vh::Rng;
    using Bytes = std::vector<uint8_t>;
    using libCZI::DimensionIndex;
    using libCZI::PixelType;

    inline const char* kDims = "?ZCTRSIHVB";
    static const int kNoM = (std::numeric_limits<int>::min)();

    struct Sb
    {
        std::map<int, int> coord; // dimension -> value
        bool mValid = false; int m = 0;
        int x = 0, y = 0, w = 1, h = 1, pw = 1, ph = 1;
        int pt = 0; int pyr = 0; int32_t comp = 0;
        Bytes data, md, att;
        bool layer0() const { return w == pw && h == ph; }
        double zoom() const { return pw > ph ? (double)pw / w : (double)ph / h; }
        libCZI::CDimCoordinate dimCoord() const { libCZI::CDimCoordinate c; for (auto& e : coord) c.Set((DimensionIndex)e.first, e.second); return c; }
        bool has(DimensionIndex d) const { return coord.count((int)d) != 0; }
        int at(DimensionIndex d, int def = 0) const { auto it = coord.find((int)d); return it == coord.end() ? def : it->second; }
        std::string infoKey() const
        {
            std::ostringstream o;
            for (auto& e : coord) o << kDims[e.first] << e.second;
            o << "|M"; if (mValid) o << m; else o << "-";
            o << "|" << x << "," << y << "," << w << "x" << h << "/" << pw << "x" << ph << "|pt" << pt << "|c" << comp << "|py" << pyr;
            return o.str();
        }
        std::string key() const
        {
            std::ostringstream o; o << infoKey() << "|d" << data.size() << ":" << std::hex << vh::hash64(data.data(), data.size()) << "|m" << std::dec << md.size() << ":" << std::hex << vh::hash64(md.data(), md.size()) << "|a" << std::dec << att.size() << ":" << std::hex << vh::hash64(att.data(), att.size());
            return o.str();
        }
    };
    struct At
    {
        libCZI::GUID guid; std::string type, name; Bytes data;
        std::string infoKey() const
        {
            std::ostringstream o; o << std::hex << guid.Data1 << "-" << guid.Data2 << "-" << guid.Data3; for (auto c : guid.Data4) o << "-" << (int)c; o << "|" << type << "|" << name; return o.str();
        }
        std::string key() const { std::ostringstream o; o << infoKey() << "|" << data.size() << ":" << std::hex << vh::hash64(data.data(), data.size()); return o.str(); }
    };
    struct Doc
    {
        std::vector<Sb> sb; std::vector<At> at;
        bool hasMd = false; std::string xml; Bytes mdAtt;
        libCZI::GUID guid{ 0,0,0,{0,0,0,0,0,0,0,0} };
    };

    inline bool guidEq(const libCZI::GUID& a, const libCZI::GUID& b) { return memcmp(&a, &b, sizeof(a)) == 0; }
    inline libCZI::GUID randomGuid(Rng& r) { libCZI::GUID g; Bytes b = r.bytes(16); memcpy(&g.Data1, &b[0], 4); memcpy(&g.Data2, &b[4], 2); memcpy(&g.Data3, &b[6], 2); memcpy(g.Data4, &b[8], 8); if (r.chance(6)) g.Data1 = 0; if (r.chance(6)) { g.Data2 = g.Data3 = 0; } if (r.chance(6)) memset(g.Data4, 0, 7); if (g.Data4[7] == 0) g.Data4[7] = 1; return g; }

    inline int bpp(int pt)
    {
        switch ((PixelType)pt)
        {
        case PixelType::Gray8: return 1; case PixelType::Gray16: return 2; case PixelType::Gray32Float: return 4; case PixelType::Bgr24: return 3;
        case PixelType::Bgr48: return 6; case PixelType::Bgr96Float: return 12; case PixelType::Bgra32: return 4; default: return 0;
        }
    }

    // ---- generation --------------------------------------------------------------------------------------------------
    struct Gen
    {
        int minSb = 0, maxSb = 12, maxAt = 4;
        int maxDims = 9;
        bool pyramids = true;        // stored size != logical size
        bool arbitraryPayload = true;// payload bytes/compression tag not consistent with geometry
        bool uniformDims = false;    // every sub-block has the same set of dimensions
        bool mAlways = false, mNever = false;
        int extent = 1000;           // |x|,|y|
        int maxPayload = 3000;
    };

    inline int sizeLike(Rng& r, int maxv)
    {
        // emphasise values around block boundaries
        switch (r.below(8))
        {
        case 0: return 0;
        case 1: { int b = r.pick({ 32, 64, 96, 128, 224, 256, 288, 512, 1024, 4096 }); return std::max(0, std::min(maxv, b + r.range(-2, 2))); }
        case 2: return r.range(0, std::min(maxv, 3));
        default: return r.range(0, maxv);
        }
    }
    inline int coordValue(Rng& r)
    {
        switch (r.below(10))
        {
        case 0: return r.range(-5, 5);
        case 1: return r.range(-1000000, 1000000);
        default: return r.range(0, 3);
        }
    }
    inline bool clash(const Sb& a, const Sb& b, double zoomTol = 0.02)
    {
        // superset of "the writer regards b as a duplicate of a"
        if (a.coord != b.coord) return false;
        if (std::fabs(a.zoom() - b.zoom()) > zoomTol) return false;
        if (a.mValid != b.mValid) return false;
        if (a.mValid) return a.m == b.m;
        return a.x == b.x && a.y == b.y;
    }
    inline Bytes pattern(Rng& r, size_t n)
    {
        if (n > 0 && r.chance(12)) { Bytes b(n); size_t k = (size_t)r.below(n + 1); if (r.chance(50)) k = std::min<size_t>(k, 100); for (size_t i = 0; i < k; ++i) b[i] = (uint8_t)(1 + i * 3); return b; } // ends in zeroes
        switch (r.below(3))
        {
        case 0: return r.bytes(n);
        case 1: { Bytes b(n); uint8_t v = (uint8_t)r.next(); for (size_t i = 0; i < n; ++i) { if (r.below(16) == 0) v = (uint8_t)r.next(); b[i] = v; } return b; }
        default: { Bytes b(n); uint8_t s = (uint8_t)r.next(); for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(s + i * 7 + 1); return b; }
        }
    }
    inline std::vector<int> allPt() { return { 0, 1, 2, 3, 4, 8, 9 }; }
    inline Sb randomSb(Rng& r, const Gen& g, const std::vector<int>& dims)
    {
        Sb s;
        for (int d : dims) if (g.uniformDims || r.chance(85)) s.coord[d] = coordValue(r);
        s.mValid = g.mAlways || (!g.mNever && r.chance(60));
        if (s.mValid) s.m = r.chance(90) ? r.range(0, 12) : r.pick({ -1, 100000, 2147483646, -7 });
        if (r.chance(92)) { s.x = r.range(-g.extent, g.extent); s.y = r.range(-g.extent, g.extent); }
        else if (r.chance(85)) { s.x = r.pick({ -1000000000, 1000000000, 0, -1 }); s.y = r.pick({ -1000000000, 1000000000, 0, 7 }); }
        else { s.x = r.pick({ -2147483647, 1000000000, 2147000000 }); s.y = r.pick({ -2147483647, -1000000000, 2147000000 }); }
        s.w = r.range(1, 40); s.h = r.range(1, 40); s.pw = s.w; s.ph = s.h;
        if (g.pyramids && r.chance(35))
        {
            int f = r.pick({ 2, 3, 4, 8, 9, 16, 27 });
            if (r.chance(70)) { s.w = s.pw * f; s.h = s.ph * f; s.pyr = r.range(1, 2); }
            else { s.pw = r.range(1, 40); s.ph = r.range(1, 40); s.pyr = r.range(0, 2); }
        }
        s.pt = r.pick(allPt());
        if (g.arbitraryPayload && r.chance(60))
        {
            s.comp = r.chance(70) ? r.pick({ 0, 1, 4, 5, 6 }) : r.pick({ 2, 3, 100, 1000, 999999, 7 });
            s.data = pattern(r, (size_t)sizeLike(r, g.maxPayload));
        }
        else
        {
            s.comp = 0;
            s.data = pattern(r, (size_t)s.pw * s.ph * bpp(s.pt));
        }
        if (r.chance(40)) s.md = pattern(r, (size_t)sizeLike(r, r.chance(6) ? 20000 : 700));
        if (r.chance(30)) s.att = pattern(r, (size_t)sizeLike(r, r.chance(6) ? 20000 : 700));
        return s;
    }
    inline std::vector<int> randomDims(Rng& r, int maxDims)
    {
        std::vector<int> all{ 1,2,3,4,5,6,7,8,9 }; r.shuffle(all);
        int n = r.chance(10) ? maxDims : (r.chance(10) ? 0 : r.range(1, std::min(4, maxDims)));
        std::vector<int> d(all.begin(), all.begin() + n);
        if (r.chance(60) && n > 0) { if (!std::count(d.begin(), d.end(), 2)) d[0] = 2; }
        std::sort(d.begin(), d.end());
        return d;
    }
    inline std::string randomName(Rng& r, size_t maxLen, bool full = true)
    {
        size_t n = r.chance(15) && full ? maxLen : (r.chance(10) ? 0 : (size_t)r.range(1, (int)std::min<size_t>(maxLen, 12)));
        std::string s; for (size_t i = 0; i < n; ++i) s += (char)r.range('A', 'Z');
        return s;
    }
    inline At randomAt(Rng& r, int maxPayload)
    {
        At a; a.guid = randomGuid(r);
        a.type = r.chance(60) ? r.pick(std::vector<std::string>{ "CZTIMS", "CZI", "JPG", "CZEXP", "ABCDEFGH", "CZTIM" }) : randomName(r, 8);
        a.name = r.chance(50) ? r.pick(std::vector<std::string>{ "Thumbnail", "Label", "TimeStamps", "Thumb" }) : randomName(r, 80);
        a.data = pattern(r, (size_t)sizeLike(r, maxPayload));
        return a;
    }
    inline std::string randomXml(Rng& r)
    {
        std::string x = "<?xml version=\"1.0\"?>\n<ImageDocument><Metadata><Experiment Version=\"1.1\"/>";
        int n = sizeLike(r, 900);
        x += "<Custom>"; for (int i = 0; i < n; ++i) x += (char)r.range('a', 'z'); x += "</Custom></Metadata></ImageDocument>";
        return x;
    }
    inline Doc randomDoc(Rng& r, const Gen& g)
    {
        Doc d; d.guid = randomGuid(r);
        int n = r.chance(12) ? g.minSb : r.range(g.minSb, g.maxSb);
        auto dims = randomDims(r, g.maxDims);
        for (int i = 0; i < n; ++i)
        {
            for (int t = 0; t < 20; ++t)
            {
                Sb s = randomSb(r, g, dims);
                bool c = false; for (auto& o : d.sb) if (clash(o, s)) { c = true; break; }
                if (!c) { d.sb.push_back(std::move(s)); break; }
            }
        }
        int na = r.chance(40) ? 0 : r.range(0, g.maxAt);
        for (int i = 0; i < na; ++i) d.at.push_back(randomAt(r, g.maxPayload));
        if (r.chance(75)) { d.hasMd = true; d.xml = randomXml(r); if (r.chance(20)) d.mdAtt = pattern(r, (size_t)sizeLike(r, 500)); }
        return d;
    }

    // ---- handing a sub-block to the library, by all the ways -------------------------------------------------------------
    inline void fillBase(libCZI::AddSubBlockInfoBase& b, const Sb& s)
    {
        b.Clear();
        b.coordinate = s.dimCoord(); b.mIndexValid = s.mValid; b.mIndex = s.mValid ? s.m : 0; b.x = s.x; b.y = s.y; b.logicalWidth = s.w; b.logicalHeight = s.h;
        b.physicalWidth = s.pw; b.physicalHeight = s.ph; b.PixelType = (PixelType)s.pt; b.pyramid_type = (libCZI::SubBlockPyramidType)s.pyr; b.compressionModeRaw = s.comp;
    }
    struct Feeder // callback delivery in arbitrary chunks; the function may announce the end early if the rest is zeroes
    {
        Bytes b; std::vector<size_t> cuts; bool early = false; size_t earlyAt = 0;
        uint64_t calls = 0;
    };
    inline std::function<bool(int, size_t, const void*&, size_t&)> feeder(Rng& r, const Bytes& b)
    {
        auto f = std::make_shared<Feeder>(); f->b = b;
        int mode = (int)r.below(4);
        uint64_t seed = r.next();
        size_t lastNonZero = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i]) lastNonZero = i + 1;
        f->early = lastNonZero < b.size() && r.chance(70); f->earlyAt = lastNonZero;
        auto expected = std::make_shared<size_t>(0); auto nextCall = std::make_shared<int>(0);
        auto scratch = std::make_shared<Bytes>(); auto empties = std::make_shared<int>(0); const size_t surplus = r.chance(12) ? (size_t)r.range(1, 600) : 0;
        return [=](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
        {
            if (offset == 0 && callCnt == 0) { *expected = 0; *nextCall = 0; } // (a retry starts over)
            if (offset != *expected || callCnt != *nextCall) vh::fail("callback-protocol", "data callback called with callCnt=" + std::to_string(callCnt) + " offset=" + std::to_string(offset) + ", expected " + std::to_string(*nextCall) + "/" + std::to_string(*expected));
            ++*nextCall;
            if (f->early && offset >= f->earlyAt) return false;
            size_t rest = f->b.size() - offset; if (f->early) rest = f->earlyAt - offset;
            Rng rr(seed + offset);
            size_t n = mode == 0 ? rest : mode == 1 ? std::min<size_t>(rest, 1 + rr.below(64)) : mode == 2 ? std::min<size_t>(rest, 1 + rr.below(rest + 1)) : std::min<size_t>(rest, 7);
            if (n == 0) n = rest;
            if (mode == 2 && rr.chance(15) && *empties < 3) { ++*empties; scratch->assign(1, 0xa5); ptr = scratch->data(); size = 0; return true; } // an empty portion
            scratch->assign(f->b.begin() + offset, f->b.begin() + offset + n); // a buffer that is valid only until the next call
            size = n; *expected = offset + n;
            if (surplus && !f->early && n == rest) { for (size_t k = 0; k < surplus; ++k) scratch->push_back((uint8_t)(0x51 + k)); size += surplus; } // more than asked for: what is in excess is to be ignored
            ptr = scratch->data();
            return true;
        };
    }
    inline libCZI::AddSubBlockInfo callbackInfo(Rng& r, const Sb& s)
    {
        libCZI::AddSubBlockInfo i; fillBase(i, s);
        i.sizeData = s.data.size(); if (!s.data.empty() || r.chance(50)) i.getData = feeder(r, s.data);
        i.sizeMetadata = s.md.size(); if (!s.md.empty() || r.chance(50)) i.getMetaData = feeder(r, s.md);
        i.sizeAttachment = s.att.size(); if (!s.att.empty() || r.chance(50)) i.getAttachment = feeder(r, s.att);
        return i;
    }
    enum Variant { kCallback, kMemPtr, kStrided, kLinewise, kVariants };
    inline const char* variantName(int v) { static const char* n[] = { "callback","memptr","strided","linewise" }; return n[v]; }
    /// `add(info)` is called with the appropriate info object.
    template <typename TAdd>
    inline int deliver(Rng& r, const Sb& s, TAdd&& add, int forceVariant = -1)
    {
        bool bitmapLike = s.comp == 0 && bpp(s.pt) > 0 && s.data.size() == (size_t)s.pw * s.ph * bpp(s.pt) && !s.data.empty();
        int v = forceVariant >= 0 ? forceVariant : (int)r.below(bitmapLike ? 4 : 2);
        if (!bitmapLike && v >= 2) v = kMemPtr;
        if (v == kCallback) { add(callbackInfo(r, s)); return v; }
        // exactly sized heap copies, so that ASan sees any access beyond them
        std::unique_ptr<uint8_t[]> pd(new uint8_t[s.data.size()]), pm(new uint8_t[s.md.size()]), pa(new uint8_t[s.att.size()]);
        if (!s.data.empty()) memcpy(pd.get(), s.data.data(), s.data.size());
        if (!s.md.empty()) memcpy(pm.get(), s.md.data(), s.md.size());
        if (!s.att.empty()) memcpy(pa.get(), s.att.data(), s.att.size());
        auto rest = [&](auto& i) { i.ptrSbBlkMetadata = s.md.empty() ? nullptr : pm.get(); i.sbBlkMetadataSize = (uint32_t)s.md.size(); i.ptrSbBlkAttachment = s.att.empty() ? nullptr : pa.get(); i.sbBlkAttachmentSize = (uint32_t)s.att.size(); };
        if (v == kMemPtr)
        {
            libCZI::AddSubBlockInfoMemPtr i; fillBase(i, s); i.ptrData = s.data.empty() ? nullptr : pd.get(); i.dataSize = (uint32_t)s.data.size(); rest(i); add(i); return v;
        }
        size_t line = (size_t)s.pw * bpp(s.pt);
        if (v == kStrided)
        {
            size_t stride = line + (r.chance(60) ? (size_t)r.range(1, 19) : 0);
            // the last line need not be padded
            size_t total = stride * (s.ph - 1) + line;
            std::unique_ptr<uint8_t[]> p(new uint8_t[total]); Bytes junk = r.bytes(total); memcpy(p.get(), junk.data(), total);
            for (int y = 0; y < s.ph; ++y) memcpy(p.get() + y * stride, s.data.data() + y * line, line);
            libCZI::AddSubBlockInfoStridedBitmap i; fillBase(i, s); i.ptrBitmap = p.get(); i.strideBitmap = (uint32_t)stride; rest(i); add(i); return v;
        }
        std::unique_ptr<uint8_t[]> ln(new uint8_t[line]);
        libCZI::AddSubBlockInfoLinewiseBitmap i; fillBase(i, s); rest(i);
        i.getBitmapLine = [&](int y)->const void* { if (y < 0 || y >= s.ph) vh::fail("callback-protocol", "line callback called for line " + std::to_string(y)); memcpy(ln.get(), s.data.data() + y * line, line); return ln.get(); };
        add(i);
        return v;
    }
    inline libCZI::AddAttachmentInfo attInfo(const At& a)
    {
        libCZI::AddAttachmentInfo i; i.Clear(); i.contentGuid = a.guid; i.SetContentFileType(a.type.c_str()); i.SetName(a.name.c_str()); i.ptrData = a.data.empty() ? nullptr : a.data.data(); i.dataSize = (uint32_t)a.data.size(); return i;
    }
    inline libCZI::WriteMetadataInfo mdInfo(const std::string& xml, const Bytes& att)
    {
        libCZI::WriteMetadataInfo i; i.Clear(); i.szMetadata = xml.c_str(); i.szMetadataSize = xml.size(); i.ptrAttachment = att.empty() ? nullptr : att.data(); i.attachmentSize = att.size(); return i;
    }

    struct WriteOpts { bool dup = false; bool bounds = false; int64_t resSb = -1, resAt = -1, resMd = -1; bool noGuid = false; bool interleave = true; bool reuse = false; int mMin = 1, mMax = -1; libCZI::CDimBounds dimBounds; };
    inline WriteOpts randomWriteOpts(Rng& r, const Doc& d)
    {
        WriteOpts o;
        o.dup = r.chance(20);
        if (r.chance(35)) o.resSb = r.chance(70) ? r.range(0, 6000) : 0;
        if (r.chance(35)) o.resAt = r.chance(70) ? r.range(0, 2000) : 0;
        if (r.chance(35)) o.resMd = r.chance(70) ? r.range(0, 4000) : 0;
        o.noGuid = r.chance(10); o.reuse = r.chance(12);
        (void)d;
        return o;
    }
    inline std::shared_ptr<libCZI::CCziWriterInfo> writerInfo(const Doc& d, const WriteOpts& o)
    {
        auto i = std::make_shared<libCZI::CCziWriterInfo>(o.noGuid ? libCZI::GUID{ 0,0,0,{0,0,0,0,0,0,0,0} } : d.guid);
        if (o.resSb >= 0) i->SetReservedSizeForSubBlockDirectory(true, (size_t)o.resSb);
        if (o.resAt >= 0) i->SetReservedSizeForAttachmentsDirectory(true, (size_t)o.resAt);
        if (o.resMd >= 0) i->SetReservedSizeForMetadataSegment(true, (size_t)o.resMd);
        if (o.bounds) { i->SetDimBounds(&o.dimBounds); }
        if (o.mMin <= o.mMax) i->SetMIndexBounds(o.mMin, o.mMax);
        return i;
    }
    /// Write the document with the writer; the order of sub-blocks/attachments/metadata is random.
    inline void write(Rng& r, const Doc& d, const std::shared_ptr<libCZI::IOutputStream>& stream, const WriteOpts& o)
    {
        libCZI::CZIWriterOptions wo; wo.allow_duplicate_subblocks = o.dup;
        auto w = libCZI::CreateCZIWriter(&wo);
        if (o.reuse)
        {
            // the writer object has written another document before, which must have no influence
            Gen g; g.maxSb = 5; Doc other = randomDoc(r, g); WriteOpts oo = randomWriteOpts(r, other); auto f = vh::makeFile();
            if (r.chance(30)) oo.resSb = r.range(0, 3000);
            w->Create(std::make_shared<vh::MemOut>(f), writerInfo(other, oo));
            if (other.hasMd) w->SyncWriteMetadata(mdInfo(other.xml, other.mdAtt));
            for (auto& s : other.sb) deliver(r, s, [&](const auto& info) { w->SyncAddSubBlock(info); });
            for (auto& a : other.at) w->SyncAddAttachment(attInfo(a));
            w->Close(); vh::ev("writer-reused");
        }
        w->Create(stream, writerInfo(d, o));
        std::vector<std::pair<int, size_t>> steps;
        for (size_t i = 0; i < d.sb.size(); ++i) steps.push_back({ 0, i });
        for (size_t i = 0; i < d.at.size(); ++i) steps.push_back({ 1, i });
        if (d.hasMd) steps.push_back({ 2, 0 });
        if (o.interleave) r.shuffle(steps);
        for (auto& st : steps)
        {
            if (st.first == 0) { int v = deliver(r, d.sb[st.second], [&](const auto& info) { w->SyncAddSubBlock(info); }); vh::ev(std::string("add-") + variantName(v)); }
            else if (st.first == 1) { w->SyncAddAttachment(attInfo(d.at[st.second])); vh::ev("add-attachment"); }
            else
            {
                // metadata may be written several times, the last one counts
                for (int n = r.chance(25) ? r.range(1, 3) : 0; n > 0; --n) { std::string x = randomXml(r); Bytes b = r.chance(30) ? pattern(r, (size_t)sizeLike(r, 400)) : Bytes(); w->SyncWriteMetadata(mdInfo(x, b)); vh::ev("rewrite-metadata"); }
                w->SyncWriteMetadata(mdInfo(d.xml, d.mdAtt)); vh::ev("write-metadata");
            }
        }
        w->Close();
    }
    inline Bytes writeToBytes(Rng& r, const Doc& d, const WriteOpts& o = WriteOpts())
    {
        auto f = vh::makeFile(); write(r, d, std::make_shared<vh::MemOut>(f), o); return f->data;
    }

    // ---- files of more than 2/4 GB (which are mostly a hole) ----
    inline uint64_t hugeSize(Rng& r) { return (r.pick<uint64_t>({ 1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 1ull << 36, 1ull << 40 }) + (r.chance(50) ? r.below(1ull << 31) : r.below(4000))) / 32 * 32; }
    /// The document is written behind a (very large) reservation for metadata which is not used.
    inline void writeHuge(Rng& r, Doc& d, const vh::MemFileP& f, WriteOpts o)
    {
        d.hasMd = false; d.xml.clear(); d.mdAtt.clear(); const uint64_t n = hugeSize(r); o.resMd = (int64_t)n; f->holeAt = 544 + 32 + 256; f->holeLen = (256 + n + 31) / 32 * 32 - 256;
        write(r, d, std::make_shared<vh::MemOut>(f), o); VH_CHECK(!f->holeDamaged, "write-into-reservation", "data was written into the (unused) reservation"); vh::ev("huge-file");
    }
    // ---- a file as another program may lay it out (segments in any order, with slack, deleted ones in between, dimensions in any order) ----
    struct Dm { char c; int start, size, stored; };
    struct Layout { const std::vector<Sb>* embedded = nullptr; /* description of the sub-blocks in their segments, if it differs from the one in the directory */ std::function<void(size_t, bool, std::vector<Dm>&)> tweak; /* (index, in the directory?, dimensions) */ int major = 1, minor = 0; const libCZI::GUID* primary = nullptr; bool zeroSlack = true; bool usedZero = false; bool huge = false; /* a deleted segment of several GB (see MemFile::holeAt) */ mutable uint64_t holeAt = 0, holeLen = 0; };
    inline Bytes compose(Rng& r, const Doc& d, const Layout& lay = Layout())
    {
        struct Part { int kind; size_t i; uint64_t pos = 0; Bytes body; uint64_t slack = 0; const char* id; };
        auto guidBytes = [](const libCZI::GUID& g) { Bytes b(16); memcpy(&b[0], &g.Data1, 4); memcpy(&b[4], &g.Data2, 2); memcpy(&b[6], &g.Data3, 2); memcpy(&b[8], g.Data4, 8); return b; };
        auto put = [](Bytes& b, auto v) { size_t n = b.size(); b.resize(n + sizeof(v)); memcpy(&b[n], &v, sizeof(v)); };
        auto app = [](Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); };
        std::vector<Bytes> sbEntry(d.sb.size()), sbInner(d.sb.size()), atEntry(d.at.size());
        auto entry = [&](size_t k, const Sb& q, bool directory, bool shuffled)
        {
            Bytes e = { 'D', 'V' }; put(e, (int32_t)q.pt); put(e, (int64_t)0); put(e, (int32_t)0); put(e, (int32_t)q.comp);
            Bytes spare = lay.zeroSlack ? Bytes(6, 0) : r.bytes(6); spare[0] = (uint8_t)q.pyr; app(e, spare);
            std::vector<Dm> dm{ { 'X', q.x, q.w, q.pw }, { 'Y', q.y, q.h, q.ph } };
            for (auto& c : q.coord) dm.push_back({ kDims[c.first], c.second, 1, lay.zeroSlack || lay.tweak || r.chance(70) ? 1 : 0 });
            if (q.mValid) dm.push_back({ 'M', q.m, 1, 1 });
            if (lay.tweak) lay.tweak(k, directory, dm);
            if (shuffled) r.shuffle(dm);
            put(e, (int32_t)dm.size());
            for (auto& x : dm) { e.push_back((uint8_t)x.c); e.insert(e.end(), 3, 0); put(e, (int32_t)x.start); put(e, (int32_t)x.size); put(e, r.chance(80) ? 0.f : (float)r.range(-5, 5)); put(e, (int32_t)x.stored); }
            return e;
        };
        for (size_t k = 0; k < d.sb.size(); ++k) { sbEntry[k] = entry(k, d.sb[k], true, r.chance(60)); sbInner[k] = lay.embedded || lay.tweak ? entry(k, lay.embedded ? (*lay.embedded)[k] : d.sb[k], false, r.chance(60)) : sbEntry[k]; }
        for (size_t k = 0; k < d.at.size(); ++k)
        {
            const At& a = d.at[k]; Bytes& e = atEntry[k]; e = { 'A', '1' }; app(e, lay.zeroSlack ? Bytes(10, 0) : r.bytes(10)); put(e, (int64_t)0); put(e, (int32_t)0); app(e, guidBytes(a.guid));
            Bytes t(8, 0), n(80, 0); memcpy(t.data(), a.type.data(), a.type.size()); memcpy(n.data(), a.name.data(), a.name.size()); app(e, t); app(e, n);
        }
        std::vector<Part> parts;
        for (size_t k = 0; k < d.sb.size(); ++k) parts.push_back({ 0, k, 0, {}, 0, "ZISRAWSUBBLOCK" });
        for (size_t k = 0; k < d.at.size(); ++k) parts.push_back({ 1, k, 0, {}, 0, "ZISRAWATTACH" });
        if (d.hasMd) parts.push_back({ 2, 0, 0, {}, 0, "ZISRAWMETADATA" });
        parts.push_back({ 3, 0, 0, {}, 0, "ZISRAWDIRECTORY" });
        if (!d.at.empty() || r.chance(30)) parts.push_back({ 4, 0, 0, {}, 0, "ZISRAWATTDIR" });
        for (int k = r.range(0, 2); k > 0; --k) parts.push_back({ 5, 0, 0, {}, 0, "DELETED" });
        if (lay.huge) parts.push_back({ 6, 0, 0, {}, 0, "DELETED" });
        r.shuffle(parts);
        if (lay.huge) { size_t h = 0, di = 0; for (size_t k = 0; k < parts.size(); ++k) { if (parts[k].kind == 6) h = k; if (parts[k].kind == 3) di = k; } if (h > di) std::swap(parts[h], parts[di]); } // (deleted segments at the end of the file may be overwritten)
        auto bodySize = [&](const Part& q)->uint64_t
        {
            switch (q.kind)
            {
            case 0: return std::max<uint64_t>(256, 16 + sbInner[q.i].size()) + d.sb[q.i].md.size() + d.sb[q.i].data.size() + d.sb[q.i].att.size();
            case 1: return 256 + d.at[q.i].data.size();
            case 2: return 256 + d.xml.size() + d.mdAtt.size();
            case 3: { uint64_t n = 128; for (auto& e : sbEntry) n += e.size(); return n; }
            case 4: return 256 + 128 * d.at.size();
            default: return 0;
            }
        };
        uint64_t pos = 544;
        for (auto& q : parts) { q.pos = pos; uint64_t n = bodySize(q); q.slack = (n + 31) / 32 * 32 - n + (r.chance(40) ? 32 * (uint64_t)r.range(1, 40) : 0); if (q.kind == 6) { q.slack = 0; lay.holeAt = pos + 32; lay.holeLen = hugeSize(r); pos += 32 + lay.holeLen; continue; } pos += 32 + n + q.slack; }
        std::vector<size_t> orderSb, orderAt; for (size_t k = 0; k < d.sb.size(); ++k) orderSb.push_back(k); for (size_t k = 0; k < d.at.size(); ++k) orderAt.push_back(k); r.shuffle(orderSb); r.shuffle(orderAt);
        int64_t sbDir = 0, md = 0, atDir = 0;
        for (auto& q : parts)
        {
            if (q.kind == 0) { memcpy(&sbEntry[q.i][6], &q.pos, 8); memcpy(&sbInner[q.i][6], &q.pos, 8); }
            if (q.kind == 1) memcpy(&atEntry[q.i][12], &q.pos, 8);
            if (q.kind == 2) md = (int64_t)q.pos; if (q.kind == 3) sbDir = (int64_t)q.pos; if (q.kind == 4) atDir = (int64_t)q.pos;
        }
        Bytes out; auto segHead = [&](const char* id, uint64_t alloc, uint64_t used) { Bytes b(16, 0); memcpy(b.data(), id, strlen(id)); put(b, (int64_t)alloc); put(b, (int64_t)used); app(out, b); };
        segHead("ZISRAWFILE", 512, 512); put(out, (int32_t)lay.major); put(out, (int32_t)lay.minor); put(out, (int64_t)0); app(out, guidBytes(lay.primary ? *lay.primary : d.guid)); app(out, guidBytes(d.guid)); put(out, (int32_t)0); put(out, sbDir); put(out, md); put(out, (int32_t)0); put(out, atDir); out.resize(544, 0);
        for (auto& q : parts)
        {
            if (q.kind == 6) { segHead(q.id, lay.holeLen, lay.holeLen); continue; }
            uint64_t n = bodySize(q); Bytes b;
            auto fillTo = [&](size_t k) { if (lay.zeroSlack) b.resize(k, 0); else { size_t m = b.size(); if (m < k) app(b, r.bytes(k - m)); } };
            switch (q.kind)
            {
            case 0: { const Sb& s = d.sb[q.i]; put(b, (int32_t)s.md.size()); put(b, (int32_t)s.att.size()); put(b, (int64_t)s.data.size()); app(b, sbInner[q.i]); if (b.size() < 256) fillTo(256); app(b, s.md); app(b, s.data); app(b, s.att); break; }
            case 1: put(b, (int32_t)d.at[q.i].data.size()); b.resize(16, 0); app(b, atEntry[q.i]); fillTo(256); app(b, d.at[q.i].data); break;
            case 2: put(b, (int32_t)d.xml.size()); put(b, (int32_t)d.mdAtt.size()); fillTo(256); b.insert(b.end(), d.xml.begin(), d.xml.end()); app(b, d.mdAtt); break;
            case 3: put(b, (int32_t)d.sb.size()); fillTo(128); for (size_t k : orderSb) app(b, sbEntry[k]); break;
            case 4: put(b, (int32_t)d.at.size()); fillTo(256); for (size_t k : orderAt) app(b, atEntry[k]); break;
            }
            if (b.size() != n) vh::fail("harness", "compose: size");
            segHead(q.id, n + q.slack, lay.usedZero && r.chance(30) ? 0 : n); fillTo((size_t)(n + q.slack)); app(out, b);
        }
        vh::ev("foreign-layout");
        return out;
    }

    // ---- observing -------------------------------------------------------------------------------------------------------
    inline Sb fromInfo(const libCZI::SubBlockInfo& i)
    {
        Sb s; i.coordinate.EnumValidDimensions([&](DimensionIndex d, int v) { s.coord[(int)d] = v; return true; });
        s.mValid = i.IsMindexValid(); s.m = s.mValid ? i.mIndex : 0; s.x = i.logicalRect.x; s.y = i.logicalRect.y; s.w = i.logicalRect.w; s.h = i.logicalRect.h; s.pw = (int)i.physicalSize.w; s.ph = (int)i.physicalSize.h;
        s.pt = (int)i.pixelType; s.pyr = (int)i.pyramidType; s.comp = i.compressionModeRaw;
        return s;
    }
    inline Bytes blk(libCZI::ISubBlock* s, libCZI::ISubBlock::MemBlkType t)
    {
        size_t n = 12345; auto p = s->GetRawData(t, &n);
        Bytes b; if (p && n) b.assign((const uint8_t*)p.get(), (const uint8_t*)p.get() + n);
        if (!p) n = 0;
        const void* q = nullptr; size_t m = 777; s->DangerousGetRawData(t, q, m);
        VH_EQ(m, b.size(), "rawdata-views", "DangerousGetRawData and GetRawData disagree about the size");
        VH_CHECK(m == 0 || memcmp(q, b.data(), m) == 0, "rawdata-views", "DangerousGetRawData and GetRawData disagree");
        return b;
    }
    inline Sb fromSubBlock(libCZI::ISubBlock* p)
    {
        Sb s = fromInfo(p->GetSubBlockInfo());
        s.data = blk(p, libCZI::ISubBlock::Data); s.md = blk(p, libCZI::ISubBlock::Metadata); s.att = blk(p, libCZI::ISubBlock::Attachment);
        return s;
    }
    inline At fromAtInfo(const libCZI::AttachmentInfo& i)
    {
        At a; a.guid = i.contentGuid; size_t n = 0; while (n < 9 && i.contentFileType[n]) ++n;
        VH_CHECK(n <= 8, "attachment-type-terminated", "contentFileType is not NUL-terminated");
        a.type.assign(i.contentFileType, n); a.name = i.name; return a;
    }
    inline At fromAttachment(libCZI::IAttachment* p)
    {
        At a = fromAtInfo(p->GetAttachmentInfo()); const void* q = nullptr; size_t n = 0; p->DangerousGetRawData(q, n); if (n) a.data.assign((const uint8_t*)q, (const uint8_t*)q + n);
        size_t n2 = 0; auto sp = p->GetRawData(&n2); VH_EQ(n2, n, "rawdata-views", "attachment GetRawData size"); VH_CHECK(n == 0 || memcmp(sp.get(), q, n) == 0, "rawdata-views", "attachment GetRawData content");
        return a;
    }
    inline std::string diffMultiset(const std::multiset<std::string>& exp, const std::multiset<std::string>& got)
    {
        std::ostringstream o; int n = 0;
        for (auto& e : exp) if (got.count(e) < exp.count(e) && n++ < 3) o << " missing{" << e << "}";
        n = 0;
        for (auto& e : got) if (exp.count(e) < got.count(e) && n++ < 3) o << " surplus{" << e << "}";
        return o.str();
    }
    template <typename TRepo>
    inline void compareContent(const Doc& d, TRepo* rd, const char* who)
    {
        std::multiset<std::string> e, g, ge;
        for (auto& s : d.sb) e.insert(s.key());
        std::vector<int> idx;
        rd->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { idx.push_back(i); ge.insert(fromInfo(inf).infoKey()); return true; });
        VH_EQ(idx.size(), d.sb.size(), "subblock-count", who);
        std::multiset<std::string> ee; for (auto& s : d.sb) ee.insert(s.infoKey());
        VH_CHECK(ee == ge, "subblock-info", who << diffMultiset(ee, ge));
        for (int i : idx)
        {
            auto s = rd->ReadSubBlock(i); VH_CHECK(s != nullptr, "subblock-read", who << ": ReadSubBlock(" << i << ") gave nothing");
            g.insert(fromSubBlock(s.get()).key()); vh::ev("subblock-compared");
        }
        VH_CHECK(e == g, "subblock-content", who << diffMultiset(e, g));
        std::multiset<std::string> ea, ga;
        for (auto& a : d.at) ea.insert(a.key());
        std::vector<int> ia; rd->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo&) { ia.push_back(i); return true; });
        VH_EQ(ia.size(), d.at.size(), "attachment-count", who);
        for (int i : ia) { auto a = rd->ReadAttachment(i); VH_CHECK(a != nullptr, "attachment-read", who); ga.insert(fromAttachment(a.get()).key()); vh::ev("attachment-compared"); }
        VH_CHECK(ea == ga, "attachment-content", who << diffMultiset(ea, ga));
        if (d.hasMd)
        {
            auto m = rd->ReadMetadataSegment(); VH_CHECK(m != nullptr, "metadata-content", who << ": no metadata segment");
            const void* p = nullptr; size_t n = 0; m->DangerousGetRawData(libCZI::IMetadataSegment::XmlMetadata, p, n);
            VH_CHECK(n == d.xml.size() && (n == 0 || memcmp(p, d.xml.data(), n) == 0), "metadata-content", who << ": XML differs, size " << n << " expected " << d.xml.size());
            m->DangerousGetRawData(libCZI::IMetadataSegment::Attachment, p, n);
            VH_CHECK(n == d.mdAtt.size() && (n == 0 || memcmp(p, d.mdAtt.data(), n) == 0), "metadata-content", who << ": metadata attachment differs, size " << n << " expected " << d.mdAtt.size());
            vh::ev("metadata-compared");
        }
        vh::ctx().evals += d.sb.size() + d.at.size();
    }
    inline std::shared_ptr<libCZI::ICZIReader> openReader(const vh::MemFileP& f, const libCZI::ICZIReader::OpenOptions* o = nullptr)
    {
        auto r = libCZI::CreateCZIReader(); r->Open(std::make_shared<vh::MemIn>(f), o); return r;
    }
    inline std::string summary(const Doc& d)
    {
        std::ostringstream o; o << d.sb.size() << " sub-blocks, " << d.at.size() << " attachments" << (d.hasMd ? ", metadata " + std::to_string(d.xml.size()) : ""); if (!d.sb.empty()) o << "; first " << d.sb[0].infoKey(); return o.str();
    }
}
