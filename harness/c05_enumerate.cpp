// C05: enumeration and lookup agree with the content of the document.
#include "hist.hpp"
using namespace vh; using namespace doc;
using libCZI::SubBlockInfo; using libCZI::AttachmentInfo; using libCZI::IntRect;

static bool layer0(const SubBlockInfo& i) { return i.physicalSize.w == (uint32_t)i.logicalRect.w && i.physicalSize.h == (uint32_t)i.logicalRect.h; }

template <typename TRepo>
static void checkRepo(Rng& r, const Doc& d, TRepo* rd, const MemFileP& f, const char* who)
{
    // complete enumeration: every item exactly once, with an index under which it is read
    std::map<int, Sb> byIdx; std::vector<int> order;
    rd->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf) { VH_CHECK(byIdx.emplace(i, fromInfo(inf)).second, "enum-once", who << ": index " << i << " is enumerated twice"); order.push_back(i); return true; });
    std::multiset<std::string> e, g; for (auto& s : d.sb) e.insert(s.infoKey()); for (auto& s : byIdx) g.insert(s.second.infoKey());
    VH_CHECK(e == g, "enum-complete", who << diffMultiset(e, g));
    std::multiset<std::string> ek, gk; for (auto& s : d.sb) ek.insert(s.key());
    for (auto& s : byIdx)
    {
        auto b = rd->ReadSubBlock(s.first); VH_CHECK(b != nullptr, "read-index", who << ": index " << s.first);
        Sb q = fromSubBlock(b.get()); gk.insert(q.key()); VH_EQ(q.infoKey(), s.second.infoKey(), "read-index", who << ": ReadSubBlock(" << s.first << ") is a different item");
        SubBlockInfo inf; VH_CHECK(rd->TryGetSubBlockInfo(s.first, &inf), "try-get-info", who << ": index " << s.first); VH_EQ(fromInfo(inf).infoKey(), s.second.infoKey(), "try-get-info", who);
        VH_CHECK(rd->TryGetSubBlockInfo(s.first, nullptr), "try-get-info", "with nullptr");
        // helper methods of the information
        VH_EQ(inf.IsMindexValid(), s.second.mValid, "info-helpers", "IsMindexValid"); { using CM = libCZI::CompressionMode; int c = s.second.comp; CM em = c == 0 ? CM::UnCompressed : c == 1 ? CM::Jpg : c == 4 ? CM::JpgXr : c == 5 ? CM::Zstd0 : c == 6 ? CM::Zstd1 : CM::Invalid; VH_CHECK(inf.GetCompressionMode() == em, "info-helpers", "GetCompressionMode for " << c); }
        double z = inf.GetZoom(); if (s.second.w > 0 && s.second.h > 0) VH_CHECK(std::fabs(z - (s.second.pw > s.second.ph ? (double)s.second.pw / s.second.w : (double)s.second.ph / s.second.h)) < 1e-9 || std::fabs(z - (s.second.w > s.second.h ? (double)s.second.pw / s.second.w : (double)s.second.ph / s.second.h)) < 1e-9, "info-helpers", "GetZoom " << z);
        ev("subblock-looked-up");
    }
    VH_CHECK(ek == gk, "enum-complete", who << ": content" << diffMultiset(ek, gk));
    // early termination
    if (!order.empty())
    {
        size_t stop = 1 + (size_t)r.below(order.size()); std::vector<int> got;
        rd->EnumerateSubBlocks([&](int i, const SubBlockInfo&) { got.push_back(i); return got.size() < stop; });
        VH_CHECK(got.size() == stop && std::equal(got.begin(), got.end(), order.begin()), "enum-early-end", who << ": stopped after " << got.size() << " instead of " << stop);
    }
    // absence
    for (int bad : { -1, (int)0x80000000, 0x7fffffff, byIdx.empty() ? 0 : byIdx.rbegin()->first + 1, -(int)d.sb.size() })
    {
        if (byIdx.count(bad)) continue;
        VH_CHECK(rd->ReadSubBlock(bad) == nullptr, "absent-index", who << ": ReadSubBlock(" << bad << ")"); SubBlockInfo inf; VH_CHECK(!rd->TryGetSubBlockInfo(bad, &inf), "absent-index", who << ": TryGetSubBlockInfo(" << bad << ")"); ev("absent-looked-up");
    }
    // subsets
    for (int t = 0, n = r.range(2, 8); t < n; ++t)
    {
        libCZI::CDimCoordinate c; bool useC = r.chance(75); std::map<int, int> pc;
        if (useC)
        {
            if (!d.sb.empty() && r.chance(80)) { const Sb& s = d.sb[r.below(d.sb.size())]; for (auto& x : s.coord) if (r.chance(60)) pc[x.first] = x.second; }
            if (r.chance(20)) pc[r.range(1, 9)] = coordValue(r);
            for (auto& x : pc) c.Set((DimensionIndex)x.first, x.second);
        }
        IntRect roi; bool useRoi = r.chance(75);
        if (!d.sb.empty() && r.chance(80))
        {
            const Sb& s = d.sb[r.below(d.sb.size())]; int w = r.range(1, 60), h = r.range(1, 60);
            int mode = (int)r.below(6); // touching from each side, overlapping by one, inside
            const int64_t sx = s.x, sy = s.y, rx = mode == 0 ? sx - w : mode == 1 ? sx + s.w : mode == 2 ? sx - w + 1 : mode == 3 ? sx + s.w - 1 : sx + r.range(-5, 5), ry = mode == 4 ? sy - h : mode == 5 ? sy + s.h : r.chance(50) ? sy - h + 1 : sy + s.h - 1;
            auto fit = [](int64_t v, int n) { return (int)std::min<int64_t>(std::max<int64_t>(v, -2147483647 - 1), 2147483647 - (int64_t)n); }; roi = IntRect{ fit(rx, w), fit(ry, h), w, h };
            if (r.chance(8)) { if (r.chance(50)) roi.w = 0; else roi.h = 0; }
        }
        else roi = IntRect{ r.range(-1000, 1000), r.range(-1000, 1000), r.range(0, 2000), r.range(0, 2000) };
        bool l0 = r.chance(50);
        std::set<int> exp;
        for (auto& s : byIdx)
        {
            const Sb& q = s.second; if (l0 && !q.layer0()) continue;
            if (useC) { bool ok = true; for (auto& x : pc) { auto it = q.coord.find(x.first); if (it == q.coord.end() || it->second != x.second) ok = false; } if (!ok) continue; }
            if (useRoi) { int64_t x1 = std::max<int64_t>(roi.x, q.x), x2 = std::min<int64_t>((int64_t)roi.x + roi.w, (int64_t)q.x + q.w), y1 = std::max<int64_t>(roi.y, q.y), y2 = std::min<int64_t>((int64_t)roi.y + roi.h, (int64_t)q.y + q.h); if (x2 <= x1 || y2 <= y1) continue; }
            exp.insert(s.first);
        }
        std::set<int> got;
        rd->EnumSubset(useC ? &c : nullptr, useRoi ? &roi : nullptr, l0, [&](int i, const SubBlockInfo& inf) { VH_CHECK(got.insert(i).second, "subset-once", who); VH_EQ(fromInfo(inf).infoKey(), byIdx[i].infoKey(), "subset-info", who); return true; });
        VH_CHECK(got == exp, "subset", who << ": EnumSubset(" << (useC ? libCZI::Utils::DimCoordinateToString(&c) : "no plane") << ", roi " << (useRoi ? std::to_string(roi.x) + "," + std::to_string(roi.y) + "," + std::to_string(roi.w) + "x" + std::to_string(roi.h) : "none") << ", layer0=" << l0 << ") reports " << got.size() << " expected " << exp.size());
        ev("subset-compared"); if (!exp.empty()) ev("subset-nonempty");
        if (exp.size() > 1) { size_t k = 0, stop = 1 + (size_t)r.below(exp.size()); rd->EnumSubset(useC ? &c : nullptr, useRoi ? &roi : nullptr, l0, [&](int, const SubBlockInfo&) { return ++k < stop; }); VH_EQ(k, stop, "subset-early-end", who); }
    }
    // a sub-block of a channel
    {
        std::set<int> ch; bool anyC = false; for (auto& s : d.sb) if (s.has(DimensionIndex::C)) { anyC = true; ch.insert(s.at(DimensionIndex::C)); }
        std::vector<int> ask{ 0, -1, 5 }; for (int x : ch) ask.push_back(x);
        for (int x : ask)
        {
            SubBlockInfo inf; bool b = rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(x, inf); bool exp = anyC ? ch.count(x) != 0 : !d.sb.empty();
            VH_EQ(b, exp, "subblock-in-channel", who << ": channel " << x); if (b && anyC) { Sb q = fromInfo(inf); VH_CHECK(q.at(DimensionIndex::C, -999999) == x && e.count(q.infoKey()), "subblock-in-channel", who << ": sub-block of channel " << x << " is " << q.infoKey()); }
        }
    }
    // attachments
    std::map<int, At> at;
    rd->EnumerateAttachments([&](int i, const AttachmentInfo& inf) { VH_CHECK(at.emplace(i, fromAtInfo(inf)).second, "att-enum-once", who); return true; });
    std::multiset<std::string> ea, ga; for (auto& a : d.at) ea.insert(a.infoKey()); for (auto& a : at) ga.insert(a.second.infoKey());
    VH_CHECK(ea == ga, "att-enum-complete", who << diffMultiset(ea, ga)); VH_EQ((size_t)rd->GetAttachmentCount(), d.at.size(), "att-count", who);
    for (auto& a : at)
    {
        auto p = rd->ReadAttachment(a.first); VH_CHECK(p != nullptr, "att-read", who); VH_EQ(fromAttachment(p.get()).infoKey(), a.second.infoKey(), "att-read", who);
        AttachmentInfo inf; VH_CHECK(rd->TryGetAttachmentInfo(a.first, &inf), "att-info", who); VH_EQ(fromAtInfo(inf).infoKey(), a.second.infoKey(), "att-info", who); ev("attachment-looked-up");
    }
    for (int bad : { -1, (int)0x80000000, 0x7fffffff, at.empty() ? 0 : at.rbegin()->first + 1, -(int)d.at.size() })
        if (!at.count(bad)) { AttachmentInfo inf; VH_CHECK(rd->ReadAttachment(bad) == nullptr && !rd->TryGetAttachmentInfo(bad, &inf), "absent-index", who << ": attachment index " << bad); }
    std::set<std::string> types, names; for (auto& a : d.at) { types.insert(a.type); names.insert(a.name); if (!a.type.empty()) types.insert(a.type.substr(0, a.type.size() - 1)); types.insert(a.type + "X"); if (!a.name.empty()) names.insert(a.name.substr(0, a.name.size() - 1)); names.insert(a.name + "X"); }
    std::vector<const char*> ts{ nullptr, "", "CZI", "ABCDEFGH", "ABCDEFG", "abcdefgh" }, ns{ nullptr, "", "Thumb", "THUMBNAIL" }; for (auto& t : types) ts.push_back(t.c_str()); for (auto& t : names) ns.push_back(t.c_str());
    for (int k = 0; k < 25; ++k)
    {
        const char* t = r.pick(ts); const char* nm = r.pick(ns); std::set<int> exp, got;
        for (auto& a : at) if ((!t || a.second.type == t) && (!nm || a.second.name == nm)) exp.insert(a.first);
        rd->EnumerateSubset(t, nm, [&](int i, const AttachmentInfo& inf) { VH_CHECK(got.insert(i).second, "att-subset-once", who); VH_EQ(fromAtInfo(inf).infoKey(), at[i].infoKey(), "att-subset-info", who); return true; });
        VH_CHECK(got == exp, "att-subset", who << ": EnumerateSubset(" << (t ? t : "null") << ", " << (nm ? nm : "null") << ") reports " << got.size() << " expected " << exp.size()); ev("att-subset-compared"); if (!exp.empty() && t) ev("att-subset-nonempty");
    }
    if (at.size() > 1) { size_t k = 0, stop = 1 + (size_t)r.below(at.size()); rd->EnumerateAttachments([&](int, const AttachmentInfo&) { return ++k < stop; }); VH_EQ(k, stop, "att-early-end", who); k = 0; rd->EnumerateSubset(nullptr, nullptr, [&](int, const AttachmentInfo&) { return ++k < stop; }); VH_EQ(k, stop, "att-early-end", who << " subset"); }
}
static void oneCase(Rng& r, uint64_t)
{
    Gen g; g.maxSb = r.chance(10) ? 50 : 12; g.maxPayload = 30; g.maxAt = 6; g.extent = r.pick({ 30, 100, 1000 }); if (r.below(400) == 0) { g.minSb = 500; g.maxSb = 1200; g.maxPayload = 4; ev("many-subblocks"); }
    Doc d = randomDoc(r, g); for (auto& s : d.sb) { s.md.clear(); if (s.x < -g.extent || s.x > g.extent) s.x = s.y = 0; }
    { std::vector<Sb> u; for (auto& s : d.sb) { bool c = false; for (auto& q : u) c |= clash(q, s); if (!c) u.push_back(s); } d.sb = u; }
    WriteOpts o; o.dup = r.chance(15); if (o.dup && !d.sb.empty()) d.sb.push_back(d.sb[0]);
    ctx().currentDesc = summary(d); ctx().sample(ctx().currentDesc);
    auto f = makeFile(); if (r.chance(20)) { Layout lay; lay.zeroSlack = r.chance(50); lay.usedZero = r.chance(20); f->data = compose(r, d, lay); } else write(r, d, std::make_shared<MemOut>(f), o); ctx().seenHash(hash64(f->data.data(), f->data.size()));
    {
        auto rd = openReader(f); checkRepo(r, d, rd.get(), f, "reader"); ev("reader");
        // extended enumeration: the position must be the one of the segment
        std::map<int, std::string> a, b; std::map<uint64_t, int> pos;
        rd->EnumerateSubBlocks([&](int i, const SubBlockInfo& inf) { a[i] = fromInfo(inf).infoKey(); return true; });
        size_t n = 0;
        rd->EnumerateSubBlocksEx([&](int i, const libCZI::DirectorySubBlockInfo& inf) { b[i] = fromInfo(inf).infoKey(); VH_CHECK(pos.emplace(inf.filePosition, i).second, "enum-ex", "two items at the same position"); auto q = czi::subblock(f->data, inf.filePosition); VH_EQ(q.e.pixelType, (int)inf.pixelType, "enum-ex", "pixel type at the position"); ++n; return true; });
        VH_CHECK(a == b && n == d.sb.size(), "enum-ex", "EnumerateSubBlocksEx and EnumerateSubBlocks differ");
        if (n > 1) { size_t k = 0, stop = 1 + (size_t)r.below(n); rd->EnumerateSubBlocksEx([&](int, const libCZI::DirectorySubBlockInfo&) { return ++k < stop; }); VH_EQ(k, stop, "enum-early-end", "EnumerateSubBlocksEx"); }
    }
    if (!o.dup && r.chance(60))
    {
        hist::Opts ho; ho.steps = r.range(0, 12); ho.maxPayload = 40; hist::Session s(r, f, ho); s.open(d); for (int k = 0; k < ho.steps; ++k) s.step();
        Doc c = s.m.toDoc(); { bool big = false; for (auto& q : c.sb) if (std::abs((double)q.x) > 1e8) big = true; if (!big) { checkRepo(r, c, s.rw.get(), f, "reader-writer"); ev("reader-writer"); } } s.close(); ctx().seen(s.log);
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C05", Options{ 2000, 40000 }, oneCase); }
