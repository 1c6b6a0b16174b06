// C16: valid and invalid requests mixed; the invalid ones must be refused (and only those), and the document finished afterwards
// must be the one without them.
#include "hist.hpp"
#include <climits>
#include <sys/mman.h>
using namespace vh; using namespace doc;

enum Expect { kAccept, kRefuse, kUnclear };
static float zoomOf(const Sb& s) { return libCZI::Utils::CalcZoom(libCZI::IntSize{ (uint32_t)s.w, (uint32_t)s.h }, libCZI::IntSize{ (uint32_t)s.pw, (uint32_t)s.ph }); }
static Expect writerDuplicate(const std::vector<Sb>& have, const Sb& s)
{
    for (auto& e : have)
    {
        float d = std::fabs(zoomOf(e) - zoomOf(s));
        if (d > 0.00001f && d < 0.001f) return kUnclear; // around the tolerance
        if (d <= 0.00001f && e.coord == s.coord && e.mValid == s.mValid && (s.mValid ? e.m == s.m : (e.x == s.x && e.y == s.y))) return kRefuse;
    }
    return kAccept;
}
template <typename F> static bool refused(F&& fn, std::string* what = nullptr)
{
    try { fn(); } catch (const Violation&) { throw; } catch (const std::exception& e) { if (what) *what = e.what(); return true; } return false;
}
struct Bounds { bool has = false; std::map<int, std::pair<int64_t, int64_t>> dim; bool hasM = false; int mMin = 0, mMax = 0; };
static Expect inBounds(const Bounds& b, const Sb& s, std::string& why)
{
    if (b.has)
    {
        for (auto& e : b.dim) { auto it = s.coord.find(e.first); if (it == s.coord.end()) { why = "dimension-missing"; return kRefuse; } if (it->second < e.second.first || it->second >= e.second.first + e.second.second) { why = "coordinate-out-of-bounds"; return kRefuse; } }
        for (auto& e : s.coord) if (!b.dim.count(e.first)) { why = "dimension-unexpected"; return kRefuse; }
    }
    if (b.hasM) { if (!s.mValid) { why = "m-missing"; return kRefuse; } if (s.m < b.mMin || s.m > b.mMax) { why = b.has ? "m-out-of-bounds" : "m-out-of-bounds-without-dim-bounds"; return kRefuse; } }
    return kAccept;
}
static Sb spoil(Rng& r, Sb s) { switch (r.below(4)) { case 0: s.w = -r.range(1, 100); break; case 1: s.h = r.pick({ -1, INT_MIN }); break; case 2: s.pw = -1; break; default: s.ph = INT_MIN; } return s; }
// an invalid sub-block request; returns its name
template <typename TAdd> static std::string badSubBlock(Rng& r, Sb s, bool* partial, bool replacing, TAdd&& add)
{
    if (s.data.empty()) { s.data = pattern(r, 50); s.comp = 1; } if (s.md.empty()) s.md = pattern(r, 20); if (s.att.empty()) s.att = pattern(r, 20);
    int k = (int)r.below(replacing ? 5 : 9); *partial = false; const char* names[] = { "no data function", "no metadata function", "no attachment function", "negative size", "invalid compression", "data function gives null", "data function throws", "metadata null pointer", "attachment null pointer" };
    auto i = callbackInfo(r, s); bool ok;
    switch (k)
    {
    case 0: i.getData = nullptr; ok = refused([&] { add(i); }); break;
    case 1: i.getMetaData = nullptr; ok = refused([&] { add(i); }); break;
    case 2: i.getAttachment = nullptr; ok = refused([&] { add(i); }); break;
    case 3: i = callbackInfo(r, spoil(r, s)); ok = refused([&] { add(i); }); break;
    case 4: i.SetCompressionMode(libCZI::CompressionMode::Invalid); ok = refused([&] { add(i); }); break;
    case 5: { *partial = true; size_t after = r.chance(50) ? 0 : s.data.size() / 2; i.getData = [&, after](int n, size_t, const void*& p, size_t& sz) { if (n == 0 && after) { p = s.data.data(); sz = after; return true; } p = nullptr; sz = 10; return true; }; ok = refused([&] { add(i); }); } break;
    case 6: { *partial = true; auto fn = [&](int, size_t, const void*&, size_t&)->bool { throw std::runtime_error("no more data"); }; switch (r.below(3)) { case 0: i.getData = fn; break; case 1: i.getMetaData = fn; break; default: i.getAttachment = fn; } ok = refused([&] { add(i); }); } break;
    case 7: { *partial = true; libCZI::AddSubBlockInfoMemPtr m; fillBase(m, s); m.ptrData = s.data.data(); m.dataSize = (uint32_t)s.data.size(); m.ptrSbBlkMetadata = nullptr; m.sbBlkMetadataSize = 12; ok = refused([&] { add(m); }); } break;
    default: { *partial = true; libCZI::AddSubBlockInfoMemPtr m; fillBase(m, s); m.ptrData = s.data.data(); m.dataSize = (uint32_t)s.data.size(); m.ptrSbBlkAttachment = nullptr; m.sbBlkAttachmentSize = 12; ok = refused([&] { add(m); }); } break;
    }
    VH_CHECK(ok, "invalid-accepted", names[k] << ": not refused"); ev(std::string("refused:") + names[k]); return names[k];
}
// changes one of the identifying strings in its last character only
static void nearlyTheSame(Rng& r, At& a)
{
    bool t = r.chance(40); std::string& s = t ? a.type : a.name; const size_t full = t ? 8 : 80;
    switch (r.below(4)) { case 0: a.name = randomName(r, 20); break; case 1: if (!s.empty()) { s.pop_back(); break; } [[fallthrough]]; case 2: if (s.size() < full) { s += 'x'; break; } [[fallthrough]]; default: if (!s.empty()) s.back() = s.back() == 'q' ? 'r' : 'q'; } ev("nearly-the-same-attachment");
}
struct Step { int kind; Sb sb; At at; std::string xml; Bytes att; uint64_t seed; };
static std::shared_ptr<libCZI::CCziWriterInfo> info(const Doc& d, const WriteOpts& o, const Bounds& b)
{
    WriteOpts q = o; q.bounds = b.has; if (b.has) for (auto& e : b.dim) q.dimBounds.Set((DimensionIndex)e.first, (int)e.second.first, (int)e.second.second); if (b.hasM) { q.mMin = b.mMin; q.mMax = b.mMax; } return writerInfo(d, q);
}
static void writer(Rng& r)
{
    Gen g; g.maxPayload = 400; Doc d = randomDoc(r, g); d.sb.clear(); d.at.clear(); d.hasMd = false; WriteOpts o = randomWriteOpts(r, d); o.noGuid = false; if (o.resSb > 0) o.resSb %= 30; if (o.resAt > 0) o.resAt %= 30;
    auto dims = randomDims(r, 4); Bounds b; b.has = r.chance(60);
    if (b.has) for (int x : dims) if (r.chance(92)) { int lo = r.chance(80) ? r.range(-2, 2) : r.pick({ INT_MIN, -1000000, INT_MAX - 3, 5 }); int size = r.chance(85) ? r.range(0, 5) : o.resSb == 0 ? r.range(0, 20) : r.pick({ 1000000, INT_MAX, 6 }); b.dim[x] = { lo, size }; }
    if (b.has && r.chance(8)) { int x = r.range(1, 9); b.dim[x] = { 0, 3 }; }
    b.hasM = r.chance(50); if (b.hasM) { b.mMin = r.range(0, 4); b.mMax = b.mMin + r.range(0, 8); if (r.chance(8) && o.resSb != 0) { b.mMin = INT_MIN + 1; b.mMax = r.pick({ 0, INT_MAX - 1 }); } }
    auto f = makeFile(); libCZI::CZIWriterOptions wo; wo.allow_duplicate_subblocks = o.dup; auto w = libCZI::CreateCZIWriter(&wo); w->Create(std::make_shared<MemOut>(f), info(d, o, b));
    std::vector<Step> accepted; bool partial = false; std::string log;
    for (int n = r.range(3, 40); n > 0; --n)
    {
        Step st; st.kind = 0; st.seed = r.next(); int k = (int)r.below(100);
        size_t before = f->data.size();
        if (k < 60)
        {
            Sb s = randomSb(r, g, dims); if (r.chance(60)) for (auto& e : s.coord) { e.second = r.range(-3, 3); if (b.dim.count(e.first) && r.chance(80)) { auto q = b.dim[e.first]; int64_t v = r.pick({ q.first - 1, q.first, q.first, q.first + q.second / 2, q.first + q.second - 1, q.first + q.second }); e.second = (int)std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, v)); } }
            if (r.chance(50)) for (int x : dims) if (!s.coord.count(x)) s.coord[x] = b.dim.count(x) ? (int)b.dim[x].first : 0;
            if (b.hasM && r.chance(80)) { s.mValid = true; if (r.chance(80)) s.m = (int)std::max<int64_t>(INT_MIN + 1, r.pick({ (int64_t)b.mMin - 1, (int64_t)b.mMin, (int64_t)b.mMax, (int64_t)b.mMax + 1, ((int64_t)b.mMin + b.mMax) / 2 })); s.m = std::min(s.m, INT_MAX - 1); }
            if (!d.sb.empty() && r.chance(25)) { Sb t = d.sb[r.below(d.sb.size())]; t.data = s.data; t.comp = s.comp; t.md = s.md; t.att = s.att; t.pt = s.pt; if (t.comp == 0) { t.data = pattern(r, (size_t)t.pw * t.ph * bpp(t.pt)); } if (r.chance(30) && std::abs((int64_t)t.x) < 2000000000 && std::abs((int64_t)t.y) < 2000000000) { t.x += r.range(-1, 1); t.y += r.range(-1, 1); } if (r.chance(20)) { t.w = t.pw = r.range(1, 20); t.h = t.ph = r.range(1, 20); if (t.comp == 0) t.data = pattern(r, (size_t)t.pw * t.ph * bpp(t.pt)); } else if (r.chance(15)) { t.w += std::max(1, t.w / 150); t.h += std::max(1, t.h / 150); ev("nearly-the-same-zoom"); } s = t; }
            std::string why; Expect e = inBounds(b, s, why); if (e == kAccept && !o.dup) { e = writerDuplicate(d.sb, s); why = "duplicate"; } if (e == kUnclear) continue;
            ctx().currentDesc = "writer, dup " + std::to_string(o.dup) + (b.has ? " bounds" : "") + (b.hasM ? " M-bounds" : "") + "; " + log + " sub-block " + s.infoKey() + " expected " + (e == kAccept ? "accept" : "refuse " + why);
            st.sb = s; bool thrown = false; std::string msg;
            try { Rng z(st.seed); deliver(z, s, [&](const auto& i) { w->SyncAddSubBlock(i); }); } catch (const libCZI::LibCZIWriteException& x) { thrown = true; msg = x.what(); } catch (const Violation&) { throw; } catch (const std::exception& x) { fail("wrong-exception", std::string("not a LibCZIWriteException: ") + x.what()); }
            ctx().evals++;
            if (e == kRefuse) { VH_CHECK(thrown, "invalid-accepted", "a sub-block with " << why << " was accepted"); VH_EQ(f->data.size(), before, "refused-but-written", "file size after the refusal"); ev("refused:" + why); log += "-"; }
            else { VH_CHECK(!thrown, "valid-refused", "a valid sub-block was refused: " << msg); d.sb.push_back(s); accepted.push_back(st); ev("accepted"); log += "+"; }
        }
        else if (k < 75) { bool p; Sb s = randomSb(r, g, dims); for (int x : dims) s.coord[x] = b.dim.count(x) ? (int)b.dim[x].first : 0; if (b.hasM) { s.mValid = true; s.m = b.mMin; } ctx().currentDesc = "writer; " + log + " invalid"; log += "!" + badSubBlock(r, s, &p, false, [&](const auto& i) { w->SyncAddSubBlock(i); }); partial |= p; }
        else if (k < 88)
        {
            At a = randomAt(r, 300); if (!d.at.empty() && r.chance(50)) { Bytes x = a.data; a = d.at[r.below(d.at.size())]; a.data = x; if (r.chance(20)) nearlyTheSame(r, a); if (r.chance(20)) a.guid.Data4[7] ^= 1; }
            bool dup = false; for (auto& e : d.at) if (e.infoKey() == a.infoKey()) dup = true; std::string msg; ctx().currentDesc = "writer; " + log + " attachment " + a.infoKey();
            bool t = refused([&] { w->SyncAddAttachment(attInfo(a)); }, &msg); VH_CHECK(t == dup, dup ? "invalid-accepted" : "valid-refused", (dup ? "a duplicate attachment was accepted" : "a new attachment was refused: ") << msg); ev(dup ? "refused:duplicate attachment" : "accepted-attachment"); if (!dup) { d.at.push_back(a); st.kind = 1; st.at = a; accepted.push_back(st); }
        }
        else if (k < 92) { st.kind = 2; st.xml = randomXml(r); st.att = r.chance(30) ? pattern(r, 40) : Bytes(); w->SyncWriteMetadata(mdInfo(st.xml, st.att)); d.hasMd = true; d.xml = st.xml; d.mdAtt = st.att; accepted.push_back(st); }
        else
        {
            ctx().currentDesc = "writer; " + log + " invalid argument";
            if (k < 94) { At a = randomAt(r, 50); auto i = attInfo(a); i.ptrData = nullptr; i.dataSize = 20; VH_CHECK(refused([&] { w->SyncAddAttachment(i); }), "invalid-accepted", "attachment without data pointer"); }
            else if (k < 97) { libCZI::WriteMetadataInfo m; m.Clear(); std::string x = randomXml(r); if (r.chance(50)) { m.szMetadataSize = 10; } else { m.szMetadata = x.data(); m.szMetadataSize = x.size(); m.attachmentSize = 7; } VH_CHECK(refused([&] { w->SyncWriteMetadata(m); }), "invalid-accepted", "metadata without pointer"); }
            else { auto f2 = makeFile(); VH_CHECK(refused([&] { w->Create(std::make_shared<MemOut>(f2), info(d, o, b)); }), "invalid-accepted", "Create while operational"); VH_CHECK(f2->data.empty(), "refused-but-written", "Create while operational wrote"); }
            ev("refused:argument"); log += "!";
        }
        VH_EQ((size_t)w->GetStatistics().subBlockCount, d.sb.size(), "statistics", "sub-block count"); 
    }
    w->Close(); auto rd = openReader(f); compareContent(d, rd.get(), "document with refused requests"); VH_EQ(rd->GetStatistics().subBlockCount, (int)d.sb.size(), "statistics", "sub-blocks in the document");
    auto after = [&](const char* n, const std::function<void()>& fn) { VH_CHECK(refused(fn), "invalid-accepted", n << " after closing"); };
    auto bytes = f->data; Sb s = randomSb(r, g, dims); At a = randomAt(r, 40); std::string x = randomXml(r); Bytes none;
    after("SyncAddSubBlock", [&] { w->SyncAddSubBlock(callbackInfo(r, s)); }); after("SyncAddAttachment", [&] { w->SyncAddAttachment(attInfo(a)); }); after("SyncWriteMetadata", [&] { w->SyncWriteMetadata(mdInfo(x, none)); }); after("Close", [&] { w->Close(); }); after("GetStatistics", [&] { w->GetStatistics(); }); after("GetPreparedMetadata", [&] { w->GetPreparedMetadata(libCZI::PrepareMetadataInfo()); }); ev("closed-refuses");
    VH_CHECK(f->data == bytes, "refused-but-written", "the closed file was modified");
    // the same document without the refused requests
    auto f2 = makeFile(); auto w2 = r.chance(50) ? w : libCZI::CreateCZIWriter(&wo); w2->Create(std::make_shared<MemOut>(f2), info(d, o, b));
    for (auto& st : accepted) { if (st.kind == 0) { Rng z(st.seed); deliver(z, st.sb, [&](const auto& i) { w2->SyncAddSubBlock(i); }); } else if (st.kind == 1) w2->SyncAddAttachment(attInfo(st.at)); else w2->SyncWriteMetadata(mdInfo(st.xml, st.att)); }
    w2->Close(); if (!partial) { VH_CHECK(f2->data == f->data, "refusal-traces", "the document differs from the one made without the refused requests"); ev("bytes-compared"); } else { auto rd2 = openReader(f2); compareContent(d, rd2.get(), "document without refused requests"); ev("content-compared"); }
    ctx().seenHash(hash64(f->data.data(), f->data.size())); ctx().sample("writer: " + log.substr(0, 120));
}
static void editor(Rng& r)
{
    Gen g; g.maxSb = 6; g.maxAt = 3; g.maxPayload = 400; Doc d; Bytes base; if (r.chance(80)) { d = randomDoc(r, g); WriteOpts o = randomWriteOpts(r, d); if (o.resSb > 20) o.resSb %= 20; if (o.resAt > 20) o.resAt %= 20; base = writeToBytes(r, d, o); }
    auto f = makeFile(base); hist::Opts ho; hist::Session s(r, f, ho); s.dims = randomDims(r, 4);
    {
        auto rw = libCZI::CreateCZIReaderWriter(); int n = 0; Sb sb = randomSb(r, g, s.dims); At a = randomAt(r, 40); std::string x = randomXml(r); Bytes none;
        auto t = [&](const char* what, const std::function<void()>& fn) { ++n; VH_CHECK(refused(fn), "invalid-accepted", "reader-writer: " << what << " before creation"); };
        t("SyncAddSubBlock", [&] { rw->SyncAddSubBlock(callbackInfo(r, sb)); }); t("ReplaceSubBlock", [&] { rw->ReplaceSubBlock(0, callbackInfo(r, sb)); }); t("RemoveSubBlock", [&] { rw->RemoveSubBlock(0); }); t("SyncAddAttachment", [&] { rw->SyncAddAttachment(attInfo(a)); }); t("ReplaceAttachment", [&] { rw->ReplaceAttachment(0, attInfo(a)); }); t("RemoveAttachment", [&] { rw->RemoveAttachment(0); }); t("SyncWriteMetadata", [&] { rw->SyncWriteMetadata(mdInfo(x, none)); });
        t("Close", [&] { rw->Close(); }); t("ReadSubBlock", [&] { rw->ReadSubBlock(0); }); t("ReadAttachment", [&] { rw->ReadAttachment(0); }); t("ReadMetadataSegment", [&] { rw->ReadMetadataSegment(); }); t("GetStatistics", [&] { rw->GetStatistics(); }); t("GetPyramidStatistics", [&] { rw->GetPyramidStatistics(); }); t("EnumerateSubBlocks", [&] { rw->EnumerateSubBlocks([](int, const libCZI::SubBlockInfo&) { return true; }); }); t("EnumerateAttachments", [&] { rw->EnumerateAttachments([](int, const libCZI::AttachmentInfo&) { return true; }); }); t("GetFileHeaderInfo", [&] { rw->GetFileHeaderInfo(); }); t("TryGetSubBlockInfo", [&] { libCZI::SubBlockInfo i; rw->TryGetSubBlockInfo(0, &i); }); t("TryGetSubBlockInfoOfArbitrarySubBlockInChannel", [&] { libCZI::SubBlockInfo i; rw->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(0, i); }); t("EnumSubset", [&] { rw->EnumSubset(nullptr, nullptr, false, [](int, const libCZI::SubBlockInfo&) { return true; }); }); t("GetAttachmentCount", [&] { rw->GetAttachmentCount(); }); t("TransformPoint", [&] { using F = libCZI::CZIFrameOfReference; rw->TransformPoint(libCZI::IntPointAndFrameOfReference{ r.chance(50) ? F::Default : F::PixelCoordinateSystem, { 1, 2 } }, F::RawSubBlockCoordinateSystem); }); t("TryGetAttachmentInfo", [&] { libCZI::AttachmentInfo i; rw->TryGetAttachmentInfo(0, &i); }); t("EnumerateSubset", [&] { rw->EnumerateSubset(nullptr, nullptr, [](int, const libCZI::AttachmentInfo&) { return true; }); }); ev("uncreated-refuses");
        if (r.chance(50)) { s.rw = rw; rw->Create(std::make_shared<MemInOut>(f)); s.adopt(d); } else s.open(d);
    }
    std::string log; auto fileBefore = f->data;
    for (int n = r.range(3, 25); n > 0; --n)
    {
        int k = (int)r.below(100); Bytes before = f->data; bool mustRefuse = true, partial = false; std::string what;
        auto nth = [&](auto& m) { auto it = m.begin(); std::advance(it, (long)r.below(m.size())); return it; };
        if (k < 35)
        {
            Sb q = randomSb(r, g, s.dims); if (!s.m.sb.empty() && r.chance(60)) { Sb b = nth(s.m.sb)->second; q.coord = b.coord; q.mValid = b.mValid; q.m = b.m; if (r.chance(50)) { q.w = q.pw; q.h = q.ph; } if (r.chance(30)) { q.x = b.x; q.y = b.y; } if (r.chance(30) && q.m < 1000000) q.m ^= 1; }
            bool dup = false; for (auto& e : s.m.sb) if (e.second.coord == q.coord && e.second.mValid && q.mValid && e.second.m == q.m && e.second.layer0() && q.layer0()) dup = true; mustRefuse = dup; what = "duplicate sub-block"; ctx().currentDesc = "reader-writer; " + log + " sub-block " + q.infoKey(); std::string msg;
            bool t = refused([&] { deliver(r, q, [&](const auto& i) { s.rw->SyncAddSubBlock(i); }); }, &msg); VH_CHECK(t == dup, dup ? "invalid-accepted" : "valid-refused", (dup ? "a duplicate was accepted" : "a valid sub-block was refused: ") << msg); if (!dup) { int i = s.newSbIndex(); s.m.sb[i] = q; s.checkSb(i); ev("rw-accepted"); log += "+"; }
        }
        else if (k < 50) { ctx().currentDesc = "reader-writer; " + log + " invalid sub-block"; what = badSubBlock(r, randomSb(r, g, s.dims), &partial, false, [&](const auto& i) { s.rw->SyncAddSubBlock(i); }); }
        else if (k < 60 && !s.m.sb.empty()) { int i = nth(s.m.sb)->first; ctx().currentDesc = "reader-writer; " + log + " invalid replacement of " + std::to_string(i); what = "replace: " + badSubBlock(r, randomSb(r, g, s.dims), &partial, true, [&](const auto& q) { s.rw->ReplaceSubBlock(i, q); }); s.checkSb(i); }
        else if (k < 70)
        {
            At a = randomAt(r, 300); if (!s.m.at.empty() && r.chance(60)) { Bytes x = a.data; a = nth(s.m.at)->second; a.data = x; if (r.chance(20)) nearlyTheSame(r, a); if (r.chance(20)) a.guid.Data1 ^= 1; }
            bool dup = false; for (auto& e : s.m.at) if (e.second.infoKey() == a.infoKey()) dup = true; mustRefuse = dup; what = "duplicate attachment"; std::string msg; ctx().currentDesc = "reader-writer; " + log + " attachment " + a.infoKey();
            bool t = refused([&] { s.rw->SyncAddAttachment(attInfo(a)); }, &msg); VH_CHECK(t == dup, dup ? "invalid-accepted" : "valid-refused", (dup ? "a duplicate attachment was accepted" : "a new attachment was refused: ") << msg); if (!dup) { int i = s.newAtIndex(); s.m.at[i] = a; s.checkAt(i); }
        }
        else if (k < 78)
        {
            ctx().currentDesc = "reader-writer; " + log + " invalid attachment"; At a = randomAt(r, 50); auto i = attInfo(a); i.ptrData = nullptr; i.dataSize = 20; bool repl = r.chance(50) && !s.m.at.empty(); int id = repl ? nth(s.m.at)->first : 0; what = repl ? "replace: attachment without data" : "attachment without data";
            VH_CHECK(refused([&] { if (repl) s.rw->ReplaceAttachment(id, i); else s.rw->SyncAddAttachment(i); }), "invalid-accepted", what); if (repl) s.checkAt(id);
        }
        else if (k < 84) { what = "metadata without data"; ctx().currentDesc = "reader-writer; " + log + what; libCZI::WriteMetadataInfo m; m.Clear(); std::string x = randomXml(r); if (r.chance(50)) m.szMetadataSize = 10; else { m.szMetadata = x.data(); m.szMetadataSize = x.size(); m.attachmentSize = 7; } VH_CHECK(refused([&] { s.rw->SyncWriteMetadata(m); }), "invalid-accepted", what); }
        else if (k < 92)
        {
            what = "invalid index"; int bad = r.pick({ -1, 100000, INT_MAX, INT_MIN }); ctx().currentDesc = "reader-writer; " + log + what; At a = randomAt(r, 40);
            VH_CHECK(refused([&] { s.rw->RemoveSubBlock(bad); }) && refused([&] { s.rw->RemoveAttachment(bad); }) && refused([&] { s.rw->ReplaceSubBlock(bad, callbackInfo(r, randomSb(r, g, s.dims))); }) && refused([&] { s.rw->ReplaceAttachment(bad, attInfo(a)); }), "invalid-accepted", "index " << bad);
        }
        else if (k < 95) { what = "second Create"; auto f2 = makeFile(); ctx().currentDesc = "reader-writer; " + log + what; VH_CHECK(refused([&] { s.rw->Create(std::make_shared<MemInOut>(f2)); }) && f2->data.empty(), "invalid-accepted", what); }
        else { mustRefuse = false; s.step(); }
        ctx().evals++;
        if (mustRefuse) { ev("rw-refused:" + what); log += "-"; if (!partial) VH_CHECK(f->data == before, "refused-but-written", "the file was modified by a refused request: " << what); s.checkAll(); }
    }
    s.checkAll(); s.close(); auto rd = openReader(f); compareContent(s.m.toDoc(), rd.get(), "edited document with refused requests"); VH_EQ((size_t)rd->GetStatistics().subBlockCount, s.m.sb.size(), "statistics", "sub-blocks in the document"); ctx().seenHash(hash64(f->data.data(), f->data.size()));
}
static void lifecycle(Rng& r)
{
    Gen g; g.maxSb = 4; g.maxAt = 2; g.maxPayload = 200; Doc d = randomDoc(r, g); auto f = makeFile(writeToBytes(r, d)); auto rd = libCZI::CreateCZIReader(); auto w = libCZI::CreateCZIWriter(); auto dims = randomDims(r, 3); Sb sb = randomSb(r, g, dims); At a = randomAt(r, 40); std::string x = randomXml(r); Bytes none;
    auto t = [&](const char* what, const std::function<void()>& fn) { VH_CHECK(refused(fn), "invalid-accepted", what << ": not refused although not open"); ctx().evals++; };
    t("SyncAddSubBlock", [&] { w->SyncAddSubBlock(callbackInfo(r, sb)); }); t("SyncAddAttachment", [&] { w->SyncAddAttachment(attInfo(a)); }); t("SyncWriteMetadata", [&] { w->SyncWriteMetadata(mdInfo(x, none)); }); t("Close", [&] { w->Close(); }); t("GetStatistics", [&] { w->GetStatistics(); }); t("GetPreparedMetadata", [&] { w->GetPreparedMetadata(libCZI::PrepareMetadataInfo()); });
    auto all = [&]
    {
        t("ReadSubBlock", [&] { rd->ReadSubBlock(0); }); t("ReadAttachment", [&] { rd->ReadAttachment(0); }); t("ReadMetadataSegment", [&] { rd->ReadMetadataSegment(); }); t("GetStatistics", [&] { rd->GetStatistics(); }); t("GetPyramidStatistics", [&] { rd->GetPyramidStatistics(); }); t("GetFileHeaderInfo", [&] { rd->GetFileHeaderInfo(); });
        t("EnumerateSubBlocks", [&] { rd->EnumerateSubBlocks([](int, const libCZI::SubBlockInfo&) { return true; }); }); t("EnumerateAttachments", [&] { rd->EnumerateAttachments([](int, const libCZI::AttachmentInfo&) { return true; }); }); t("EnumSubset", [&] { rd->EnumSubset(nullptr, nullptr, false, [](int, const libCZI::SubBlockInfo&) { return true; }); }); t("EnumerateSubset", [&] { rd->EnumerateSubset(nullptr, nullptr, [](int, const libCZI::AttachmentInfo&) { return true; }); }); t("TryGetSubBlockInfoOfArbitrarySubBlockInChannel", [&] { libCZI::SubBlockInfo i; rd->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(0, i); }); t("EnumerateSubBlocksEx", [&] { rd->EnumerateSubBlocksEx([](int, const libCZI::DirectorySubBlockInfo&) { return true; }); });
        t("GetAttachmentCount", [&] { rd->GetAttachmentCount(); }); t("TryGetAttachmentInfo", [&] { libCZI::AttachmentInfo i; rd->TryGetAttachmentInfo(0, &i); }); t("Close", [&] { rd->Close(); }); t("CreateSingleChannelTileAccessor", [&] { rd->CreateSingleChannelTileAccessor(); }); t("CreateSingleChannelPyramidLayerTileAccessor", [&] { rd->CreateSingleChannelPyramidLayerTileAccessor(); }); t("CreateSingleChannelScalingTileAccessor", [&] { rd->CreateSingleChannelScalingTileAccessor(); });
    };
    for (int n = r.range(1, 3); n > 0; --n) { all(); if (r.chance(60)) { d = randomDoc(r, g); f = makeFile(writeToBytes(r, d)); } rd->Open(std::make_shared<MemIn>(f)); compareContent(d, rd.get(), "reopened reader"); VH_CHECK(refused([&] { rd->Open(std::make_shared<MemIn>(f)); }), "invalid-accepted", "second Open"); compareContent(d, rd.get(), "after refused second Open"); rd->Close(); }
    all(); ev("reader-lifecycle"); ctx().seenHash(hash64(f->data.data(), f->data.size()));
}
// more than the format can hold: nothing of it may be stored with a truncated size
struct BoundedOut : libCZI::IOutputStream { MemFileP f; explicit BoundedOut(MemFileP x) : f(std::move(x)) {} void Write(uint64_t o, const void* p, uint64_t n, uint64_t* d) override { if (o + n > (1u << 30)) { if (d) *d = n; return; } f->write(o, p, n, d); } };
struct BoundedInOut : libCZI::IInputOutputStream { MemFileP f; explicit BoundedInOut(MemFileP x) : f(std::move(x)) {} void Read(uint64_t o, void* p, uint64_t n, uint64_t* d) override { f->read(o, p, n, d); } void Write(uint64_t o, const void* p, uint64_t n, uint64_t* d) override { if (o + n > (1u << 30)) { if (d) *d = n; return; } f->write(o, p, n, d); } };
static void tooLarge(Rng& r)
{
    static const size_t kSize = 6ull << 30; static void* big = mmap(nullptr, kSize, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) { ev("no-sparse-memory"); return; }
    Gen g; g.maxSb = 3; g.maxAt = 1; g.maxPayload = 100; Doc d = randomDoc(r, g); auto dims = randomDims(r, 3); const size_t n = r.pick<size_t>({ 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 5ull << 30 }); const bool rw = r.chance(50); const int what = (int)r.below(4);
    MemFileP f = rw ? makeFile(writeToBytes(r, d)) : makeFile(); std::shared_ptr<libCZI::ICziWriter> w; std::shared_ptr<libCZI::ICziReaderWriter> e;
    if (rw) { e = libCZI::CreateCZIReaderWriter(); e->Create(std::make_shared<BoundedInOut>(f)); } else { w = libCZI::CreateCZIWriter(); WriteOpts o; w->Create(std::make_shared<BoundedOut>(f), writerInfo(d, o)); d.sb.clear(); d.at.clear(); d.hasMd = false; }
    ctx().currentDesc = std::string(rw ? "reader-writer" : "writer") + ", " + std::to_string(n) + " bytes of " + (what == 0 ? "XML" : what == 1 ? "metadata attachment" : what == 2 ? "sub-block metadata" : "sub-block attachment");
    const Bytes before = f->data; bool ok; std::string msg;
    if (what < 2) { libCZI::WriteMetadataInfo i; i.Clear(); std::string x = "<a/>"; i.szMetadata = what == 0 ? (const char*)big : x.c_str(); i.szMetadataSize = what == 0 ? n : x.size(); if (what == 1) { i.ptrAttachment = big; i.attachmentSize = n; } ok = refused([&] { if (rw) e->SyncWriteMetadata(i); else w->SyncWriteMetadata(i); }, &msg); }
    else { Sb s = randomSb(r, g, dims); s.mValid = true; s.m = 77777; auto i = callbackInfo(r, s); auto fn = [&](int c, size_t, const void*& p, size_t& sz) { if (c) return false; p = big; sz = n; return true; }; if (what == 2) { i.sizeMetadata = n; i.getMetaData = fn; } else { i.sizeAttachment = n; i.getAttachment = fn; } ok = refused([&] { if (rw) e->SyncAddSubBlock(i); else w->SyncAddSubBlock(i); }, &msg); }
    VH_CHECK(ok, "invalid-accepted", "accepted"); VH_CHECK(f->data == before, "refused-but-written", "the file was changed"); ev("refused:too large"); ctx().evals++; ctx().seen(ctx().currentDesc);
    std::string x = randomXml(r); Bytes none; if (rw) { e->SyncWriteMetadata(mdInfo(x, none)); e->Close(); e.reset(); } else { w->SyncWriteMetadata(mdInfo(x, none)); w->Close(); } d.hasMd = true; d.xml = x; d.mdAtt = none; auto rd = openReader(f); compareContent(d, rd.get(), "after refusal");
}
static void oneCase(Rng& r, uint64_t n) { if (n % 40 == 15) { tooLarge(r); return; } switch (n % 8) { case 7: lifecycle(r); break; case 1: case 3: case 5: editor(r); break; default: writer(r); } }
int main(int argc, char** argv) { return runMain(argc, argv, "C16", Options{ 12000, 200000 }, oneCase); }
