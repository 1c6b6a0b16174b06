// C15: every single read and write of a workload is made to fail (exception) or to transfer too few bytes; the operation in
// progress must report it, the object must stay usable, and repeating the operation must give the fault-free result.
#include "hist.hpp"
#include "comp.hpp"
using namespace vh; using namespace doc; using namespace comp;

struct Fault { bool write; bool shortT; uint64_t bytes; uint64_t pos; bool twice; };
static void arm(MemFile& f, const Fault& x)
{
    f.readNo = f.writeNo = 0; f.failReadAt = f.failWriteAt = f.shortReadAt = f.shortWriteAt = -1; f.shortBytes = x.bytes;
    if (x.write) (x.shortT ? f.shortWriteAt : f.failWriteAt) = (int64_t)x.pos; else (x.shortT ? f.shortReadAt : f.failReadAt) = (int64_t)x.pos;
}
static void again(MemFile& f, const Fault& x) // the same kind of fault hits the next transfer
{
    if (x.write) (x.shortT ? f.shortWriteAt : f.failWriteAt) = (int64_t)f.writeNo; else (x.shortT ? f.shortReadAt : f.failReadAt) = (int64_t)f.readNo;
}
static void disarm(MemFile& f) { f.failReadAt = f.failWriteAt = f.shortReadAt = f.shortWriteAt = -1; }
static Fault randomFault(Rng& r, bool write, uint64_t pos) { return { write, r.chance(50), r.chance(40) ? 0 : r.chance(50) ? (uint64_t)r.range(1, 40) : (uint64_t)1 << 40, pos, r.chance(20) }; }
static std::string name(const Fault& x) { std::ostringstream o; o << (x.write ? "write " : "read ") << x.pos << (x.shortT ? " short(" + std::to_string(x.bytes) + ")" : " failing") << (x.twice ? " twice" : ""); return o.str(); }

// run `fn` until it succeeds; returns how often it reported an error
static int persist(MemFile& f, const Fault& x, const std::string& what, bool mayTolerate, const std::function<void()>& fn, const std::function<void()>& afterFailure = nullptr)
{
    int thrown = 0; bool twice = x.twice && !(!x.write && x.shortT && (what == "Open" || what == "rw Create")); // (a stream too short for a file header is regarded as new by the reader-writer)
    for (;;)
    {
        uint64_t before = f.faultsDelivered; bool threw = false; std::string msg;
        try { fn(); } catch (const Violation&) { throw; } catch (const std::exception& e) { threw = true; msg = e.what(); }
        bool faulted = f.faultsDelivered != before; ctx().evals++;
        if (threw && !faulted) fail(thrown ? "fault-retry-fails" : "fault-lasting", what + " fails although the stream works" + (thrown ? " (repeated after the fault)" : "") + ": " + msg);
        if (faulted && !threw) { if (!mayTolerate) fail("fault-not-reported", what + " did not report the fault"); ev("fault-tolerated"); }
        if (!threw) return thrown;
        ++thrown; ev(std::string("fault-reported-") + (x.write ? "write" : "read") + (x.shortT ? "-short" : "")); ev("fault-in:" + what);
        if (afterFailure) afterFailure();
        if (twice && thrown == 1) again(f, x); else disarm(f);
    }
}

// ---- reading ----------------------------------------------------------------------------------------------------------
static std::string digest(const Bytes& b) { return std::to_string(b.size()) + ":" + std::to_string(hash64(b.data(), b.size())); }
struct ReadOp { std::string name; std::function<std::string(libCZI::ICZIReader*, libCZI::ICziReaderWriter*)> fn; };
template <typename T> static void addCommon(std::vector<std::pair<std::string, std::function<std::string(T*)>>>& ops, size_t nsb, size_t nat)
{
    for (size_t i = 0; i < nsb; ++i) ops.push_back({ "ReadSubBlock", [i](T* t) { auto s = t->ReadSubBlock((int)i); return s ? fromSubBlock(s.get()).key() : std::string("none"); } });
    for (size_t i = 0; i < nat; ++i) ops.push_back({ "ReadAttachment", [i](T* t) { auto s = t->ReadAttachment((int)i); return s ? fromAttachment(s.get()).key() : std::string("none"); } });
}
static std::string mdDigest(libCZI::IMetadataSegment* m)
{
    if (!m) return "none"; std::string o; for (auto t : { libCZI::IMetadataSegment::XmlMetadata, libCZI::IMetadataSegment::Attachment }) { const void* p = nullptr; size_t n = 0; m->DangerousGetRawData(t, p, n); o += digest(Bytes((const uint8_t*)p, (const uint8_t*)p + n)) + ";"; } return o;
}
template <typename T> static std::string structure(T* t)
{
    std::ostringstream o; t->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { o << i << "=" << fromInfo(inf).infoKey() << ";"; return true; }); t->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo& inf) { o << i << "=" << fromAtInfo(inf).infoKey() << ";"; return true; });
    auto s = t->GetStatistics(); o << s.subBlockCount << "," << s.boundingBox.x << "," << s.boundingBox.y << "," << s.boundingBox.w << "," << s.boundingBox.h; auto h = t->GetFileHeaderInfo(); o << "," << h.fileGuid.Data1; return o.str();
}
struct Sut { std::shared_ptr<libCZI::ICZIReader> rd; std::shared_ptr<libCZI::ICziReaderWriter> rw; std::shared_ptr<libCZI::ISubBlockRepository> repo() { if (rd) return rd; return rw; } };
static void reading(Rng& r)
{
    bool useRw = r.chance(40); MemFileP base; std::vector<std::pair<std::string, std::function<std::string(Sut&)>>> ops; std::shared_ptr<TileDoc> td;
    if (r.chance(50)) { Gen g; g.maxSb = 5; g.maxAt = 3; g.maxPayload = 600; Doc d = randomDoc(r, g); base = makeFile(writeToBytes(r, d)); size_t nsb = d.sb.size(), nat = d.at.size();
        ops.push_back({ "structure", [](Sut& s) { return s.rd ? structure(s.rd.get()) : structure(s.rw.get()); } });
        for (size_t i = 0; i < nsb; ++i) ops.push_back({ "ReadSubBlock", [i](Sut& s) { auto b = s.repo()->ReadSubBlock((int)i); return b ? fromSubBlock(b.get()).key() : std::string("none"); } });
        for (size_t i = 0; i < nat; ++i) ops.push_back({ "ReadAttachment", [i](Sut& s) { auto a = s.rd ? s.rd->ReadAttachment((int)i) : s.rw->ReadAttachment((int)i); return a ? fromAttachment(a.get()).key() : std::string("none"); } });
        if (d.hasMd) ops.push_back({ "ReadMetadataSegment", [](Sut& s) { auto m = s.rd ? s.rd->ReadMetadataSegment() : s.rw->ReadMetadataSegment(); return mdDigest(m.get()); } }); }
    else
    {
        TileGen g; g.layers = true; g.maxLayer = 1; g.align = 4; g.masks = r.chance(50); g.maxTiles = 6; g.extent = 30; g.maxSize = 20; g.mixedTypes = false; td = std::make_shared<TileDoc>(makeTiles(r, g)); base = td->file;
        std::vector<const Tile*> all; for (auto& x : td->t) all.push_back(&x); int dt = destType(r, all); if (dt < 0) return;
        for (int q = r.range(1, 3); q > 0; --q)
        {
            auto pc = toCoord(randomPlane(r, *td)); IntRect roi = randomRoi(r, *td); roi.x = (roi.x >> 2) * 4; roi.y = (roi.y >> 2) * 4; roi.w = std::max(roi.w, 4); roi.h = std::max(roi.h, 4); int kind = (int)r.below(3); bool mask = r.chance(50); float zoom = r.pick({ 1.f, 0.5f }); bool cached = r.chance(40);
            ops.push_back({ "composition", [=](Sut& s) {
                auto common = [&](auto& o) { o.Clear(); o.backGroundColor = RgbFloatColor{ 0.1f, 0.2f, 0.3f }; o.maskAware = mask; if (cached) { o.subBlockCache = libCZI::CreateSubBlockCache(); } };
                Img m;
                if (kind == 0) { libCZI::ISingleChannelTileAccessor::Options o; common(o); m = fromBitmap(accessor<libCZI::ISingleChannelTileAccessor>(s.repo(), libCZI::AccessorType::SingleChannelTileAccessor)->Get((PixelType)dt, roi, &pc, &o).get()); }
                else if (kind == 1) { libCZI::ISingleChannelPyramidLayerTileAccessor::Options o; common(o); m = fromBitmap(accessor<libCZI::ISingleChannelPyramidLayerTileAccessor>(s.repo(), libCZI::AccessorType::SingleChannelPyramidLayerTileAccessor)->Get((PixelType)dt, roi, &pc, { 2, 1 }, &o).get()); }
                else { libCZI::ISingleChannelScalingTileAccessor::Options o; common(o); m = fromBitmap(accessor<libCZI::ISingleChannelScalingTileAccessor>(s.repo(), libCZI::AccessorType::SingleChannelScalingTileAccessor)->Get((PixelType)dt, roi, &pc, zoom, &o).get()); }
                return describe(m) + digest(m.d); } });
        }
    }
    auto run = [&](const MemFileP& f, const std::function<std::string(size_t, const std::string&, const std::function<std::string()>&)>& exec)
    {
        Sut s; if (useRw) s.rw = libCZI::CreateCZIReaderWriter(); else s.rd = libCZI::CreateCZIReader();
        exec(0, "Open", [&] { if (useRw) s.rw->Create(std::make_shared<MemInOut>(f)); else s.rd->Open(std::make_shared<MemIn>(f)); return useRw ? structure(s.rw.get()) : structure(s.rd.get()); });
        for (size_t i = 0; i < ops.size(); ++i) exec(i + 1, ops[i].first, [&] { return ops[i].second(s); });
    };
    std::vector<std::string> expected; auto f0 = makeFile(base->data); run(f0, [&](size_t, const std::string&, const std::function<std::string()>& fn) { expected.push_back(fn()); return std::string(); });
    uint64_t total = f0->readNo; ctx().sample(std::string(useRw ? "reader-writer" : "reader") + ", " + std::to_string(ops.size()) + " operations, " + std::to_string(total) + " reads");
    uint64_t n = std::min<uint64_t>(total, 40), start = r.below(total);
    for (uint64_t k = 0; k < n; ++k)
    {
        Fault x = randomFault(r, false, (start + k) % total); if (useRw && x.pos == 0) x.shortT = false; // (a stream too short for a file header is regarded as new by the reader-writer)
        ctx().currentDesc = std::string(useRw ? "reader-writer, " : "reader, ") + name(x) + " of " + std::to_string(total); auto f = makeFile(base->data); arm(*f, x);
        run(f, [&](size_t i, const std::string& what, const std::function<std::string()>& fn)
        {
            std::string got; persist(*f, x, what, true, [&] { got = fn(); }); VH_CHECK(got == expected[i], "fault-wrong-data", what << " gave data differing from the fault-free ones"); return got;
        });
        VH_CHECK(f->data == base->data, "fault-file-modified", "reading modified the file"); ev("read-faults"); ctx().seenHash(hash64(&x, 32, hash64(base->data.data(), base->data.size())));
    }
}

static bool mdIs(libCZI::IMetadataSegment* m, const std::string& xml, const Bytes& att)
{
    const void* p = nullptr; size_t n = 0; m->DangerousGetRawData(libCZI::IMetadataSegment::XmlMetadata, p, n); if (std::string((const char*)p, n) != xml) return false;
    m->DangerousGetRawData(libCZI::IMetadataSegment::Attachment, p, n); return Bytes((const uint8_t*)p, (const uint8_t*)p + n) == att;
}
// ---- writing ------------------------------------------------------------------------------------------------------------
struct WOp { int kind; size_t idx; uint64_t seed; std::string xml; Bytes att; bool grow = false; };
// text which is longer than anything the same document had as metadata before (so that it cannot be written in place)
static std::string grownXml(Rng& r, size_t no) { return "<grown>" + std::string(12000 * (no + 1) + r.below(3000), 'g') + "</grown>"; }
static Doc runWriter(Rng& r, const Doc& d, const WriteOpts& o, const std::vector<WOp>& ops, const MemFileP& f, const Fault* x, std::unique_ptr<Doc>& alt)
{
    Fault none{ true, false, 0, 0, false }; const Fault& q = x ? *x : none; const bool clean = !q.shortT || q.bytes == 0; /* (a mark may otherwise be written partly) */
    libCZI::CZIWriterOptions wo; wo.allow_duplicate_subblocks = o.dup; auto w = libCZI::CreateCZIWriter(&wo); Doc m; m.guid = d.guid;
    persist(*f, q, "writer Create", false, [&] { w->Create(std::make_shared<MemOut>(f), writerInfo(d, o)); });
    for (auto& op : ops)
    {
        // a failed addition is repeated or given up
        bool giveUp = r.chance(40), failed = false; struct GaveUp {};
        auto after = [&]() { failed = true; if (giveUp) { disarm(*f); throw GaveUp(); } };
        try
        {
            if (op.kind == 0) { persist(*f, q, "writer SyncAddSubBlock", false, [&] { Rng z(op.seed); deliver(z, d.sb[op.idx], [&](const auto& i) { w->SyncAddSubBlock(i); }); }, after); m.sb.push_back(d.sb[op.idx]); if (alt) alt->sb.push_back(d.sb[op.idx]); }
            else if (op.kind == 1) { persist(*f, q, "writer SyncAddAttachment", false, [&] { w->SyncAddAttachment(attInfo(d.at[op.idx])); }, after); m.at.push_back(d.at[op.idx]); if (alt) alt->at.push_back(d.at[op.idx]); }
            else { auto set = [&](Doc& t) { t.hasMd = true; t.xml = op.xml; t.mdAtt = op.att; }; if (alt) set(*alt); persist(*f, q, "writer SyncWriteMetadata", false, [&] { w->SyncWriteMetadata(mdInfo(op.xml, op.att)); }, [&] { if (op.grow && giveUp && clean) { alt = std::make_unique<Doc>(m); set(*alt); disarm(*f); ev("gave-up-metadata"); throw GaveUp(); } }); set(m); }
        }
        catch (GaveUp&) { ev("gave-up-adding"); }
        if (failed) { VH_EQ((size_t)w->GetStatistics().subBlockCount, m.sb.size(), "fault-statistics", "sub-block count after a failed addition"); }
    }
    persist(*f, q, "writer Close", false, [&] { w->Close(); });
    return m;
}
static void writing(Rng& r)
{
    Gen g; g.maxSb = 5; g.maxAt = 3; g.maxPayload = 600; Doc d = randomDoc(r, g); WriteOpts o = randomWriteOpts(r, d); if (o.resSb > 20) o.resSb %= 20; if (o.resAt > 20) o.resAt %= 20;
    std::vector<WOp> ops; for (size_t i = 0; i < d.sb.size(); ++i) ops.push_back({ 0, i, r.next(), "", {} }); for (size_t i = 0; i < d.at.size(); ++i) ops.push_back({ 1, i, 0, "", {} }); for (int i = r.range(0, 3); i > 0; --i) ops.push_back({ 2, 0, 0, randomXml(r), r.chance(30) ? pattern(r, (size_t)sizeLike(r, 300)) : Bytes() });
    r.shuffle(ops); size_t no = 0; for (auto& op : ops) if (op.kind == 2 && r.chance(50)) { op.xml = grownXml(r, no++); op.grow = true; }
    auto f0 = makeFile(); Rng q(1); std::unique_ptr<Doc> noAlt; runWriter(q, d, o, ops, f0, nullptr, noAlt); uint64_t total = f0->writeNo; ctx().sample("writer, " + std::to_string(ops.size()) + " operations, " + std::to_string(total) + " writes");
    uint64_t n = std::min<uint64_t>(total, 40), start = r.below(total);
    for (uint64_t k = 0; k < n; ++k)
    {
        Fault x = randomFault(r, true, (start + k) % total); ctx().currentDesc = "writer, " + name(x) + " of " + std::to_string(total) + "; " + summary(d); auto f = makeFile(); arm(*f, x); std::unique_ptr<Doc> alt; Doc m = runWriter(r, d, o, ops, f, &x, alt); disarm(*f);
        auto rd = openReader(f); if (alt) { std::shared_ptr<libCZI::IMetadataSegment> seg; try { seg = rd->ReadMetadataSegment(); } catch (const libCZI::LibCZISegmentNotPresent&) { } if (seg && mdIs(seg.get(), alt->xml, alt->mdAtt)) m = *alt; } compareContent(m, rd.get(), "reader after a write fault"); auto v = czi::validate(f->data, false); VH_EQ(v.sb.size(), m.sb.size(), "fault-structure", "sub-block segments"); if (!m.hasMd) { bool t = false; try { t = rd->ReadMetadataSegment() == nullptr; } catch (const libCZI::LibCZISegmentNotPresent&) { t = true; } VH_CHECK(t, "fault-metadata", "metadata which was never written"); }
        ev("write-faults"); ctx().seenHash(hash64(f->data.data(), f->data.size()));
    }
}

// ---- editing --------------------------------------------------------------------------------------------------------------
struct EOp { int kind; uint64_t which; uint64_t seed; Sb sb; At at; std::string xml; Bytes att; bool grow = false; };
static Doc runEdit(Rng& r, const Doc& d, const std::vector<EOp>& ops, const MemFileP& f, const Fault* x)
{
    Fault none{ true, false, 0, 0, false }; const Fault& q = x ? *x : none; const bool clean = !q.shortT || q.bytes == 0; /* (a mark may otherwise be written partly) */ hist::Opts ho; Rng dummy(5); hist::Session s(dummy, f, ho); struct GaveUp {};
    auto rw = libCZI::CreateCZIReaderWriter(); persist(*f, q, "rw Create", false, [&] { rw->Create(std::make_shared<MemInOut>(f), std::make_shared<libCZI::CCziReaderWriterInfo>(libCZI::GUID{ 1,2,3,{4,5,6,7,8,9,1,2} })); });
    s.rw = rw; persist(*f, q, "rw reading", false, [&] { s.adopt(d); });
    auto sync = [&]() { size_t n = 0; rw->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { ++n; auto it = s.m.sb.find(i); VH_CHECK(it != s.m.sb.end() && it->second.infoKey() == fromInfo(inf).infoKey(), "fault-state", "sub-block " << i << " after a failed operation"); return true; }); VH_EQ(n, s.m.sb.size(), "fault-state", "sub-blocks after a failed operation"); VH_EQ((size_t)rw->GetAttachmentCount(), s.m.at.size(), "fault-state", "attachments after a failed operation"); };
    for (auto& op : ops)
    {
        bool giveUp = r.chance(40); auto after = [&]() { sync(); if (giveUp) { disarm(*f); throw GaveUp(); } };
        // a replacement which cannot take place in the existing segment, and which is given up, leaves the old item or the new one
        auto afterGrow = [&](const char* what, const std::function<bool()>& isNew, const std::function<bool()>& isOld, const std::function<void()>& adopt) { if (!op.grow || !giveUp || !clean) return; disarm(*f); bool n = false, o = false; std::string msg; try { n = isNew(); o = isOld(); } catch (const std::exception& e) { msg = e.what(); } VH_CHECK(n || o, "fault-replace-lost", what << ": neither the old item nor the new one is there after a failed replacement " << msg); if (n) adopt(); ev("gave-up-replacing"); ctx().evals++; throw GaveUp(); };
        auto nth = [&](auto& m) { auto it = m.begin(); std::advance(it, (long)(op.which % m.size())); return it; };
        try
        {
            switch (op.kind)
            {
            case 0: { bool clash = false; for (auto& e : s.m.sb) if (e.second.coord == op.sb.coord && e.second.mValid && op.sb.mValid && e.second.m == op.sb.m) clash = true; if (clash) break; persist(*f, q, "rw SyncAddSubBlock", false, [&] { Rng z(op.seed); deliver(z, op.sb, [&](const auto& i) { rw->SyncAddSubBlock(i); }); }, after); s.m.sb[s.newSbIndex()] = op.sb; } break;
            case 1: if (!s.m.sb.empty()) { auto it = nth(s.m.sb); persist(*f, q, "rw ReplaceSubBlock", false, [&] { Rng z(op.seed); deliver(z, op.sb, [&](const auto& i) { rw->ReplaceSubBlock(it->first, i); }); }, [&] { auto is = [&](const Sb& e) { auto t = rw->ReadSubBlock(it->first); return t && fromSubBlock(t.get()).key() == e.key(); }; afterGrow("ReplaceSubBlock", [&] { return is(op.sb); }, [&] { return is(it->second); }, [&] { it->second = op.sb; }); }); it->second = op.sb; } break;
            case 2: if (!s.m.sb.empty()) { auto it = nth(s.m.sb); int k = it->first; bool gone = false; persist(*f, q, "rw RemoveSubBlock", false, [&] { if (gone) return; rw->RemoveSubBlock(k); }, [&] { gone = !rw->TryGetSubBlockInfo(k, nullptr); }); VH_CHECK(!rw->TryGetSubBlockInfo(k, nullptr), "fault-state", "removed sub-block still there"); s.m.sb.erase(it); } break;
            case 3: persist(*f, q, "rw SyncAddAttachment", false, [&] { rw->SyncAddAttachment(attInfo(op.at)); }, after); s.m.at[s.newAtIndex()] = op.at; break;
            case 4: if (!s.m.at.empty()) { auto it = nth(s.m.at); persist(*f, q, "rw ReplaceAttachment", false, [&] { rw->ReplaceAttachment(it->first, attInfo(op.at)); }, [&] { auto is = [&](const At& e) { auto t = rw->ReadAttachment(it->first); return t && fromAttachment(t.get()).key() == e.key(); }; afterGrow("ReplaceAttachment", [&] { return is(op.at); }, [&] { return is(it->second); }, [&] { it->second = op.at; }); }); it->second = op.at; } break;
            case 5: if (!s.m.at.empty()) { auto it = nth(s.m.at); int k = it->first; bool gone = false; persist(*f, q, "rw RemoveAttachment", false, [&] { if (gone) return; rw->RemoveAttachment(k); }, [&] { gone = !rw->TryGetAttachmentInfo(k, nullptr); }); VH_CHECK(!rw->TryGetAttachmentInfo(k, nullptr), "fault-state", "removed attachment still there"); s.m.at.erase(it); } break;
            case 6: persist(*f, q, "rw SyncWriteMetadata", false, [&] { rw->SyncWriteMetadata(mdInfo(op.xml, op.att)); }, [&] { auto is = [&](bool has, const std::string& xml, const Bytes& att) { std::shared_ptr<libCZI::IMetadataSegment> t; try { t = rw->ReadMetadataSegment(); } catch (const libCZI::LibCZISegmentNotPresent&) { } return has ? t && mdIs(t.get(), xml, att) : !t; }; afterGrow("SyncWriteMetadata", [&] { return is(true, op.xml, op.att); }, [&] { return is(s.m.hasMd, s.m.xml, s.m.mdAtt); }, [&] { s.m.hasMd = true; s.m.xml = op.xml; s.m.mdAtt = op.att; }); }); s.m.hasMd = true; s.m.xml = op.xml; s.m.mdAtt = op.att; break;
            default: persist(*f, q, "rw reading", true, [&] { s.checkAll(); }); break;
            }
        }
        catch (GaveUp&) { ev("gave-up-adding"); }
    }
    persist(*f, q, "rw Close", false, [&] { rw->Close(); });
    return s.m.toDoc();
}
static void editing(Rng& r)
{
    Gen g; g.maxSb = 5; g.maxAt = 3; g.maxPayload = 500; Doc d; Bytes base; if (r.chance(80)) { d = randomDoc(r, g); WriteOpts o = randomWriteOpts(r, d); o.noGuid = false; if (o.resSb > 20) o.resSb %= 20; if (o.resAt > 20) o.resAt %= 20; base = writeToBytes(r, d, o); }
    auto dims = randomDims(r, 4); std::vector<EOp> ops; for (int i = r.range(1, 8); i > 0; --i) { EOp e; e.kind = (int)r.below(8); e.which = r.next(); e.seed = r.next(); e.sb = randomSb(r, g, dims); if (e.kind == 1 && r.chance(50)) { e.sb.data.clear(); e.sb.comp = 1; } e.at = randomAt(r, 500); e.xml = randomXml(r); if (r.chance(30)) e.att = pattern(r, (size_t)sizeLike(r, 300)); ops.push_back(e); }
    size_t no = 0; for (auto& e : ops) if (r.chance(40)) { if (e.kind == 6) { e.xml = grownXml(r, no++); e.grow = true; } else if (e.kind == 4) { e.at.data = pattern(r, 40000 * ++no + (size_t)r.below(500)); e.grow = true; } else if (e.kind == 1) { e.sb.comp = (int)r.range(2000, 3000); e.sb.data = pattern(r, 40000 * ++no + (size_t)r.below(500)); e.grow = true; } }
    auto f0 = makeFile(base); Rng q(1); runEdit(q, d, ops, f0, nullptr); uint64_t reads = f0->readNo, writes = f0->writeNo; ctx().sample("reader-writer, " + std::to_string(ops.size()) + " edits, " + std::to_string(reads) + " reads, " + std::to_string(writes) + " writes");
    uint64_t total = reads + writes, n = std::min<uint64_t>(total, 40), start = r.below(total);
    for (uint64_t k = 0; k < n; ++k)
    {
        uint64_t p = (start + k) % total; Fault x = p < reads ? randomFault(r, false, p) : randomFault(r, true, p - reads); if (!x.write && x.pos == 0) x.shortT = false;
        std::string kinds; for (auto& e : ops) kinds += std::to_string(e.kind); ctx().currentDesc = "editing " + kinds + ", " + name(x) + " of " + std::to_string(reads) + "/" + std::to_string(writes) + "; " + summary(d); auto f = makeFile(base); arm(*f, x); Doc m = runEdit(r, d, ops, f, &x); disarm(*f);
        auto rd = openReader(f); compareContent(m, rd.get(), "reader after a fault while editing"); ev("edit-faults"); ctx().seenHash(hash64(f->data.data(), f->data.size()));
    }
}
static void oneCase(Rng& r, uint64_t n) { switch (n % 3) { case 0: reading(r); break; case 1: writing(r); break; default: editing(r); } }
int main(int argc, char** argv) { return runMain(argc, argv, "C15", Options{ 3000, 60000 }, oneCase); }
