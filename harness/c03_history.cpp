// C03: in-place editing equals the edit history applied to a model.
#include "hist.hpp"
using namespace vh; using namespace doc;

struct Info : libCZI::ICziReaderWriterInfo
{
    bool force; libCZI::GUID guid; Info(bool f, const libCZI::GUID& g) : force(f), guid(g) {}
    bool GetForceFileGuid() const override { return force; }
    const libCZI::GUID& GetFileGuid() const override { return guid; }
    libCZI::CZIFrameOfReference GetDefaultFrameOfReference() const override { return libCZI::CZIFrameOfReference::Invalid; }
};
static void oneCase(Rng& r, uint64_t)
{
    Gen g; g.maxSb = r.chance(10) ? 40 : 8; bool large = r.below(200) == 0; if (r.below(200) == 0) { g.minSb = 400; g.maxSb = 900; g.maxPayload = 40; ev("many-subblocks"); }
    auto f = makeFile(); Doc cur; cur.guid = libCZI::GUID{ 0,0,0,{0,0,0,0,0,0,0,0} };
    if (r.chance(25)) { cur = randomDoc(r, g); Layout lay; lay.zeroSlack = r.chance(50); lay.huge = r.chance(15); f->data = compose(r, cur, lay); f->holeAt = lay.holeAt; f->holeLen = lay.holeLen; if (lay.huge) ev("huge-file"); auto rd = openReader(f); compareContent(cur, rd.get(), "foreign layout"); ev("existing-file"); }
    else if (r.chance(7)) { cur = randomDoc(r, g); writeHuge(r, cur, f, randomWriteOpts(r, cur)); ev("existing-file"); }
    else if (r.chance(70)) { cur = randomDoc(r, g); WriteOpts o = randomWriteOpts(r, cur); write(r, cur, std::make_shared<MemOut>(f), o); ev("existing-file"); } else ev("new-file");
    if (!f->data.empty()) { auto rd = openReader(f); cur.guid = rd->GetFileHeaderInfo().fileGuid; }
    int sessions = r.range(1, 4);
    for (int i = 0; i < sessions; ++i)
    {
        hist::Opts ho; ho.steps = r.chance(20) ? 0 : r.range(1, 30); ho.maxPayload = r.chance(5) ? 100000 : 1500; if (large) { ho.maxPayload = 2500000; ho.steps = std::min(ho.steps, 12); ev("large-payloads"); }
        hist::Session s(r, f, ho);
        // the GUID of the file: kept, or replaced if requested
        const libCZI::GUID none{ 0,0,0,{0,0,0,0,0,0,0,0} }; std::shared_ptr<Info> info; if (r.chance(40)) info = std::make_shared<Info>(r.chance(60), r.chance(70) ? randomGuid(r) : none);
        bool isNew = f->data.empty(); libCZI::GUID expect = cur.guid; bool fresh = false;
        if (info && (info->force || isNew)) { expect = info->guid; fresh = guidEq(expect, none); if (info->force) ev("guid-forced"); } else if (isNew) fresh = true;
        s.open(cur, info);
        libCZI::GUID shown = s.rw->GetFileHeaderInfo().fileGuid;
        if (fresh) VH_CHECK(!guidEq(shown, none) && !guidEq(shown, cur.guid), "file-guid", "no new GUID was generated"); else VH_CHECK(guidEq(shown, expect), "file-guid", "GUID of the file while editing");
        for (int k = 0; k < ho.steps; ++k) s.step();
        s.checkAll();
        cur = s.m.toDoc();
        VH_CHECK(guidEq(shown, s.rw->GetFileHeaderInfo().fileGuid), "file-guid", "GUID of the file after editing"); cur.guid = shown;
        s.close();
        ctx().currentDesc = s.log; ctx().sample(s.log.substr(0, 300)); ctx().seen(s.log);
        auto rd = openReader(f); compareContent(cur, rd.get(), "reader after editing"); ev("reader-compare");
        VH_CHECK(!f->holeDamaged, "unrelated-bytes", "data was written into a deleted segment");
        auto h = rd->GetFileHeaderInfo(); VH_CHECK(guidEq(h.fileGuid, shown) && h.majorVersion == 1 && h.minorVersion == 0, "file-guid", "GUID of the closed file");
        Bytes pg = czi::header(f->data).primaryGuid, fg = czi::header(f->data).fileGuid; VH_CHECK(pg == fg, "file-guid", "primary GUID and file GUID differ");
        stats::check(cur.sb, rd->GetStatistics(), rd->GetPyramidStatistics(), true, "reader after editing");
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C03", Options{ 2000, 40000 }, oneCase); }
