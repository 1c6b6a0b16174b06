// C01: what is written is what a reader gets back.
#include "doc.hpp"
using namespace vh; using namespace doc;

static void oneCase(Rng& r, uint64_t)
{
    Gen g; if (ctx().thorough || r.chance(5)) g.maxSb = r.pick({ 12, 40, 120 });
    if (r.chance(3)) g.maxPayload = 200000; else if (r.chance(15)) g.maxPayload = 30000;
    if (r.below(250) == 0) { g.maxPayload = 4000000; g.maxSb = 3; ev("large-payloads"); } else if (r.below(200) == 0) { g.minSb = 600; g.maxSb = 1500; g.maxPayload = 40; ev("many-subblocks"); }
    Doc d = randomDoc(r, g);
    WriteOpts o = randomWriteOpts(r, d);
    if (o.dup && !d.sb.empty()) { int n = r.range(1, 3); for (int i = 0; i < n; ++i) { Sb s = d.sb[r.below(d.sb.size())]; if (r.chance(60)) { s.data = pattern(r, s.data.size()); s.md = pattern(r, (size_t)sizeLike(r, 300)); } d.sb.push_back(s); ev("duplicate-added"); } }
    ctx().currentDesc = summary(d) + (o.dup ? ", duplicates allowed" : "") + " reserved sb=" + std::to_string(o.resSb) + " at=" + std::to_string(o.resAt) + " md=" + std::to_string(o.resMd);
    ctx().sample(ctx().currentDesc);
    auto f = makeFile(); f->record = true;
    if (r.chance(4)) writeHuge(r, d, f, o); else write(r, d, std::make_shared<MemOut>(f), o);
    {
        libCZI::ICZIReader::OpenOptions oo; oo.SetDefault();
        if (r.chance(50)) oo.lax_subblock_coordinate_checks = false; // a file written by the library must pass the strict checks as well
        auto rd = openReader(f, &oo);
        compareContent(d, rd.get(), "reader");
        auto h = rd->GetFileHeaderInfo();
        VH_CHECK(h.majorVersion == 1 && h.minorVersion == 0, "file-header", "version " << h.majorVersion << "." << h.minorVersion);
        if (!o.noGuid) VH_CHECK(guidEq(h.fileGuid, d.guid), "file-guid", "the file GUID is not the one requested");
        else VH_CHECK(!guidEq(h.fileGuid, libCZI::GUID{ 0,0,0,{0,0,0,0,0,0,0,0} }), "file-guid", "no GUID was generated");
        if (!d.hasMd && o.resMd < 0) {}
        rd->Close();
    }
    // an independent parse of the container must see the same document
    {
        auto h = czi::header(f->data);
        std::multiset<std::string> e, got;
        for (auto& s : d.sb) e.insert(s.key());
        if (h.sbDir) for (auto& en : czi::sbDirectory(f->data, f->inData((uint64_t)h.sbDir)))
        {
            auto q = czi::subblock(f->data, f->inData((uint64_t)en.filePos));
            Sb s; s.pt = en.pixelType; s.comp = en.compression; s.pyr = en.spare[0];
            for (auto& dm : en.dims)
            {
                if (dm.dim == "X") { s.x = dm.start; s.w = dm.size; s.pw = dm.stored; }
                else if (dm.dim == "Y") { s.y = dm.start; s.h = dm.size; s.ph = dm.stored; }
                else if (dm.dim == "M") { s.mValid = true; s.m = dm.start; }
                else { const char* p = dm.dim.size() == 1 ? strchr(kDims + 1, dm.dim[0]) : nullptr; VH_CHECK(p, "independent-parse", "unknown dimension '" << dm.dim << "'"); s.coord[(int)(p - kDims)] = dm.start; VH_EQ(dm.size, 1, "independent-parse", "size of dimension " << dm.dim); }
            }
            s.md = czi::slice(f->data, q.mdPos, (uint32_t)q.mdSize); s.data = czi::slice(f->data, q.dataPos, (uint64_t)q.dataSize); s.att = czi::slice(f->data, q.attPos, (uint32_t)q.attSize);
            got.insert(s.key()); ev("subblock-parsed-independently");
        }
        VH_CHECK(e == got, "independent-parse", diffMultiset(e, got));
    }
    ctx().seenHash(hash64(f->data.data(), f->data.size()));
}
int main(int argc, char** argv) { return runMain(argc, argv, "C01", Options{ 2400, 40000 }, oneCase); }
