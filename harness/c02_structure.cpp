// C02: files left behind by the writer and the reader-writer are well-formed containers.
#include "hist.hpp"
using namespace vh; using namespace doc;

static void oneCase(Rng& r, uint64_t)
{
    Gen g; g.maxSb = r.chance(10) ? 60 : 10;
    Doc d = randomDoc(r, g); WriteOpts o = randomWriteOpts(r, d);
    if (o.dup && !d.sb.empty() && r.chance(60)) d.sb.push_back(d.sb[r.below(d.sb.size())]);
    ctx().currentDesc = summary(d) + " reserved sb=" + std::to_string(o.resSb) + " at=" + std::to_string(o.resAt) + " md=" + std::to_string(o.resMd);
    ctx().sample(ctx().currentDesc);
    auto f = makeFile();
    bool fromWriter = !r.chance(20);
    Doc cur;
    if (fromWriter)
    {
        write(r, d, std::make_shared<MemOut>(f), o);
        auto s = czi::validate(f->data, true);
        VH_EQ(s.sb.size(), d.sb.size(), "structure-count", "sub-block segments"); VH_EQ(s.at.size(), d.at.size(), "structure-count", "attachment segments");
        if (d.hasMd) VH_CHECK(s.h.md != 0, "structure-metadata", "no metadata segment");
        ev("writer-file-validated"); ev("live-segments", s.live.size()); cur = d;
        ctx().seenHash(hash64(f->data.data(), f->data.size()));
    }
    else if (!o.dup && r.chance(50)) { f->data = compose(r, d); czi::validate(f->data, true); cur = d; }
    int sessions = r.chance(30) ? 0 : r.range(1, 3);
    for (int i = 0; i < sessions; ++i)
    {
        hist::Opts ho; ho.steps = r.range(0, 25); ho.compareOften = false; if (r.chance(15)) ho.maxPayload = 30000; if (r.below(300) == 0) { ho.maxPayload = 2500000; ho.steps = std::min(ho.steps, 10); ev("large-payloads"); }
        hist::Session s(r, f, ho); s.open(cur);
        for (int k = 0; k < ho.steps; ++k) s.step();
        s.close();
        cur = s.m.toDoc();
        auto v = czi::validate(f->data, false);
        VH_EQ(v.sb.size(), cur.sb.size(), "structure-count", "sub-block segments"); VH_EQ(v.at.size(), cur.at.size(), "structure-count", "attachment segments");
        ev("rw-file-validated"); ev("live-segments", v.live.size());
        ctx().seenHash(hash64(f->data.data(), f->data.size()));
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C02", Options{ 2000, 40000 }, oneCase); }
