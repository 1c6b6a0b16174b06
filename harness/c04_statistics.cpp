// C04: the statistics always match the set of sub-blocks present.
#include "hist.hpp"
using namespace vh; using namespace doc;

static void oneCase(Rng& r, uint64_t)
{
    Gen g; g.maxSb = r.chance(15) ? 80 : 14; g.arbitraryPayload = true; g.maxPayload = 8;
    auto f = makeFile(); Doc cur;
    int n = r.chance(10) ? 0 : r.range(0, g.maxSb); if (r.below(300) == 0) { n = r.range(500, 1200); ev("many-subblocks"); } auto dims = randomDims(r, g.maxDims); if (r.chance(50) && !std::count(dims.begin(), dims.end(), 5)) dims.push_back(5);
    bool mixed = r.chance(30);
    for (int i = 0; i < n; ++i)
    {
        Sb s = randomSb(r, g, mixed ? randomDims(r, 9) : dims); s.md.clear(); s.att.clear();
        if (r.chance(15)) { int f2 = r.pick({ 2,3,4,8,9,16,27,32,64,81,128,243,256,512,729,1024,2187, 5,7,100 }); s.w = s.pw * f2 + r.range(-1, 1); s.h = s.ph * f2; if (s.w < 1) s.w = 1; }
        bool c = false; for (auto& q : cur.sb) if (clash(q, s)) c = true; if (!c) cur.sb.push_back(s);
    }
    ctx().currentDesc = summary(cur); ctx().sample(ctx().currentDesc);
    write(r, cur, std::make_shared<MemOut>(f), WriteOpts());
    {
        auto rd = openReader(f);
        int reps = r.range(1, 3);
        for (int i = 0; i < reps; ++i) { if (r.chance(50)) { rd->GetPyramidStatistics(); } stats::check(cur.sb, rd->GetStatistics(), rd->GetPyramidStatistics(), true, "reader"); ev("reader-statistics"); }
        for (auto& s : cur.sb) ctx().seen(s.infoKey());
    }
    if (r.chance(70))
    {
        hist::Opts ho; ho.checkStats = true; ho.steps = r.range(1, 40); ho.maxPayload = 40;
        hist::Session s(r, f, ho); s.open(cur); if (r.chance(50)) s.checkStatistics();
        for (int k = 0; k < ho.steps; ++k) { s.step(); if (r.chance(25)) s.checkStatistics(); }
        s.checkStatistics(); cur = s.m.toDoc(); s.close();
        auto rd = openReader(f); stats::check(cur.sb, rd->GetStatistics(), rd->GetPyramidStatistics(), true, "reader after editing"); ev("reader-statistics-after-editing");
        ctx().seen(s.log);
    }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C04", Options{ 2000, 40000 }, oneCase); }
